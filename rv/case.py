"""One case = one seeded execution of the real code plus its oracle."""

from __future__ import annotations

import hashlib
import importlib
import os
import random
import traceback
from collections import Counter
from typing import Any, Callable

from . import sim as _sim


TRACE = os.environ.get("RV_TRACE")


class Inconclusive(Exception):
    pass


class Case:
    def __init__(self, prop: str, seed: str, tier: str, index: int, variant: str) -> None:
        self.prop, self.seed, self.tier, self.index, self.variant = prop, seed, tier, index, variant
        self.rng = random.Random(f"case:{seed}")
        self.violations: list[dict[str, str]] = []
        self.stats: Counter[str] = Counter()
        self.hashes: list[str] = []
        self.nontrivial = False
        self.inconclusive: str | None = None
        self.sample: str = ""
        self.error: str | None = None
        self.sims: list[_sim.Sim] = []
        self.thorough = tier == "thorough"

    # -- verdicts --------------------------------------------------------
    def violation(self, sig: str, msg: str) -> None:
        if len(self.violations) < 20:
            self.violations.append({"sig": sig, "msg": msg[:1500]})

    def check(self, ok: bool, sig: str, msg: str | Callable[[], str] = "") -> bool:
        self.stats["checks"] += 1
        if not ok:
            self.violation(sig, msg() if callable(msg) else msg)
        return ok

    def count(self, name: str, n: int = 1) -> None:
        self.stats[name] += n

    # -- simulation ------------------------------------------------------
    def sim(self, **kw: Any) -> _sim.Sim:
        if TRACE:
            kw["record_commands"] = True
        s = _sim.Sim(f"{self.seed}:{len(self.sims)}", **kw)
        self.sims.append(s)
        return s

    def run(self, s: _sim.Sim, main: Callable[[_sim.Sim], Any], wall: float = 90.0) -> Any:
        before = []
        try:
            for name, value in s.constants.items():
                mod, _, attr = name.rpartition(".")
                m = importlib.import_module(mod)
                if hasattr(m, attr):
                    before.append((m, attr, getattr(m, attr)))
                    setattr(m, attr, value)
            return s.run(main, wall=wall)
        except _sim.WallTimeout:
            raise Inconclusive("wall-clock budget of the case exhausted")
        finally:
            for m, attr, value in before:
                setattr(m, attr, value)
            if TRACE:
                with open(TRACE, "a") as f:
                    rows = [(t, f"{p:10} {n} {a}") for t, p, n, a in s.command_log]
                    rows += [(e.t, "            ** " + str(dict(e))) for e in s.events]
                    for t, line in sorted(rows):
                        f.write(f"{t - s.epoch:9.4f} {line}\n")
            self.stats["redis_commands"] += s.commands
            self.stats["events"] += len(s.events)
            for k, v in s.faults.items():
                self.stats["fault:" + k] += v
            for e in s.events:
                if e["kind"] in ("start", "end", "crash"):
                    self.stats[e["kind"] + "s"] += 1
            self.hashes.append(s.history_hash())

    def as_dict(self) -> dict[str, Any]:
        h = hashlib.blake2b("".join(self.hashes).encode(), digest_size=8).hexdigest()
        return {
            "index": self.index, "variant": self.variant, "seed": self.seed,
            "violations": self.violations, "stats": dict(self.stats), "hash": h,
            "nontrivial": self.nontrivial, "inconclusive": self.inconclusive,
            "sample": self.sample[:600], "error": self.error,
        }


def execute(prop: str, fn: Callable[[Case], None], variant: str, seed: str, tier: str, index: int) -> Case:
    c = Case(prop, seed, tier, index, variant)
    try:
        fn(c)
    except Inconclusive as e:
        c.inconclusive = str(e)
    except _sim.WallTimeout:
        c.inconclusive = "wall-clock budget of the case exhausted"
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = "".join(traceback.format_exception(e))
        frames = traceback.extract_tb(e.__traceback__)
        if any("/docket/" in f.filename and "/rv/" not in f.filename for f in frames):
            c.violation("unexpected-exception", "the library raised in the workload: " + " | ".join(x.strip() for x in tb.strip().splitlines()[-6:])[-700:])
        else:
            c.error = tb[-4000:]
    return c
