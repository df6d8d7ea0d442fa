"""D34: only arguments marked as loggable ever appear in logs, traces and metrics."""
import asyncio
import re
from dataclasses import dataclass
from typing import Annotated, Any

from rv.telemetry import Telemetry, span_text
from rv.world import World, sec, utc


@dataclass
class Box:
    content: Any

    def __str__(self):
        return f"<{self.content}>"


class Shy:
    """Not comparable with anything, and says so without its content."""

    def __init__(self, content):
        self.content = content

    def __repr__(self):
        return f"Shy({self.content})"

    def __eq__(self, o):
        raise TypeError("not comparable")

    __hash__ = object.__hash__


SHAPES = [lambda t: t, lambda t: t, lambda t: {"a": t}, lambda t: {t: 1}, lambda t: [t, t], lambda t: (1, [t]), lambda t: Box(t),
          lambda t: t.encode(), lambda t: {t}, lambda t: {"deep": [{"er": (t,)}]}, lambda t: Shy(t)]


def secrets(c):
    r = c.rng
    sim = c.sim(lat_max=0.003)
    faulty = r.random() < 0.3

    async def main(sim, tele):
        from docket import (ConcurrencyLimit, Cooldown, CurrentExecution, Debounce, Depends, ExponentialRetry, Logged,
                            Perpetual, Progress, RateLimit, Retry, TaskArgument, Timeout)
        w = World(c, sim, worker_kw=dict(concurrency=r.choice([2, 6]), redelivery_timeout=sec(1.0)))
        plan = {}
        hidden, sized = {}, {}   # token -> where it went
        n = [0]

        def token(kind):
            n[0] += 1
            return f"{kind}{r.getrandbits(40):010x}z{n[0]}"

        def secret(tag, where, simple=False):
            t = token("hush")
            hidden[t] = (tag, where)
            return t if simple else r.choice(SHAPES)(t)

        def loud(tag):
            v = r.choice([token("loud"), [token("loud")], {"k": token("loud")}])
            plan[tag]["loud"].append(repr(v))
            return v

        def size(tag):
            t = token("hush")
            sized[t] = tag
            k = r.randint(1, 12)
            v, s = r.choice([([t] * k, f"[len {k}]"), ({f"{t}{i}": i for i in range(k)}, f"{{len {k}}}"), (tuple([t] * k), f"(len {k})"), ({f"{t}{i}" for i in range(k)}, f"{{len {k}}}"), (t, f"[len {len(t)}]")])
            plan[tag]["loud"].append(s)
            return v

        async def body(tag, *more):
            p = plan[tag]
            async with w.running(tag):
                p["n"] = p.get("n", 0) + 1
                await asyncio.sleep(p["dur"])
                if p["fails"] >= p["n"]:
                    raise RuntimeError("boom")
            return more if p["returns"] else None

        # -- tasks, with what to call them with --------------------------------
        async def mixed(tag: str, hush: Any, said: Annotated[Any, Logged], length: Annotated[Any, Logged(length_only=True)], opt: Any = "d", *, hush2: Any = None, said2: Annotated[Any, Logged] = None) -> Any:
            return await body(tag, hush)

        async def rest(tag: str, *more: Any, said: Annotated[Any, Logged] = None, length: Annotated[Any, Logged()] = None, **others: Any) -> Any:
            return await body(tag, more)

        async def positional(said: Annotated[Any, Logged], /, tag: str, **others: Any) -> Any:
            return await body(tag, others)

        async def retried(tag: str, hush: Any, said: Annotated[Any, Logged] = 0, retry: Retry = Retry(attempts=3, delay=sec(0.05))) -> Any:
            return await body(tag, hush)

        async def repeated(tag: str, hush: Any, said: Annotated[Any, Logged] = 0, perpetual: Perpetual = Perpetual(every=sec(0.1))) -> Any:
            p = plan[tag]
            if p.get("n", 0) >= 3:
                perpetual.cancel()
            else:
                if r.random() < 0.3:
                    perpetual.after(sec(0.2))
                perpetual.perpetuate(tag, secret(tag, "perpetuated"), said)
            return await body(tag, hush)

        async def timed(tag: str, hush: Any, said: Annotated[Any, Logged] = 0, timeout: Timeout = Timeout(sec(0.1))) -> Any:
            return await body(tag, hush)

        async def limited(tag: str, email: Annotated[str, ConcurrencyLimit(1)], said: Annotated[Any, Logged] = 0) -> Any:
            return await body(tag)

        async def limited_default(tag: str, email: str, c: ConcurrencyLimit = ConcurrencyLimit("email", max_concurrent=1)) -> Any:
            return await body(tag)

        async def rated(tag: str, email: Annotated[str, RateLimit(1, per=sec(0.5))], said: Annotated[Any, Logged] = 0) -> Any:
            return await body(tag)

        async def rated_drop(tag: str, email: Annotated[str, RateLimit(1, per=sec(0.5), drop=True)]) -> Any:
            return await body(tag)

        async def cooled(tag: str, email: Annotated[str, Cooldown(sec(0.5))]) -> Any:
            return await body(tag)

        async def debounced(tag: str, email: Annotated[str, Debounce(sec(0.2))]) -> Any:
            return await body(tag)

        async def failing_factory(hush: Any = TaskArgument()):
            raise RuntimeError("factory")

        async def dependent(tag: str, hush: Any, said: Annotated[Any, Logged] = 0, x: Any = Depends(failing_factory)) -> Any:
            return await body(tag)

        async def stranger(tag: str, hush: Any, said: Annotated[Any, Logged] = 0, **kw: Any) -> Any:
            return await body(tag)

        async def fallback(*args: Any, said: Annotated[Any, Logged] = None, e=CurrentExecution(), **kw: Any) -> Any:
            return await body(e.key)

        keyed = [limited, limited_default, rated, rated_drop, cooled, debounced]
        known = [mixed, rest, positional, retried, repeated, timed, *keyed, dependent]
        for i in range(r.randint(1, 2)):
            await w.start_worker(f"w{i}", tasks=known, fallback_task=r.choice([None, fallback]), setup=lambda proc, gen: (setattr(proc, "p_fail_before", 0.02 if faulty else 0), setattr(proc, "p_fail_after", 0.01 if faulty else 0)))
        shared = {f.__name__: [secret("?", f"limit of {f.__name__}", simple=True) for _ in range(2)] for f in keyed}
        async with w.client(tasks=[*known, stranger]) as d:
            for _ in range(r.choice([0, 1, 2])):
                fn = r.choice([None, None, "mixed", "retried"])
                if r.random() < 0.5:
                    await d.strike(fn, "hush", r.choice(["==", "!=", "<", ">", "<=", ">=", "between"]) if r.random() < 0.6 else "<", r.choice([3, "a", (1, 2)]))
                else:
                    await d.strike(r.choice(["timed", "dependent", "stranger"]))
            late = r.random() < 0.4

            async def strike_later():
                await asyncio.sleep(r.uniform(0.1, 1.5))
                await d.strike(None, "hush", r.choice(["!=", ">"]), r.choice([3, "a", "\U0010ffff"]))
            if late:
                asyncio.ensure_future(strike_later())
            execs = {}
            for j in range(r.randint(12, 30)):
                tag = f"k{j}"
                plan[tag] = p = dict(loud=[], dur=r.choice([0, 0.02, 0.3, 0.8]), fails=r.choice([0, 0, 0, 1, 2, 5]), returns=r.random() < 0.3)
                f = r.choice([mixed, mixed, rest, rest, positional, retried, repeated, timed, dependent, stranger, *keyed])
                p["f"] = f.__name__
                if f is mixed:
                    a, k = (tag, secret(tag, "positional"), loud(tag), size(tag)), {}
                    if r.random() < 0.5:
                        a = a + (secret(tag, "optional"),)
                    if r.random() < 0.5:
                        k["hush2"] = secret(tag, "keyword-only")
                    if r.random() < 0.5:
                        k["said2"] = loud(tag)
                    p["byname"] = r.random() < 0.3
                    if p["byname"]:
                        k.update(zip(["tag", "hush", "said", "length", "opt"], a))
                        a = ()
                elif f is rest:
                    a = (tag, *(secret(tag, "*args") for _ in range(r.randint(0, 5))))
                    k = {x: secret(tag, "**kwargs") for x in r.sample(["x", "others", "more", "y"], r.randint(0, 3))}
                    if r.random() < 0.6:
                        k["said"] = loud(tag)
                    if r.random() < 0.3:
                        k["length"] = loud(tag)
                elif f is positional:
                    a, k = (loud(tag), tag), {}
                    if r.random() < 0.6:
                        k["said"] = secret(tag, "**kwargs sharing the name of a positional-only one")
                elif f in keyed:
                    a, k = (tag, r.choice(shared[f.__name__])), {}
                    if f in (limited, rated) and r.random() < 0.5:
                        k["said"] = loud(tag)
                elif f is stranger:
                    a, k = (tag, secret(tag, "to a fallback")), {"z": secret(tag, "to a fallback")}
                else:
                    a, k = (tag, secret(tag, "positional")), {}
                    if r.random() < 0.4:
                        k["hush"] = a[1]
                        a = a[:1]
                    if r.random() < 0.6:
                        k["said"] = loud(tag)
                if r.random() < 0.08:
                    # doesn't fit
                    if r.random() < 0.5 or f not in (mixed, rated_drop, cooled, debounced) or p.get("byname"):
                        k["unexpected"] = secret(tag, "ill-formed")
                    else:
                        a = a + tuple(secret(tag, "ill-formed") for _ in range(r.choice([1, 7])))
                    p["ill"] = True
                kw = {"key": tag}
                if r.random() < 0.3:
                    kw["when"] = utc(sim.wallclock() + r.choice([0.3, 0.8]))
                x = r.random()
                if x < 0.1:
                    execs[tag] = await d.replace(f, kw.get("when", utc(sim.wallclock() + 0.2)), tag)(*a, **k)
                else:
                    execs[tag] = await d.add(f, **kw)(*a, **k)
                x = r.random()
                if x < 0.08:
                    asyncio.get_running_loop().call_later(r.choice([0, 0.1, 0.5]), lambda tag=tag: asyncio.ensure_future(d.cancel(tag)))
                elif x < 0.16 and f in (retried, timed, dependent):
                    p2 = plan[tag]

                    async def supersede(f=f, tag=tag):
                        await asyncio.sleep(r.choice([0.05, 0.4]))
                        await d.replace(f, utc(sim.wallclock()), tag)(tag, secret(tag, "replacement"))
                    p2["replaced"] = True
                    asyncio.ensure_future(supersede())
                await asyncio.sleep(r.choice([0, 0, 0.1]))
            if r.random() < 0.3:
                await asyncio.sleep(0.3)
                w.kill_worker("w0")
            await asyncio.sleep(5)
            if r.random() < 0.3:
                await d.snapshot()
        for n_ in list(w.workers):
            await w.stop_worker(n_, 5)
        # -- everything the library emitted ------------------------------------
        spans, points = tele.spans(), tele.metrics()
        emitted = [("log " + rec.name + " " + rec.levelname, text) for rec, text in tele.records]
        emitted += [("span " + s.name, span_text(s)) for s in spans]
        emitted += [("metric " + name, repr(attrs)) for name, attrs, _ in points]
        quiet = {**{t: f"{x[0]} {plan.get(x[0], {}).get('f')} ({x[1]})" for t, x in hidden.items()}, **{t: f"{tag} {plan[tag]['f']} (only its length is to be logged)" for t, tag in sized.items()}}
        pat = re.compile("hush[0-9a-f]{10}z[0-9]+")
        starts_seen = 0
        for where, text in emitted:
            c.count("emissions")
            c.stats["checks"] += 1
            for t in pat.findall(text):
                if t in quiet or any(t.startswith(q) for q in quiet):
                    c.violation("leak", f"{where}: {text[:600]!r} has {t}, argument of {quiet.get(t)}")
        # -- and marked ones, as declared ---------------------------------------
        for rec, _ in tele.records:
            msg = rec.getMessage()
            m = re.match(r"^[↪↬] \[.*?\] (\w+)\((.*)\)\{(k\d+)\}$", msg, re.S)
            if m is None:
                continue
            starts_seen += 1
            p = plan[m.group(3)]
            if p.get("ill") or p.get("replaced") or p["f"] == "stranger":
                continue
            c.check(all(x in m.group(2) for x in p["loud"]), "marked-missing", lambda: f"{msg!r} doesn't have all of {p['loud']}")
            c.count("marked", len(p["loud"]))
        for rec, _ in tele.records:
            c.check("(broken log call" not in _, "broken-log-call", lambda: _[:500])
        c.count("secrets", len(quiet))
        c.count("spans", len(spans))
        c.count("start_lines", starts_seen)
        levels = {rec.levelname for rec, _ in tele.records}
        c.count("warnings", sum(rec.levelname in ("WARNING", "ERROR") for rec, _ in tele.records))
        c.nontrivial = starts_seen >= 5 and len(quiet) >= 10
        c.sample = f"{len(plan)} tasks, {len(quiet)} unmarked values, {len(emitted)} emissions at levels {sorted(levels)}, e.g. {[rec.getMessage()[:90] for rec, _ in tele.records if 'k1' in rec.getMessage()][:3]}"

    with Telemetry() as tele:
        c.run(sim, lambda s: main(s, tele))


GENERATORS = [(secrets, 1)]
