#!/usr/bin/env python3
"""Run the check of one property:  python3 check.py D01 [--tier quick] [--replay FILE]

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: inconclusive (monitor not reached) or harness error.
"""
import argparse
import glob
import importlib.util
import json
import os
import queue
import subprocess
import sys
import tempfile
import threading
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def build_shim(tmp):
    out = os.path.join(tmp, "vclock.so")
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", out, os.path.join(HERE, "rv/shim/vclock.c")], check=True)
    return out


class Pool:
    def __init__(self, prop, tier, seed, shim, stderr_path):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.stderr_path = stderr_path
        env = dict(os.environ)
        for k in list(env):
            if k.startswith(("DOCKET_", "OTEL_", "REDIS_", "COVERAGE")):
                env.pop(k)
        env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LD_PRELOAD=shim,
                   PYTHONPATH=f"{HERE}:{REPO}/src", TZ="UTC", OTEL_SDK_DISABLED="false", VERIF_REPO=REPO)
        self.env = env

    def spawn(self):
        return subprocess.Popen(
            [PYTHON, os.path.join(HERE, "rv/server.py"), self.prop, self.tier, str(self.seed)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(self.stderr_path, "ab"),
            text=True, bufsize=1, env=self.env, cwd=HERE)

    def run_one(self, index, timeout=200):
        p = self.spawn()
        try:
            return self.ask(p, index, timeout)
        finally:
            p.kill()
            p.wait()

    @staticmethod
    def ask(p, index, timeout):
        t = threading.Timer(timeout, p.kill)
        t.start()
        try:
            p.stdin.write(f"{index}\n")
            p.stdin.flush()
            line = p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ""
        finally:
            t.cancel()
        return json.loads(line) if line else None


def run_cases(pool, indices, jobs, deadline, stop_on, recycle=40):
    todo = queue.Queue()
    for i in indices:
        todo.put(i)
    results, lock, stop = [], threading.Lock(), threading.Event()

    def worker():
        p, used = None, 0
        while not stop.is_set() and time.time() < deadline:
            try:
                i = todo.get_nowait()
            except queue.Empty:
                break
            if p is None:
                p, used = pool.spawn(), 0
            r = pool.ask(p, i, 200)
            used += 1
            if r is None:
                p.kill(); p.wait(); p = None
                r = {"index": i, "violations": [], "stats": {}, "hash": f"dead{i}", "nontrivial": False,
                     "inconclusive": "case server died or timed out", "sample": "", "error": None, "variant": "?"}
            elif used >= recycle:
                p.kill(); p.wait(); p = None
            with lock:
                results.append(r)
            if stop_on(r):
                stop.set()
        if p is not None:
            p.kill(); p.wait()

    ts = [threading.Thread(target=worker) for _ in range(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return results


def load_known(prop):
    path = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d["property"] == prop:
                    out.append(d)
    return out


def meta(prop):
    spec = json.load(open(os.path.join(HERE, "rv/checks.json")))
    return spec[prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--index", type=int)
    ap.add_argument("--count", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    m = meta(a.prop)
    known = load_known(a.prop)
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="rv-") as tmp:
        shim = build_shim(tmp)
        stderr_path = os.path.join(tmp, "stderr")
        if a.replay:
            d = json.load(open(a.replay))
            a.seed, a.tier, a.index = d["base_seed"], d["tier"], d["index"]
        pool = Pool(a.prop, a.tier, a.seed, shim, stderr_path)
        if a.index is not None:
            r = pool.run_one(a.index)
            print(json.dumps(r, indent=1))
            print(open(stderr_path).read()[-3000:])
            sys.exit(1 if r and r["violations"] else 0)

        def is_known(v):
            return next((k for k in known if k["sig"] == v["sig"]), None)

        def fresh(r):
            return [v for v in r["violations"] if not is_known(v)]

        count = a.count or m["count"][a.tier]
        budget = m.get("budget", {}).get(a.tier, 150 if a.tier == "quick" else 780)
        results = run_cases(pool, range(count), a.jobs, t0 + budget,
                            lambda r: bool(fresh(r)) and not a.keep_going)
        results.sort(key=lambda r: r["index"])
        stats = Counter()
        for r in results:
            stats.update(r["stats"])
        errors = [r for r in results if r["error"]]
        inconcl = [r for r in results if r["inconclusive"]]
        seen_known = {}
        for r in results:
            for v in r["violations"]:
                k = is_known(v)
                if k:
                    seen_known.setdefault(k["sig"], (k, r))
        confirmed = unrepro = None
        n_viol = 0
        shown = Counter()
        for r in results:
            f = fresh(r)
            if not f:
                continue
            n_viol += 1
            if a.keep_going:
                shown[f[0]["sig"]] += 1
                if shown[f[0]["sig"]] <= 3:
                    print(f"  case {r['index']} {r['variant']}: {f[0]['sig']}: {f[0]['msg'][:700]}")
            if confirmed is None:
                ok = None
                for _ in range(3):
                    again = pool.run_one(r["index"])
                    if again and fresh(again):
                        ok = again
                        break
                if ok:
                    confirmed = ok
                else:
                    unrepro = r
        wall = time.time() - t0
        nontriv = {r["hash"] for r in results if r["nontrivial"]}
        samples = [r["sample"] for r in results if r["sample"]][:4]
        stderr_tail = open(stderr_path, errors="replace").read()[-3000:] if os.path.exists(stderr_path) else ""
    if a.keep_going:
        print("by signature:", dict(shown))
    variants = Counter(r["variant"] for r in results)
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
        "level": m["level"],
        "coverage": {
            "evaluations": len(results), "distinct_nontrivial": len(nontriv), "rule": m["rule"],
            "samples": samples or ["(none)"],
            "generators": dict(variants),
            "observed": {k: v for k, v in sorted(stats.items())},
            "inconclusive_cases": len(inconcl),
            "unreproduced": 1 if (unrepro and not confirmed) else 0,
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": m.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": n_viol if confirmed else 0,
    }
    with open(os.path.join(evdir, f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k["sig"] in seen_known:
            print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
        else:
            print(f"note: listed finding {k['sig']} was not observed in this run")
    print(f"{a.prop} {a.tier} seed={a.seed}: {len(results)} cases, {len(nontriv)} distinct non-trivial, "
          f"{len(inconcl)} inconclusive, {len(errors)} errors, {wall:.1f}s; "
          + ", ".join(f"{k}={v}" for k, v in sorted(stats.items()) if k in m.get("show", ["starts", "ends", "checks", "crashs"])))
    if confirmed:
        rp = os.path.join(evdir, "replays")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, f"{a.prop}-{a.tier}-{a.seed}-{confirmed['index']}.json")
        f = fresh(confirmed)
        json.dump({"property": a.prop, "tier": a.tier, "base_seed": a.seed, "index": confirmed["index"],
                   "variant": confirmed["variant"], "violations": f,
                   "rerun": f"python3 check.py {a.prop} --replay {path}"}, open(path, "w"), indent=1)
        print(f"{f[0]['sig']}: {f[0]['msg'][:700]}")
        print(f"VIOLATION property={a.prop} replay={path}")
        sys.exit(1)
    if unrepro:
        v = fresh(unrepro)[0]
        print(f"note: case {unrepro['index']} reported {v['sig']} once but not on 3 re-runs: {v['msg'][:500]}")
    if errors:
        print(f"harness error in case {errors[0]['index']} ({errors[0]['variant']}):\n{errors[0]['error']}\n{stderr_tail}")
        sys.exit(2)
    if len(inconcl) > max(2, len(results) // 5) or not results:
        print(f"inconclusive: {len(inconcl)} of {len(results)} cases; e.g. {inconcl[:1]}\n{stderr_tail}")
        sys.exit(2)
    for k, need in m.get("reach", {}).items():
        got = len(nontriv) if k == "distinct_nontrivial" else stats.get(k, 0)
        if got < need:
            print(f"inconclusive: monitor reached {k}={got}, needs {need}")
            sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
