"""D38: the metrics and healthcheck endpoints."""
import json
import os
import subprocess
import sys

from rv.case import Inconclusive

CHILD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "metrics_child.py")


def endpoints(c):
    env = dict(os.environ)
    env.pop("LD_PRELOAD", None)         # real clocks and threads
    for attempt in range(3):
        try:
            p = subprocess.run([sys.executable, CHILD, f"{c.seed}/{attempt}"], env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=170)
        except subprocess.TimeoutExpired:
            raise Inconclusive("a run of the servers took too long")
        try:
            d = json.loads(p.stdout.splitlines()[-1])
        except (ValueError, IndexError):
            raise Inconclusive(f"the process with the servers ended with {p.returncode}: {p.stderr[-500:]}")
        if d["error"] and "Address already in use" in d["error"]:
            continue
        break
    if d["error"] and d["error"].rstrip().endswith("TimeoutError"):
        raise Inconclusive("the work took too long")
    c.check(not d["error"], "failed", d["error"] or "")
    for v in d["violations"]:
        c.violation(v["sig"], v["msg"])
    for k, n in d["stats"].items():
        c.count(k, n)
    c.nontrivial = d["stats"].get("counters", 0) > 0 and d["stats"].get("probes", 0) > 0
    c.hashes.append(c.seed)
    c.sample = f"{d['ledger']} series, {d['stats'].get('scrapes')} scrapes, {d['stats'].get('probes')} probes, {d['stats'].get('delays', 0)} delays"


GENERATORS = [(endpoints, 1)]
