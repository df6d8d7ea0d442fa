"""D39: servers of every kind that a URL can name."""
import json
import os
import subprocess
import sys

from rv.case import Inconclusive

CHILD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "net_child.py")


def run(c, *mode, again=True):
    env = dict(os.environ)
    env.pop("LD_PRELOAD", None)         # real clocks, threads and sockets
    for attempt in range(3):
        try:
            p = subprocess.run([sys.executable, CHILD, f"{c.seed}/{attempt}", *mode], env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=170)
        except subprocess.TimeoutExpired:
            raise Inconclusive("a run on the servers took too long")
        try:
            d = json.loads(p.stdout.splitlines()[-1])
        except (ValueError, IndexError):
            raise Inconclusive(f"the process with the servers ended with {p.returncode}: {p.stderr[-500:]}")
        if d["error"] and "Address already in use" in d["error"] or d["errors"]:
            continue
        break
    if d["errors"]:
        raise Inconclusive(f"the servers of this check failed: {d['errors']}")
    if d["error"] and ("the server of this check" in d["error"] or d["error"].split("\n[")[0].rstrip().endswith("TimeoutError")):
        raise Inconclusive(d["error"][-300:])
    wrong = list(d["violations"])
    if d["error"]:
        wrong.append({"sig": "failed", "msg": d["error"]})
    if wrong and again:
        # real sockets and clocks: what's wrong shows again
        for _ in range(2):
            try:
                if run(c, *mode, again=False):
                    break
            except Inconclusive:
                pass
        else:
            c.count("unconfirmed")
            raise Inconclusive(f"seen once in three runs: {wrong[0]}"[:600])
    if not again:
        return wrong
    for v in wrong:
        c.violation(v["sig"], v["msg"])
    for k, n in d["stats"].items():
        c.count(k, n)
    c.nontrivial = d["stats"].get("commands", 0) > 100
    c.hashes.append(c.seed)
    c.sample = f"{d['state']}: {d['stats'].get('tasks')} tasks, {d['stats'].get('commands')} commands, {d['stats'].get('connections')} connections"


def anything(c):
    run(c, "any")


def silence_standalone(c):
    run(c, "standalone", "idle")


def silence_sentinel(c):
    run(c, "sentinel", "idle")


def silence_cluster(c):
    run(c, "cluster", "idle")


DIRECTED = [silence_standalone, silence_sentinel, silence_cluster]
GENERATORS = [(anything, 1)]
