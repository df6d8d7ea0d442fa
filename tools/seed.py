#!/usr/bin/env python3
"""Author and confirm planted bugs (kept in /verif/seeded; no check reads them).

  seed.py mk SPECS.py [ID...]     write seeded/<id>/ from a list SPECS of dicts
  seed.py verify ID...            demo clean/patched, stable tests, original lines, the property's check
  seed.py check ID [Dnn...]       only the checks, against a patched copy
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "a6a81c8"
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# exit 0: the property holds; 1: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix="seed-")
    shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".venv"))
    return d


def mk(path, only):
    for s in runpy.run_path(path)["SPECS"]:
        if only and s["id"] not in only:
            continue
        d = scratch()
        try:
            for f, old, new in s["edits"]:
                p = f"{d}/repo/src/docket/{f}"
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = sh(["git", "diff"], cwd=d + "/repo").stdout
            out = f"{HERE}/seeded/{s['id']}"
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.sh", "w").write(DEMO)
            open(out + "/demo.py", "w").write(s["demo"].lstrip("\n"))
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            print("made", s["id"])
        finally:
            shutil.rmtree(d)


def original_lines(wt, patch):
    """Every file the patch touches loses at least one line the base commit had."""
    cur, ok = None, {}
    for line in open(patch):
        if line.startswith("--- a/"):
            cur = line[6:].strip()
            ok[cur] = False
            base = set(x.strip() for x in sh(["git", "show", f"{BASE}:{cur}"], cwd=wt).stdout.splitlines())
        elif line.startswith("-") and cur and line[1:].strip() in base and line[1:].strip():
            ok[cur] = True
    return any(ok.values())


def verify(i, run_tests=True):
    out = f"{HERE}/seeded/{i}"
    res = {"id": i, "property": json.load(open(out + "/meta.json"))["property"]}
    d = scratch()
    try:
        wt = d + "/repo"
        r = sh(["bash", out + "/demo.sh"], cwd=wt)
        res["demo_clean"] = r.returncode
        if r.returncode:
            res["out_clean"] = (r.stdout + r.stderr)[-600:]
        a = sh(["git", "apply", out + "/patch.diff"], cwd=wt)
        if a.returncode:
            res["apply"] = a.stderr
            return res
        res["original"] = original_lines(wt, out + "/patch.diff")
        r = sh(["bash", out + "/demo.sh"], cwd=wt)
        res["demo_patched"] = r.returncode
        res["out_patched"] = (r.stdout + r.stderr).strip()[-160:]
        if run_tests:
            env = dict(os.environ, REDIS_VERSION="memory", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", COVERAGE_FILE=d + "/.cov", PYTHONPATH=wt + "/src")
            for _ in range(2):
                sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:randomly", "-o", "addopts=--import-mode=importlib", "-n", "4", "--timeout=30",
                    "-o", "junit_family=xunit2", f"--junitxml={d}/junit.xml"], cwd=wt, env=env)
                sh(["python3", "/opt/vp/results.py", d + "/o.json", f"junit:{d}/junit.xml"])
                st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                miss = sorted(st - set(json.load(open(d + "/o.json")).get("passed", [])))
                res["tests_missing"] = miss[:5]
                if not miss:
                    break
        return res
    finally:
        shutil.rmtree(d)


def check(i, props=None):
    out = f"{HERE}/seeded/{i}"
    props = props or [json.load(open(out + "/meta.json"))["property"]]
    d = scratch()
    res = {}
    try:
        assert sh(["git", "apply", out + "/patch.diff"], cwd=d + "/repo").returncode == 0
        for p in props:
            t = time.time()
            env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=d + "/ev")
            r = sh(["python3", "check.py", p], cwd=HERE, env=env)
            res[p] = (r.returncode, round(time.time() - t), (r.stdout.strip().splitlines() or [""])[-2 if r.returncode == 1 else -1][:300])
        return res
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "mk":
        mk(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "verify":
        with ThreadPoolExecutor(2) as ex:
            for r in ex.map(verify, sys.argv[2:]):
                print(json.dumps(r))
        for i in sys.argv[2:]:
            print(i, check(i))
    else:
        print(check(sys.argv[2], sys.argv[3:]))
