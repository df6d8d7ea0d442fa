"""MANIFEST.json from rv/checks.json and properties.jsonl: python3 tools/gen_manifest.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(HERE, "rv/checks.json")))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
TRUST = ("Held on the executions listed in the evidence file, nothing more. Trusts the simulated network and clock "
         "(rv/sim.py), the in-memory Redis the package itself ships as its memory:// backend, and the oracle in rv/props/{m}.py.")
out = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no source hooks: monitors observe public API, task bodies and the Redis command stream", "source_commits": []}, "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    m = checks.get(i)
    if m and os.path.exists(os.path.join(HERE, f"rv/props/{i.lower()}.py")) and not m.get("unclaimed"):
        out["checks"].append({
            "property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": m.get("technique", "runtime monitoring: offline oracle over recorded event histories of the real code under a seeded virtual-time simulation with injected delays, faults and crashes"),
            "level": m["level"], "level_note": (m.get("note", "") + " " + TRUST.format(m=i.lower())).strip()})
    else:
        out["not_applicable"].append({"property": i, "reason": (m or {}).get("unclaimed") or "its monitor is not built yet"})
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "claimed;", [x["property"] for x in out["not_applicable"]])
