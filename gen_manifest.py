#!/usr/bin/env python3
"""MANIFEST.json from checks.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
conf = json.load(open(f"{V}/checks.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl") if l.strip()]
na = json.load(open(f"{V}/not_applicable.json"))
checks = []
for p in props:
    c = conf.get(p["id"])
    if not c:
        assert any(n["property"] == p["id"] for n in na), p["id"]
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']}", "thorough_cmd": f"python3 run.py {p['id']} --thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": c["technique"], "level": c["level"], "level_note": c["level_note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [n for n in na if n["property"] not in conf],
     "notes": "No hooks in /repo: contracts are attached to text extracted mechanically on every run (tool/, contracts/)."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
