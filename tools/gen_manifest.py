#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claimed properties are those listed in CLAIMED."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
CLAIMED = json.load(open(os.path.join(ROOT, "tools", "claimed.json")))
NA = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: " + CLAIMED[i]["technique"],
            "level": "exploration",
            "level_note": CLAIMED[i]["note"],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
