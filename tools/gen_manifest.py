#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPERTIES
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPERTIES: continue
    p = PROPERTIES[i]
    checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./check --build-all", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in PROPERTIES],
     "notes": "No hooks in /repo: harnesses compile /repo's sources unchanged. Defects found and repaired are listed in KNOWN_FINDINGS."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
