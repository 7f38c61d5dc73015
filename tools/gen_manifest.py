#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN
try:
    from plan import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "./check --build",
     "checks": [{"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                 "technique": PLAN[i]["technique"], "level": "model_checking", "level_note": PLAN[i]["note"]} for i in ids if i in PLAN],
     "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "check under construction")} for i in ids if i not in PLAN]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
