#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plans."""
import json, sys
sys.dont_write_bytecode = True
import check, plans
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        pl = plans.PLANS[i]
        checks.append({"property": i, "quick_cmd": "./check.py %s quick" % i, "thorough_cmd": "./check.py %s thorough" % i,
                       "technique": pl["technique"], "level": "model_checking", "level_note": pl["note"]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the binding is at the public API. Known findings: known-findings.jsonl."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
