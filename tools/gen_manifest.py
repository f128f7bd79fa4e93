#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = "exhaustive bounded enumeration of inputs/call sequences on the real code against an independent reference model"
NOTE = "Every case of the stated bounded space is executed on the real code (rebuilt from /repo, AddressSanitizer) and compared with an independent model. Bounds: {b}. Trusted: gcc, ASan runtime, the reference model in /verif/src."
checks, na = [], []
REASONS = {}
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason=REASONS.get(p["id"], "check still under construction")))
        continue
    cmd = f"python3 run.py {p['id']} --tier "
    checks.append(dict(property=p["id"], quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough",
        technique="model checking: " + c.get("technique", TECH), level=c.get("level", "model_checking"),
        level_note=c.get("note", NOTE).format(b=c["bounds"])))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="known findings and repaired defects: known_findings.json; design, bounds and catch matrix: DESIGN.md")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
