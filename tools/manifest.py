#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property modules present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
import sys
sys.path.insert(0, V + "/tools")
from levels import TECH, NOTE
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/harness/props/%s.py" % i.lower()):
        checks.append({
            "property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH.get(i, TECH["default"]), "level": "exploration", "level_note": NOTE.get(i, NOTE["default"]),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are property-based tests: Hypothesis (CPython) generates and shrinks cases, a PyPy worker executes them on the code of /repo with virtual time, explicit oracles in harness/ judge them. No hooks in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
