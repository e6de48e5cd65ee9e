#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plans

TECH = {
    "default": "TLA+ specification of the API contract; TLC-enumerated and generated call scripts executed on the crate, "
               "recorded traces validated against the specification with TLC",
}
TECH.update(getattr(plans, "TECH", {}))
NOTE = {
    "default": "Every recorded call must be a step of the specification (integer-exact oracle). Assurance is for the "
               "scripts executed: exhaustive in the small enumerated scopes, sampled beyond. Trusts TLC, the executor's "
               "projection of floats to lattice integers, and that generic code behaves on lattice values as on others.",
}
NOTE.update(getattr(plans, "NOTE", {}))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if hasattr(plans, i):
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": TECH.get(i, TECH["default"]),
            "level": "model_checking",
            "level_note": NOTE.get(i, NOTE["default"]),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public API. Known findings and repairs: known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
