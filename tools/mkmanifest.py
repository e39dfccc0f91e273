#!/usr/bin/env python3
"""rewrites MANIFEST.json from the properties that have rules"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
check.load_rules()
NA = {
    "S01": "a statement about limiting frequencies of a random draw over many agents; no static argument over the source bounds a sampled distribution (R05 decides the static part: the draw uses exactly these weights)",
    "S02": "equality of distributions of two randomised programs whose draws are consumed in a different order; nothing in the source text decides it (M01-M03 decide the exchanged quantities)",
}
TECH = "path-sensitive static dataflow over the syntax tree (per-path effects, value numbering, guard facts)"
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = ("Static rules over every path of the functions involved, loop bodies taken once for an arbitrary iteration; holds for all inputs within the "
        "interpreter's model of Python (no monkey patching, no aliasing of distinct parameters). Trusts the source-to-term translation in pathflow.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.RULES:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": check.TECH.get(i, TECH) if hasattr(check, "TECH") else TECH, "level": "other", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "not decided yet: the rules for this property are still being built")})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q pathflow check.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. check.py analyses /repo's current source (PATHFLOW_REPO overrides) and never runs it."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
