#!/usr/bin/env python3
"""Write MANIFEST.json from the registry."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from xa import registry as R
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in R.USES:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": R.TECHNIQUE.get(i, "abstract interpretation of compiler MIR"), "level": "other",
                       "level_note": R.NOTE.get(i, R.DEFAULT_NOTE)})
    else:
        na.append({"property": i, "reason": R.NA.get(i, "no check yet")})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
