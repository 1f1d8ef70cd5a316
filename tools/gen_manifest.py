#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property the analyzer has a rule for."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
T = json.load(open(os.path.join(here, "techniques.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    t = T[p]
    if "not_applicable" in t:
        na.append({"property": p, "reason": t["not_applicable"]})
        continue
    if "technique" not in t:
        na.append({"property": p, "reason": "check not built yet"})
        continue
    checks.append({"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
                   "technique": t["technique"], "level": "other", "level_note": t["note"]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
