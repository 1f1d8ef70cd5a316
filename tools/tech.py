#!/usr/bin/env python3
"""tech.py PROP TECHNIQUE NOTE: record the technique of a property."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "techniques.json")
T = json.load(open(p))
T[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(T, open(p, "w"), indent=1)
