#!/usr/bin/env python3
"""Writes tools/costs.json from the evidence files of the last runs (run after the quick tier of every check)."""
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "tools", "costs.json")
old = json.load(open(OUT)) if os.path.exists(OUT) else {}
for f in sorted(glob.glob(HERE + "/evidence/C*.json")):
    d = json.load(open(f))
    if d["tier"] == "quick":
        c = d["coverage"]
        old[d["property"]] = "quick tier about %d s, %s states, %s transitions" % (
            max(1, round(d["wall_s"])), c["states"], c["transitions"])
json.dump(old, open(OUT, "w"), indent=1, sort_keys=True)
