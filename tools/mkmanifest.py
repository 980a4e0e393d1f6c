#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(ROOT, "tools"))
from suites import PROPS
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": PROPS[i].get("technique", "TLA+ specification: TLC-generated sessions replayed into the code, recorded traces validated by TLC; design model checked by TLC"),
                       "level": "model_checking",
                       "level_note": PROPS[i].get("note", "Every validated call of the implementation met the specification's obligation for this property; the specification's own invariants hold in the explored bounds. The calls are generated (boundary values, simulated behaviours), not all calls. Trusted: TLC, java/Prims.java, the driver.")})
    else:
        na.append({"property": i, "reason": "not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
