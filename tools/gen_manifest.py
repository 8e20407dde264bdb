#!/usr/bin/env python3
"""Writes MANIFEST.json from props/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "props")]
from registry import PROPS, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        c = {"property": i, "quick_cmd": "python3 lib/check.py " + i,
             "thorough_cmd": "VERIF_TIER=thorough python3 lib/check.py " + i,
             "technique": p["technique"], "level": p.get("level", "proof"), "level_note": p["note"]}
        if p.get("theorems"):
            c["theorems"] = p["theorems"]
        checks.append(c)
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: units include or extract /repo's current source. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
