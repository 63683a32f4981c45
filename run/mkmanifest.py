#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = json.load(open(os.path.join(V, "run", "claims.json")))
checks, na = [], []
for p in props:
    c = T.get(p["id"])
    if c and os.path.exists(os.path.join(V, "run", "c" + p["id"][1:] + ".py")):
        checks.append({"property": p["id"],
                       "quick_cmd": "VERIF_TIER=quick python3 run/check.py " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 run/check.py " + p["id"],
                       "technique": c[0], "level": "model_checking", "level_note": c[1]})
    else:
        na.append({"property": p["id"], "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "bash run/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ / TLC; see DESIGN.md. No hooks in /repo are needed: everything is observed through the public API."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
