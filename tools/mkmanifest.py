#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"],
        })
    else:
        na.append({"property": i, "reason": "the monitor for this property is not built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every monitor attaches through the public API (surface vtables, state getters), the linker or the compiler. "
              "Thorough runs need VERIF_TIER=thorough. Replay a violation with: python3 run.py --replay <path>."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
