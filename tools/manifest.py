#!/usr/bin/env python3
"""Writes MANIFEST.json from the claimed list."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from properties import P
from claims import CLAIMS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for x in P:
    i = x["id"]
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick",
                       "thorough_cmd": f"python3 check.py {i} thorough",
                       "technique": t, "level": "model_checking", "level_note": note})
na = [{"property": x["id"], "reason": NA.get(x["id"], "not built yet")} for x in P if x["id"] not in CLAIMS]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Specifications in TLA+ (spec/), checked with TLC; drivers in harness/ are built from /repo by every check. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
