#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and the registered checks."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from manifest_table import CHECKS, NA
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = subprocess.run([os.path.join(V, "run.sh"), "-list"], capture_output=True, text=True, check=True).stdout.split()
checks, na = [], []
for p in props:
    if p in CHECKS and p in have:
        t, note = CHECKS[p]
        checks.append({"property": p, "quick_cmd": "./run.sh " + p, "thorough_cmd": "./run.sh " + p,
                       "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: one analyzer (analyzer/, Go, go/packages + go/ssa, vendored) type-checks /repo's working tree on every run and decides the rules of one property. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
for p in have:
    if p not in CHECKS: print("registered but not in the table:", p)
