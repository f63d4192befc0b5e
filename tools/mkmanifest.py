#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of the checks."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
from registry import CHECKS, NOTES  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append({"property": i, "reason": "its check is not finished yet"})
        continue
    cmd = "python3 bin/check.py " + i
    checks.append({
        "property": i, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
        "evidence_file": "evidence/%s.json" % i,
        "technique": NOTES[i][0], "level": "model_checking", "level_note": NOTES[i][1]})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Specifications in TLA+ (spec/), checked with TLC and bound to the code by replaying "
              "behaviours of the specification into the real code and validating the recorded "
              "traces with TLC. No hooks in /repo: the drivers are test packages that exist in a "
              "build overlay only."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
