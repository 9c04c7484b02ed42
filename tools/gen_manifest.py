#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lib import properties

ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = []
for i in ids:
    if i in properties.REGISTRY:
        p = properties.REGISTRY[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": "TLA+ specification checked with TLC; traces recorded from the built "
                         "solver validated against it" + (" and behaviours of the model replayed"
                                                          if p.replay else ""),
            "level": "model_checking",
            "level_note": p.level_note})
NA = {}
m = {"version": 1, "setup_cmd": "python3 -m lib.build setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "check under construction")}
                        for i in ids if i not in properties.REGISTRY],
     "notes": "No hooks in /repo: the Python bindings expose every state the specification needs."}
with open(f"{V}/MANIFEST.json", "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
