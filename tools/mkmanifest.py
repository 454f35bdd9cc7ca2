#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and the list of properties."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import registry

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in registry.CHECKS:
        tech, note = registry.NOTES[p]
        checks.append({"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "python3 run.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": p, "reason": registry.NOT_APPLICABLE.get(p, "not built yet")})
m = {"version": 1, "setup_cmd": "python3 -m engine.program", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they parse /repo's current sources (release flags) and never run the library. "
              "Exit 2 means the analysis could not give an answer."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
