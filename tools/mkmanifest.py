#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present.  Edit NOTES here, run, commit both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
for line in open(os.path.join(V, "tools", "notes.txt")):
    if line.strip():
        k, tech, note = [x.strip() for x in line.split("|", 2)]
        NOTES[k] = (tech, note)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", "chk_%s.py" % i.lower())) and i in NOTES:
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": NOTES[i][0], "level": "model_checking", "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": "no check built yet; to be decided by the specification in a later commit"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
