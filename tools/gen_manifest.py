#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and engine/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine")
import specs
NOTES = json.load(open(V + "/tools/level_notes.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in specs.SPECS:
        n = NOTES[i]
        checks.append(dict(property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i,
                           technique=n[0], level="exploration", level_note=n[1]))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, ["", "check not built yet"])[1]))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks were needed in /repo. Every check copies /repo's sources to a scratch directory, runs the project's own generators there, compiles, and searches.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
