#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks present and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import importlib.util
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")) and p in NOTES:
        checks.append(dict(property=p, quick_cmd="python3-vt run.py %s" % p, thorough_cmd="python3-vt run.py %s --tier thorough" % p,
                           technique=NOTES[p]["technique"], level="model_checking", level_note=NOTES[p]["note"]))
    else: na.append(dict(property=p, reason=NOTES.get(p, {}).get("reason", "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na,
               hooks=dict(guard="none", enable="no hooks: every observation is made at public interfaces", source_commits=[])),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
