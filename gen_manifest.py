#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the drivers in src/."""
import json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open("level_notes.json"))
checks, na = [], []
for l in open("properties.jsonl"):
    i = json.loads(l)["id"]
    if os.path.exists(f"src/{i}.cc") and i in notes:
        technique, note = notes[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i}",
                           thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
                           technique=technique, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na),
          open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
