#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
from plan import PLAN
from techniques import TECH, NOTE
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 run.py check " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + i,
                       "technique": TECH[i], "level": "exploration", "level_note": NOTE.get(i, NOTE["*"])})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "its check is not built yet"} for p in props if p["id"] not in PLAN],
     "notes": "No hooks in /repo. A replay file is run with: python3 run.py replay <file>. Known findings and repaired defects: known_findings.txt"}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
open(ROOT + "/MANIFEST.json", "a").write("\n")
