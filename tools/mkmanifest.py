#!/usr/bin/env python3
"""Writes MANIFEST.json: one check for every property the analyser has a checker for."""
import json, re, subprocess, sys
sys.path.insert(0, '/verif/tools')
from levels import TECH, NOTE, NA
props = [json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
checks = []
for p in props:
    if p in NA:
        continue
    checks.append({"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
                   "evidence_file": f"evidence/{p}.json", "technique": TECH[p], "level": "other", "level_note": NOTE[p]})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p in NA],
     "notes": "One analyser (analyzer/, Go, vendored x/tools) decides every property from the source of /repo; nothing of /repo is executed. No hooks in /repo."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
