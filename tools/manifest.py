#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from spec.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from spec import SPEC, LEVEL, TECH, NA, OFF
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": i, "quick_cmd": f"python3 tools/check.py {i} quick", "thorough_cmd": f"python3 tools/check.py {i} thorough",
                 "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, TECH[None]), "level": "model_checking", "level_note": LEVEL.get(i, LEVEL[None])} for i in ids if i in SPEC and i not in OFF],
     "not_applicable": [{"property": i, "reason": NA.get(i, "not claimed yet: its harness is being built")} for i in ids if i not in SPEC or i in OFF]}
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
