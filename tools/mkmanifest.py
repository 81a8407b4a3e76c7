#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from tools.claims import CLAIMS
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
checks = []
for p in ids:
    if p not in CLAIMS:
        continue
    tech, note = CLAIMS[p]
    checks.append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p,
                   "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                   "technique": tech, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": "no check built yet"} for p in ids if p not in CLAIMS],
     "hooks": {"guard": "none", "enable": "no hooks: the checks only use the public interface of the library",
               "source_commits": []}}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
