#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
try: from checks import NOT_APPLICABLE
except ImportError: NOT_APPLICABLE = {}
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup",
     "checks": [{"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                 "technique": CHECKS[p]["technique"], "level": CHECKS[p]["level"], "level_note": CHECKS[p]["level_note"]} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "check under construction")} for p in props if p not in CHECKS],
     "notes": "No hooks in /repo: the checks compile /repo's own sources and serve OpenMP, threads, clock and allocation from a controlled runtime (mc/) at link time."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed")
