#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS, NA
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": [{"property": k, "quick_cmd": "python3 run.py check %s" % k,
                 "thorough_cmd": "VERIF_TIER=thorough python3 run.py check %s" % k,
                 "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]}
                for k, c in sorted(CHECKS.items())],
     "hooks": {"guard": "none", "enable": "no hooks: the checks drive the public API and instrument with sanitizers, a link-level wrapper and their own monitors", "source_commits": []},
     "not_applicable": [{"property": k, "reason": r} for k, r in sorted(NA.items())]}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
for i in ids:
    assert (i in CHECKS) != (i in NA), i
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
