#!/usr/bin/env python3
"""Regenerates MANIFEST.json from zvmeta.CHECKS and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from zvmeta import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                 "technique": CHECKS[p]["technique"], "level": CHECKS[p]["level"], "level_note": CHECKS[p]["note"]} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": "The check for this property is not built yet."} for p in props if p not in CHECKS],
     "notes": "No hooks are committed in /repo: the instrumentation (statement-level schedule perturbation, virtual-time aware sync) is generated from /repo's current tree at each build and injected with go build -overlay."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
