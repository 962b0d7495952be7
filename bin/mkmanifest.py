#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = ("TLA+ specification model-checked with TLC; behaviours generated from it are run against the real code and the "
        "recorded runs are validated against it")
NOTE = ("The specification is checked exhaustively within the small constants of its configuration; the code is checked "
        "on the behaviours that were generated and run. Trusts TLC and the projection made by the driver in harness/.")
cs, na = [], []
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = {"property": i, "quick_cmd": "python3 bin/check.py " + i,
             "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
             "technique": TECH, "level": "model_checking",
             "level_note": getattr(checks, "NOTES", {}).get(i, "") + (" " if i in getattr(checks, "NOTES", {}) else "") + NOTE}
        cs.append(c)
    else:
        na.append({"property": i, "reason": getattr(checks, "NOT_APPLICABLE", {}).get(
            i, "The check for this property is not built yet.")})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": cs, "not_applicable": na,
     "notes": "Every check builds its driver from /repo's working tree by a Go overlay; no hooks in /repo."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(cs), "checks,", len(na), "not claimed")
