#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of built checks below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILT = json.load(open(os.path.join(H, "tools", "checks.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in BUILT:
        b = BUILT[i]
        checks.append({
            "property": i, "quick_cmd": "bin/check " + i,
            "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
            "technique": b["technique"], "level": b.get("level", "model_checking"),
            "level_note": b["note"]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked by TLC; every behaviour TLC generates is replayed into /repo's working tree by harness/. No hooks in /repo."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
