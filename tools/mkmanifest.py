#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claims below and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import check
NOTES = json.load(open(os.path.join(V, "tools", "claims.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in check.MODULES:
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                       "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "No check has been built for it yet.")})
json.dump({"version": 1, "setup_cmd": "python3 tools/check.py setup",
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
