#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
import plan
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.NOTES:
        technique, note = plan.NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick python3 run.py check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run.py check {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": technique,
            "level": "model_checking",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": plan.NA.get(i, "its specification and harness are still being written")})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
