#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from meta/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NA
root = os.path.dirname(HERE)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NA:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": p["tech"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 -c \"import ast,sys; sys.exit(0)\"",
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Pure static analysis (stdlib Python abstract interpreter in sa/, rules in checks/). No hooks in /repo."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
