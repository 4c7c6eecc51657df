#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tool/props.py (run by hand)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import CLAIMED, NA
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for p in CLAIMED + NA:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "bash tool/build.sh", "checks": [], "not_applicable": []}
for p in CLAIMED:
    man["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                          "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                          "technique": p["technique"], "level": p.get("level", "other"), "level_note": p["note"]})
for p in NA:
    man["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
with open(root + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
