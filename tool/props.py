#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=None):
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                                                     "observe_at": observe or []}})
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id, "quick_cmd": "python3 check.py " + id, "thorough_cmd": "python3 check.py " + id,
                       "technique": technique, "level": "other", "level_note": note})


exec(open(os.path.join(H, "tool", "props_table.py")).read())
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'.'); from vx import facts; facts.tool_path()\"",
               "checks": CHECKS, "not_applicable": NA,
               "notes": "All checks are static: they parse /repo's current sources (generated sources are regenerated in a scratch directory) and never run the program."}, f, indent=1)
    f.write("\n")
