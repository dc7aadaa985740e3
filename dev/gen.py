#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (documentation only; no check reads it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CHECKS, NA = [], [], []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": m, "where": w} for m, w in mech],
                                                 "observe_at": observe or [], "hook_needed": None}})
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id, "quick_cmd": "python3 check.py " + id, "thorough_cmd": "python3 check.py " + id,
                       "evidence_file": "evidence/%s.json" % id, "technique": technique, "level": "other", "level_note": note})


exec(open(os.path.join(V, "dev", "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": CHECKS, "not_applicable": NA,
           "notes": "All checks are static: they parse /repo/cmmcore with clang (through tool/astdump) on every run and never execute library code."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
