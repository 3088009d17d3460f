#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/catalogue.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from catalogue import PROPS, NOT_APPLICABLE

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }) + "\n")
        assert len(p["title"]) <= 80, p["id"]
LEV = {"mc": "model_checking", "fe": "fault_enumeration", "ex": "exploration"}
checks = []
for p in PROPS:
    if not os.path.exists(os.path.join(root, "mc", "props", p["id"].lower() + ".py")):
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} --tier quick",
                       thorough_cmd=f"./check {p['id']} --tier thorough",
                       technique=p["tech"], level=LEV[p.get("lev", "mc")], level_note=p["note"]))
m = dict(version=1, setup_cmd="./check --setup", checks=checks,
         not_applicable=[dict(property=a, reason=b) for a, b in NOT_APPLICABLE],
         hooks=dict(guard="none", enable="no hooks: the machinery drives the unmodified code", source_commits=[]),
         notes="All checks drive the real foxes code from /repo's working tree; see DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks; without check:",
      [p["id"] for p in PROPS if p["id"] not in [c["property"] for c in checks]])
