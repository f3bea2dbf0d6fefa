#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOT_APPLICABLE, NOTES
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        **({"observe_at": p["observe"]} if "observe" in p else {}), "hook_needed": None},
        }) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
checks = [{
    "property": p["id"],
    "quick_cmd": f"./run.sh {p['id']} quick",
    "thorough_cmd": f"./run.sh {p['id']} thorough",
    "evidence_file": f"evidence/{p['id']}.json",
    "technique": p["technique"],
    "level": "model_checking",
    "level_note": p["note"],
} for p in PROPS if p["id"] not in na]
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": NOT_APPLICABLE,
    "notes": NOTES,
}, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks")
