#!/usr/bin/env python3
"""add_fixed.py PROPERTY KEY COMMIT WHAT: records a repaired defect in known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
prop, key, commit, what = sys.argv[1:5]
d["findings"].append({"property": prop, "key": key, "status": "fixed", "commit": commit, "what": what,
                      "line": f"fixed: property={prop} {commit} {what}"})
json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
