#!/usr/bin/env python3
"""tools/known.py fixed C01 <commit> "what failed"   |   known C01 "input" "what fails": edits known_findings.json."""
import json, os, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
doc = json.load(open(P)) if os.path.exists(P) else {"findings": []}
kind, prop = sys.argv[1:3]
if kind == "fixed":
    commit, what = sys.argv[3:5]
    doc["findings"].append({"property": prop, "status": "fixed", "commit": commit, "what": what, "line": f"fixed: property={prop} {commit} {what}"})
else:
    doc["findings"].append({"property": prop, "status": "known", "case": sys.argv[3], "what": sys.argv[4]})
json.dump(doc, open(P, "w"), indent=1)
