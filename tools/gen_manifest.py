#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = "property-based testing (Hypothesis): {how}"
HOW = {}
hp = os.path.join(HERE, "tools", "manifest_notes.json")
if os.path.exists(hp):
    HOW = json.load(open(hp))
checks, na = [], []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(HERE, "pbt", "props", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "no check built yet"})
        continue
    how, note = HOW.get(pid, ["generated messages against an explicit oracle", "Searches generated inputs; finds no proof of absence. Trusts the oracle in pbt/props."])
    checks.append({
        "property": pid,
        "quick_cmd": f"./check.sh {pid} quick",
        "thorough_cmd": f"./check.sh {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": TECH.format(how=how),
        "level": "exploration",
        "level_note": note,
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "Pure Python: every check imports httplint from /repo's working tree; no hooks are needed in /repo."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "without")
