#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of units that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import check
NOTES = {}
p = os.path.join(HERE, "tools", "levels.json")
if os.path.exists(p):
    NOTES = json.load(open(p))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for d in props:
    i = d["id"]
    src = os.path.join(HERE, "harness", check.UNIT_OF[i] + ".cpp")
    if os.path.exists(src) and 'PROP("%s"' % i in open(src).read():
        n = NOTES.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
            "technique": n.get("technique", "property-based testing: seeded structured generation against an independent reference model, with shrinking"),
            "level": "exploration",
            "level_note": n.get("note", "random search over generated inputs; no proof of absence"),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks compile /repo's sources unchanged, with a recording stand-in for the matplotlib bridge."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
