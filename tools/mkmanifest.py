#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and the plans that exist."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "bin"))
import plans
NOTES = json.load(open(os.path.join(R, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s --tier quick" % i,
                           thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
                           technique=n.get("technique", NOTES["default"]["technique"]),
                           level="model_checking", level_note=n.get("note", NOTES["default"]["note"])))
    else:
        na.append(dict(property=i, reason=NOTES.get("na", {}).get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 bin/setup.py",
         hooks=dict(guard="none", enable="no hooks: checks compile /repo's unmodified sources and observe through the public API", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
