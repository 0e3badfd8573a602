#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(ROOT, "tools/techniques.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        t, note = TECH[i]
        checks.append(dict(property=i, quick_cmd="python3 vf/run.py %s" % i,
                           thorough_cmd="VERIF_TIER=thorough python3 vf/run.py %s" % i,
                           technique=t, level="exploration", level_note=note, evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason="no check built yet (work in progress)"))
m = dict(version=1, setup_cmd="python3 vf/run.py --selftest", checks=checks, not_applicable=na,
         notes="Pure Python: nothing is compiled; every check imports /repo/py from the working tree. See DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
