#!/usr/bin/env python3
"""DESIGN.md = design_head.md + one section per property (from the check modules) + design_tail.md + known_findings + seeded"""
import glob, importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import env
env.setup_path()
from vf import core
TECH = json.load(open(os.path.join(ROOT, "tools/techniques.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = [open(os.path.join(ROOT, "tools/design_head.md")).read().rstrip() + "\n"]
for p in props:
    i = p["id"]
    m = importlib.import_module("checks." + i.lower())
    t, note = TECH[i]
    out.append("### %s — %s\n" % (i, p["title"]))
    out.append("%s. %s\n" % (t[0].upper() + t[1:], note))
    out.append("Quantified over: %s. Why tests cannot: %s\n" % (p["quantifier"]["text"].rstrip("."), p["why_tests_cant"]))
    out.append("| sub-check | cases quick / thorough | counts as non-trivial | what is compared |\n|---|---|---|---|")
    for s in core.SUBS[i]:
        doc = re.sub(r"\s+", " ", (s.run.__doc__ or "").strip()).replace("|", "/")
        out.append("| %s | %d / %d | %s | %s |" % (s.name, s.quick, s.thorough, (s.rule or "every case").replace("|", "/"), doc))
    out.append("")
out.append(open(os.path.join(ROOT, "tools/design_tail.md")).read().rstrip() + "\n")
k = json.load(open(os.path.join(ROOT, "known_findings.json")))
out.append("## Defects found and repaired\n\nEach is one `fix:` commit in /repo; the check that found it passes on the repaired tree and reports it "
           "again if it returns. Listed also in `known_findings.json`; there is no unrepaired finding.\n")
for e in k["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", e)
    out.append("* %s `%s` %s" % m.groups())
out.append("\n## Planted bugs\n\nIn `seeded/`; made from the property text, confirmed to build, to pass the stable tests and to be shown by their demo; "
           "each is caught by the quick check of its property.\n\n| id | property | needs | breaks |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    j = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), j["property"], str(j["needs"]).replace("|", "/"), j["what_it_breaks"].replace("|", "/")))
out.append("")
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
nd = [(i, s.name) for i in core.SUBS for s in core.SUBS[i] if not s.run.__doc__]
print(len(nd), "sub-checks without a description:", " ".join("%s:%s" % x for x in nd))
