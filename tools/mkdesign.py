#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.in.md, spec/checks.py, properties.jsonl and seeded/*/meta.json."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "spec"))
from checks import CHECKS
from design_notes import HOW
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    fns = []
    for t in c["templates"]:
        fns += re.findall(r"^//@fn (.*)$", open(os.path.join(V, "spec", t + ".vt")).read(), re.M)
    out.append("### %s %s" % (i, p["title"]))
    out.append("*Decided by:* " + ("proof, templates %s: %s." % (", ".join("`%s.vt`" % t for t in c["templates"]), ", ".join("`%s`" % f.split(" :: ", 1)[1] for f in fns)) if c["templates"] else "bounded run only (stand-in)."))
    out.append(HOW[i].strip())
    if c["templates"]:
        out.append("*Assumed:* " + "; ".join(c["trusted"][2:] + c["assumptions"]) + ".")
    out.append("")
seeds = ["Each is caught (exit 1, VIOLATION line) by the check of its property. `proof` = an obligation of an extracted function fails, `run` = the bounded run finds a failing input.", "", "| seed | property | needs | caught by |", "|---|---|---|---|"]
res = {}
rp = os.path.join(V, "tools", "seed_results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    seeds.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "\\|"), res.get(s, "?")))
s = open(os.path.join(V, "tools", "design.in.md")).read()
s = s.replace("DETAILS", "\n".join(out).rstrip()).replace("SEEDS", "\n".join(seeds))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
