#!/usr/bin/env python3
"""DESIGN.md from tools/design.md.in, the bounds in checks.py and the seed results."""
import os, sys, re, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
s = open(V + "/tools/design.md.in").read()
for i, c in checks.CHECKS.items(): s = s.replace("{{%s}}" % i, c["bounds"])
cost = json.load(open(V + "/tools/costs.json")) if os.path.exists(V + "/tools/costs.json") else {}
for i, c in cost.items(): s = re.sub(r"(\*\*%s — .*?\*Cost:\* )[^.]*\." % i, lambda m: m.group(1) + c + ".", s, count=1, flags=re.S)
res = dict(l.rstrip("\n").split("\t", 1) for l in open(V + "/tools/seed_results.tsv")) if os.path.exists(V + "/tools/seed_results.tsv") else {}
rows = ["| change | property | needs | check says |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), res.get(i, "caught").replace("|", "/")))
s = s.replace("{{SEEDS}}", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(s)
