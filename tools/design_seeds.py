#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
seeded/CAUGHT (lines: seed, checks that catch it)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = os.path.join(root, "seeded", "CAUGHT")
if os.path.exists(p):
    for l in open(p):
        k, *v = l.split()
        caught[k] = " ".join(v)
rows = []
for s in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = os.path.join(root, "seeded", s, "meta.json")
    if os.path.exists(m):
        m = json.load(open(m))
        rows.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip("."), caught.get(s, "")))
t = "| bug | breaks | what | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n"
d = os.path.join(root, "DESIGN.md")
s = open(d).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
s = s[:s.index(a) + len(a)] + t + s[s.index(b):]
open(d, "w").write(s)
