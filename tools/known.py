#!/usr/bin/env python3
"""Writes known_findings.json: one 'fixed' entry per fix commit in /repo, plus the known ones listed here."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = json.load(open(os.path.join(root, "tools", "fixes.json")))
KNOWN = []
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    ids, what = PROPS[s]
    for i in ids.split():
        out.append(dict(property=i, status="fixed", commit=h, what=what, line=f"fixed: property={i} {h} {what}"))
json.dump(dict(findings=KNOWN + out), open(os.path.join(root, "known_findings.json"), "w"), indent=1)
print(len(out), "fixed", len(KNOWN), "known")
