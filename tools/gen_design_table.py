#!/usr/bin/env python3
"""Fills the planted-bug table of DESIGN.md from seeded/*/meta.json (run after adding a bug)."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = root + "/tools/detected.json"
if os.path.exists(p): caught = json.load(open(p))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {caught.get(i, '?')} |")
t = open(root + "/DESIGN.md").read()
new = "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->"
t = t.replace("@TABLE@", new) if "@TABLE@" in t else re.sub(r"<!-- bugs -->.*?<!-- /bugs -->", lambda _: new, t, flags=re.S)
open(root + "/DESIGN.md", "w").write(t)
