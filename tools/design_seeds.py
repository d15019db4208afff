#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed_results.json."""
import json, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(here + "/tools/seed_results.json"))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {res.get(i, '?')} |")
t = open(here + "/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
t = t[:t.index(a) + len(a)] + "\n".join(rows) + "\n" + t[t.index(b):]
open(here + "/DESIGN.md", "w").write(t)
