#!/usr/bin/env python3
"""Writes the table of planted bugs (from seeded/*/meta.json) into DESIGN.md between its markers."""
import json, os
from collections import defaultdict
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = defaultdict(list)
for i in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{i}/meta.json"))
    rows[m["property"]].append((i, m["what_it_breaks"], m["needs"]))
out = ["| property = the check that catches it | planted bug | what it breaks | needs |", "|----|----|----|----|"]
for p in sorted(rows):
    for i, w, n in rows[p]:
        out.append(f"| {p} | {i} | {w.replace('|', '/')} | {n.replace('|', '/')} |")
f = root + "/DESIGN.md"
s = open(f).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
if a not in s:
    s = s.replace("SEEDTABLE", a + b)
h, t = s.split(a)
t = t.split(b, 1)[1]
open(f, "w").write(h + a + "\n".join(out) + "\n" + b + t)
