#!/usr/bin/env python3
"""Writes the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    p = os.path.join(root, "seeded", d, "meta.json")
    if not os.path.exists(p):
        continue
    m = json.load(open(p))
    rows.append((m["property"], d, " ".join(str(m["needs"]).split()).replace("|", "/")))
rows.sort()
mark = "<!-- planted -->"
p = os.path.join(root, "DESIGN.md")
s = open(p).read().split(mark)[0]
s += mark + "\n| property (check that catches it) | change | needs |\n|---|---|---|\n"
for pr, d, n in rows:
    s += f"| {pr} | {d} | {n} |\n"
open(p, "w").write(s)
print(len(rows))
