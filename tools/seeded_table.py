#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | breaks | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['what_it_breaks']} | {m.get('caught', m['property'] + ' quick')} |")
s = open(f"{V}/DESIGN.md").read()
B, E = "<!-- seeded -->\n", "<!-- /seeded -->\n"
a, b = s.index(B) + len(B), s.index(E)
open(f"{V}/DESIGN.md", "w").write(s[:a] + "\n".join(rows) + "\n" + s[b:])
