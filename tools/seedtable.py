#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
table = "| id | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows)
p = f"{root}/DESIGN.md"
t = open(p).read()
a, b = "<!-- seeds -->\n", "\n<!-- end -->"
t = t.replace("SEEDTABLE", a + b)
i, j = t.index(a) + len(a), t.index(b)
open(p, "w").write(t[:i] + table + t[j:])
