#!/usr/bin/env python3
"""Writes the list of planted bugs into DESIGN.md, from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    by.setdefault(m["property"], []).append((d, m["needs"]))
rows = ["| check | planted bug | what it needs |", "|---|---|---|"]
for p in sorted(by):
    for d, needs in by[p]:
        rows.append(f"| {p} | {d} | {needs} |")
text = open(here + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
assert a in text
text = text[:text.index(a) + len(a)] + "\n".join(rows) + "\n" + text[text.index(b):]
open(here + "/DESIGN.md", "w").write(text)
print(sum(map(len, by.values())), "planted bugs")
