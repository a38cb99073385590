#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in glob.glob(root + "/seeded/*/meta.json"):
    m = json.load(open(p))
    rows.append((m["property"], os.path.basename(os.path.dirname(p)), m["what_it_breaks"], m["needs"]))
table = "| check | planted bug | what breaks | what it takes |\n|---|---|---|---|\n"
table += "".join(f"| {a} | `{b}` | {c} | {d} |\n" for a, b, c, d in sorted(rows))
path = root + "/DESIGN.md"
s = open(path).read()
head = s[:s.index("<!-- planted -->")]
open(path, "w").write(head + "<!-- planted -->\n" + table)
