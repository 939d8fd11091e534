#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for i in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", i, "meta.json")))
    by.setdefault(m["property"], []).append(i)
rows = "".join(f"| {k} | {', '.join(by[k])} |\n" for k in sorted(by))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(\| check \| planted bugs it catches \|\n\|---\|---\|\n)(TABLE\n|(\| C.*\n)*)", lambda m: m.group(1) + rows, s)
open(p, "w").write(s)
