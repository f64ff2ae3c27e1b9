#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json (the check that catches a bug is that of its property)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append("| %s: %s | %s | %s |" % (d, m["what_it_breaks"], m["property"], m["property"]))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
head = "|---|---|---|\n"
i = s.index("| planted bug |")
i = s.index(head, i) + len(head)
j = s.index("\n\n", i)
open(p, "w").write(s[:i] + "\n".join(rows) + s[j:])
