#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    rows.append((m["property"], i, m["needs"]))
p = V + "/DESIGN.md"
s = open(p).read()
head = "| Planted bug | Caught by | What it needs |\n|---|---|---|\n"
s = s[:s.index(head)] + head + "".join("| %s | %s | %s |\n" % (i, pr, n) for pr, i, n in sorted(rows))
open(p, "w").write(s)
