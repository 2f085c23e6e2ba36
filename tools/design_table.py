#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
head = "| planted bug | caught by | breaks |\n|---|---|---|\n"
i = s.index(head)
rows = ""
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    c = m["property"] if m.get("caught", True) else "not caught"
    rows += "| %s | %s | %s |\n" % (d, c, m["what_it_breaks"].replace("|", "\\|"))
open(p, "w").write(s[:i] + head + rows)
