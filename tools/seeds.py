#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md; `caught` is kept in tools/caught.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
rows = ["| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")[:160], caught.get(d, "?")))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
open(p, "w").write(s[:s.index("<!-- seeded -->")] + "<!-- seeded -->\n" + "\n".join(rows) + "\n")
