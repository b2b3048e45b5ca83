#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STAR = set(open(os.path.join(here, "tools", "missed_first")).read().split())
rows = ["| id | caught by | needs |", "|----|-----------|-------|"]
for m in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append("| %s%s | %s | %s |" % (i, " *" if i in STAR else "", d["property"], d["needs"].replace("|", "/")))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
a = s.index("<!-- seeded table"); a = s.index("\n", a) + 1
b = s.index("<!-- end -->")
open(p, "w").write(s[:a] + "\n".join(rows) + "\n" + s[b:])
