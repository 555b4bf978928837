#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md (development aid)."""
import json, os, re
h = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(h, "seeded")
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for i in sorted(os.listdir(d)):
    m = json.load(open("%s/%s/meta.json" % (d, i)))
    rows.append("| %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/")))
p = os.path.join(h, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- table -->.*<!-- /table -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->", s, flags=re.S)
open(p, "w").write(s)
