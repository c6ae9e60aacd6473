"""Writes the table of planted bugs into DESIGN.md, between its markers.  Not used by any check."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property, and the check that catches it | what it breaks | needs |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % tuple(str(x).replace("|", "\\|").replace("\n", " ") for x in (i, m["property"], m["what_it_breaks"], m["needs"])))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- planted: made by tools/mktable.py -->\n", "<!-- end -->\n"
h, rest = s.split(a)
open(p, "w").write(h + a + "\n".join(rows) + "\n" + b + rest.split(b, 1)[1])
