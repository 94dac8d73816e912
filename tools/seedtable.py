#!/usr/bin/env python3
"""Append the table of planted bugs to DESIGN.md (from seeded/*/meta.json), replacing what follows its heading."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(H, "DESIGN.md")
S = os.environ.get("SEEDED", os.path.join(H, "seeded"))
t = open(D).read()
mark = "<!-- seeds -->\n"
head, _, rest = t.partition(mark)
tail = rest.partition("<!-- end -->\n")[2]
rows = ["| planted bug | check | needs |", "|---|---|---|"]
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    rows.append("| %s | %s | %s |" % (i, m.get("caught_by", m["property"]), m["needs"].replace("|", "/").strip()))
open(D, "w").write(head + mark + "\n".join(rows) + "\n<!-- end -->\n" + tail)
