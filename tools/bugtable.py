#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    cell = lambda t: re.sub(r"\s+", " ", t).replace("|", "/")
    rows.append((m["property"], d, cell(m["needs"])))
rows.sort()
out = ["| property (and check that catches it) | bug | needs |", "|---|---|---|"] + ["| %s | %s | %s |" % r for r in rows]
p = V + "/DESIGN.md"
s = open(p).read()
a, b = s.split("<!-- BUGS -->")[0], s.split("<!-- /BUGS -->")[1]
open(p, "w").write(a + "<!-- BUGS -->\n" + "\n".join(out) + "\n<!-- /BUGS -->" + b)
