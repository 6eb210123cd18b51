#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["what_it_breaks"].strip(), m["needs"].strip(), m["property"]))
t = open(V + "/DESIGN.md").read()
i = t.index("| planted bug |")
open(V + "/DESIGN.md", "w").write(t[:i].rstrip(" \n") + "\n\n" + "\n".join(rows) + "\n")
