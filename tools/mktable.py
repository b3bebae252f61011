#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(glob.glob(root + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"]))
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- table -->.*?<!-- /table -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->", s, flags=re.S)
open(p, "w").write(s)
