#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | caught by | what it breaks; what it needs |", "|----|----|----|----|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s quick | %s; needs %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["property"], m["what_it_breaks"], m["needs"]))
p = here + "/DESIGN.md"
t = open(p).read()
new = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
if "@PLANTED@" in t:
    t = t.replace("@PLANTED@", new)
else:
    t = re.sub(r"<!-- planted -->.*?<!-- /planted -->", lambda m: new, t, flags=re.S)
open(p, "w").write(t)
