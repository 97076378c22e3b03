#!/usr/bin/env python3
"""Fills the table of planted bugs into DESIGN.md (from seeded/*/meta.json and caught.json)."""
import json, os, glob, re
here = os.path.dirname(os.path.abspath(__file__))
rows = ["| bug | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
caught = json.load(open(os.path.join(here, "caught.json")))
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    c = lambda s: s.replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], c(m["what_it_breaks"]), c(m["needs"]), caught.get(i, "not tried")))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
b, e = "<!-- bugs -->\n", "<!-- /bugs -->\n"
t = b + "\n".join(rows) + "\n" + e
s = s.replace("@@TABLE@@\n", t) if "@@TABLE@@" in s else re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: t, s, flags=re.S)
open(p, "w").write(s)
