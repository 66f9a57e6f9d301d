#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | breaks | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/"), d.get("caught_by", d["property"])))
s = open(V + "/DESIGN.md").read()
a, b = "<!-- planted -->", "<!-- /planted -->"
if a not in s:
    s = s.replace("\nPLANTED\n", "\n%s\n%s\n" % (a, b))
s = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: a + "\n" + "\n".join(rows) + "\n" + b, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
