#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(top + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (top, i)))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"]))
head = "| planted bug | caught by | what it breaks | needs |"
p = top + "/DESIGN.md"
s = open(p).read()
if head in s:
    s = s[: s.index(head)]
open(p, "w").write(s.rstrip() + "\n\n" + "\n".join([head, "|---|---|---|---|"] + rows) + "\n")
