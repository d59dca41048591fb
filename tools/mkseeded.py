#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from their meta.json."""
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(here + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (here, i)))
    rows.append("| %s | %s | %s | %s |\n" % (i, m["property"], m["what_it_breaks"], m["needs"]))
s = open(here + "/DESIGN.md").read()
t = re.sub(r"(\| id \| property \| what it breaks \| needs \|\n\|---\|---\|---\|---\|\n)(\|.*\n)*", lambda m: m.group(1) + "".join(rows), s)
open(here + "/DESIGN.md", "w").write(t)
print(len(rows), "planted bugs")
