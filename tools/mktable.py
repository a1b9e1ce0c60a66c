#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (here, d)))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/")))
s = open(here + "/DESIGN.md").read().split("\n")
i = s.index("| change | property | needs |")
j = i + 2
while j < len(s) and s[j].startswith("|"): j += 1
s[i+2:j] = rows
open(here + "/DESIGN.md", "w").write("\n".join(s))
