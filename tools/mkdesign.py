#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
s = open("DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
rows = ""
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    rows += "| %s | %s | %s |\n" % (d, m["property"], m["needs"])
if "@SEEDS@" in s:
    s = s.replace("@SEEDS@", a + b)
i, j = s.index(a) + len(a), s.index(b)
open("DESIGN.md", "w").write(s[:i] + rows + s[j:])
