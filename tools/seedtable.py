#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ""
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows += "| %s (%s) | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"])
p = V + "/DESIGN.md"
s = open(p).read()
i = s.index("| bug | needs |\n|-----|-------|\n") + len("| bug | needs |\n|-----|-------|\n")
j = s.index("\n## ", i)
open(p, "w").write(s[:i] + rows + s[j:])
