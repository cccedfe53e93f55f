#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/ and tools/seed_results.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = json.load(open(os.path.join(V, "tools", "seed_results.json")))
t = ["", "| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    t.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"), R.get(i, "-")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- seeds -->") + len("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(p, "w").write(s[:a] + "\n".join(t) + "\n" + s[b:])
