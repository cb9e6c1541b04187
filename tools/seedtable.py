#!/usr/bin/env python3
"""seedtable.py: rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    c = lambda x: x.replace("|", "/").replace("\n", " ")
    rows.append("| `%s` | %s | %s | %s |" % (d, m["property"], c(m["what_it_breaks"]), c(m["needs"])))
f = V + "/DESIGN.md"; s = open(f).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
s = s[:s.index(a) + len(a)] + "| bug | caught by | what it breaks | what it needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(f, "w").write(s)
