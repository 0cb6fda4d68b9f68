#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (and tools/seednotes.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
notes = json.load(open(os.path.join(V, "tools", "seednotes.json")))
rows = ["| Bug | Property | What it breaks | Needs | Caught by |", "|---|---|---|---|---|"]
for b in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, b, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"),
                                          notes.get(b, m["property"] + " (quick)")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, z = "<!-- seeded -->\n", "<!-- /seeded -->"
i, j = s.index(a) + len(a), s.index(z)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
