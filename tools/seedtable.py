#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (and tools/caught.json for results)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
d = open(os.path.join(V, "DESIGN.md")).read()
mark = "## Planted bugs and the checks that catch them\n"
head = d.split(mark)[0]
missed = json.load(open(os.path.join(V, "tools", "missed.json"))) if os.path.exists(os.path.join(V, "tools", "missed.json")) else {}
rows = ["", "| bug | property | needs | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    p = os.path.join(V, "seeded", s, "meta.json")
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], missed.get(s, "checks/%s.py" % m["property"])))
open(os.path.join(V, "DESIGN.md"), "w").write(head + mark + "\n".join(rows) + "\n")
