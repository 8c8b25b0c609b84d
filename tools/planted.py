#!/usr/bin/env python3
"""Writes the table of the planted bugs into DESIGN.md (section 8)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
t = "<!-- planted -->\n| bug | caught by | what it breaks | what it needs |\n| --- | --- | --- | --- |\n" + "\n".join(rows) + "\n<!-- /planted -->"
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"@@PLANTED@@|<!-- planted -->.*<!-- /planted -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
