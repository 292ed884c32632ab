#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
D = os.path.dirname(os.path.abspath(__file__)) + "/.."
rows = []
for i in sorted(os.listdir(D + "/seeded")):
    m = json.load(open(f"{D}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs'].strip()} | {m.get('caught_by', m['property'])} |")
t = "<!-- seeded -->\n| id | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeded -->\n"
s = open(D + "/DESIGN.md").read()
s = s.replace("SEEDED_TABLE\n", "<!-- seeded -->\n<!-- /seeded -->\n")
s = re.sub(r"<!-- seeded -->\n.*?<!-- /seeded -->\n", lambda _: t, s, flags=re.S)
open(D + "/DESIGN.md", "w").write(s)
print(len(rows))
