#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (result: as last run with tools/dev/try.sh)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}  # id -> why
rows = ["| id | property | what it breaks | caught |", "|---|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {MISSED.get(d, 'by ' + m['property'])} |")
p = root + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
if "SEEDED_TABLE" in s: s = s.replace("SEEDED_TABLE", t)
else: s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
