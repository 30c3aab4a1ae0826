#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/ and tools/caught.txt."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = f"{root}/tools/caught.txt"
if os.path.exists(p):
    for l in open(p):
        s, c, r = l.split()
        caught.setdefault(s, {})[c] = r
rows = []
for s in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{s}/meta.json"))
    c = caught.get(s, {})
    by = ", ".join(k for k in sorted(c) if c[k] == "1") or "-"
    rows.append((m["property"], f"| {s} | {m['property']} | {by} | {m['what_it_breaks']} |"))
rows.sort()
f = f"{root}/DESIGN.md"
t = open(f).read()
table = "| seed | property | caught by (of the checks run) | what it breaks |\n|---|---|---|---|\n" + "\n".join(r for _, r in rows) + "\n"
if "SEEDTABLE" in t:
    t = t.replace("SEEDTABLE\n", "<!-- seeds -->\n" + table)
else:
    t = t[: t.index("<!-- seeds -->\n") + len("<!-- seeds -->\n")] + table
open(f, "w").write(t)
