#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- table -->\n"
s = open(f"{V}/DESIGN.md").read()
s = s[: s.index(MARK) + len(MARK)]
s += "| change | what it breaks | what it needs |\n|---|---|---|\n"
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    assert i[:3].upper() == m["property"], i
    s += f"| {i} | {m['what_it_breaks']} | {m['needs']} |\n".replace("||", "\\|\\|")
open(f"{V}/DESIGN.md", "w").write(s)
