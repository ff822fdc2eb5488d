#!/usr/bin/env python3
"""rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    d = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['needs']} |")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a = s.index("| planted change | property | needs |")
b = s.index("\n\n", a)
s = s[:a] + "| planted change | property | needs |\n|---|---|---|\n" + "\n".join(rows) + s[b:]
open(p, "w").write(s)
