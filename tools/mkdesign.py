#!/usr/bin/env python3
"""Fills the table of planted bugs into DESIGN.md (section 6)."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(open(os.path.join(H, "tools", "missed-at-first.txt")).read().split())
rows = ["| id | breaks | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    f = lambda s: s.replace("|", "/").replace("\n", " ")
    rows.append(f"| {d}{' *' if d in MISSED else ''} | {f(m['what_it_breaks'])} | {f(m['needs'])} |")
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
nfix = sum(l.startswith("fixed:") for l in open(os.path.join(H, "known-findings.txt")))
s = re.sub(r"names them\): \S+ defects", f"names them): {nfix} defects", s)
a = s.index("## 6. Planted bugs")
head = s[a:].split("@@SEEDS@@")[0].split("| id |")[0]
open(p, "w").write(s[:a] + head + "\n".join(rows) + "\n")
