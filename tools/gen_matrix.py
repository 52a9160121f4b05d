#!/usr/bin/env python3
"""Rewrites the section on planted bugs of DESIGN.md from /verif/seeded (and notes below)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read()
head = d[:d.index("## Seeded bugs")]
rows = []
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    rows.append(f"| {s} | {m['needs'].replace('|', '/')} | {m['property']} |")
open(V + "/DESIGN.md", "w").write(head + """## Seeded bugs

`seeded/<id>/` holds planted bugs (written by `tools/mkseed.py` from `tools/seeds/*.py`; `tools/tryseed.sh`
applies one, runs tests, demo and check, and undoes it). Each of them is caught, in the quick tier, by
the check of the property it was written against, the one in the last column. Among those missed at
first, and what was done: c03-wide-group (grid of exact sizes; groups filled by insert_left),
c15-unbound-lifetime (compiler messages of the borrow programs), c20-shrink-thrash (maps filled to the brim),
c12-clone-from (clone_from over maps with contents), c11-retain-plain-all (maps of items of many types, `kinds.rs`).

| planted bug | what it needs | caught by |
|-------------|---------------|-----------|
""" + "\n".join(rows) + "\n")
