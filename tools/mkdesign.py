#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = H + "/DESIGN.md"; mark = "## Planted bugs\n"
t = open(D).read().split(mark)[0] + mark + """
Each lies in `seeded/<id>/`; all pass the 88 stable tests and have a demonstration.  Every one listed
here is reported by the quick check of its property (tried with `python3 tools/seed.py ID`).

| bug | property | caught by | effect |
|---|---|---|---|
"""
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(f"{H}/seeded/{i}/meta.json"))
    t += f"| {i} | {m['property']} | {m.get('caught_by', m['property'] + ' quick')} | {m['what_it_breaks']} (needs: {m['needs']}) |\n"
open(D, "w").write(t)
