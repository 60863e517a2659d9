#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text from tools/design.md, the property list, and the table of planted bugs."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(root + "/tools/design.md").read()
caught = dict(l.rstrip("\n").split("\t", 1) for l in open(root + "/tools/caught.tsv") if "\t" in l)
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {d['what_it_breaks']} | {caught.get(i, '**not run yet**')} |")
t = t.replace("@@SEEDED@@", "| change | property | needs | breaks | caught by (space) |\n|---|---|---|---|---|\n" + "\n".join(rows))
open(root + "/DESIGN.md", "w").write(t)
