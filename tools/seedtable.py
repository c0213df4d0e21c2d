#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | property | needs | caught by |\n|---|---|---|---|")
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    print("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], m.get("caught_by", m["property"] + " quick")))
