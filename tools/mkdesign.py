#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, design_tail.md and the table of planted bugs (design_caught.json, recorded by hand-started runs)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
s = open(H + "/design_head.md").read() + open(H + "/design_tail.md").read()
try: caught = json.load(open(H + "/design_caught.json"))
except OSError: caught = {}
s += "\n| bug | property | what it breaks | caught by |\n|---|---|---|---|\n"
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, b))); s += "| %s | %s | %s | %s |\n" % (b, m["property"], m["what_it_breaks"].replace("|", "\\|"), caught.get(b, "not recorded"))
open(V + "/DESIGN.md", "w").write(s)
