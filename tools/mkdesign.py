#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.txt ("id check..." lines)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read(); M = "## Planted bugs\n"
d = d.split("@SEEDS@")[0].split(M)[0].rstrip() + "\n\n" + M
caught = dict(l.split(None, 1) for l in open(V + "/tools/caught.txt") if l.strip()) if os.path.exists(V + "/tools/caught.txt") else {}
d += "\nEach was written from the property's text and the code, passes the 474 tests, and has a demonstration. \"Caught\" names the check that was run\nagainst it and its result.\n\n| bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n"
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, s)))
    d += "| %s | %s | %s | %s | %s |\n" % (s, m["property"], m["what_it_breaks"], m["needs"], caught.get(s, "").strip())
open(V + "/DESIGN.md", "w").write(d)
