# Writes the generated part of DESIGN.md (per property: harnesses and bounds) from checks.py, and keeps the rest.
import os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks import PROPS
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
out = []
for k in sorted(PROPS):
    out.append("**%s** (%s%s)\n" % (k, ", ".join(PROPS[k]["src"]), ", UBSan checks encoded too" if PROPS[k].get("ub") else ""))
    for h in PROPS[k]["harnesses"]:
        out.append("- `%s`: %s" % (h["name"], h["bounds"]))
    out.append("")
a, b = "<!-- generated: bounds -->\n", "<!-- end -->"
s = s[:s.index(a) + len(a)] + "\n".join(out) + s[s.index(b):]
import json
rows = []
for l in open(os.path.join(here, "tools", "caught.txt")):
    i, c = l.strip().split(" ", 1)
    m = json.load(open(os.path.join(here, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], c))
a, b = "<!-- generated: seeded -->\n", "<!-- end seeded -->"
s = s[:s.index(a) + len(a)] + "| id | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
