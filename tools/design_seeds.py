#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | breaks | needs |", "|----|----|----|----|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    c = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], c(m["what_it_breaks"]), c(m["needs"])))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds:begin -->\n).*?(<!-- seeds:end -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], s, flags=re.S)
open(p, "w").write(s)
