#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (extra notes in "caught_by").
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); c = lambda s: " ".join(s.split()).replace("|", "/")
    rows.append("| `%s`: %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), c(m["what_it_breaks"]), c(m["needs"]), m.get("caught_by", m["property"])))
s = open(V + "/DESIGN.md").read(); a, b = "<!-- seeded: begin -->", "<!-- seeded: end -->"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(V + "/DESIGN.md", "w").write(s)
