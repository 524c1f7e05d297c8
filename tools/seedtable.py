#!/usr/bin/env python3
"""Writes the table of the seeded bugs into DESIGN.md (between the markers)."""
import json, os, glob
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| seeded bug | caught by | needs |", "|---|---|---|"]
for m in sorted(glob.glob(top + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"],
                " ".join(d["needs"].split()).replace("|", "\\|")))
f = top + "/DESIGN.md"
t = open(f).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
if a not in t:
    t += "\n## 7. Which check catches which seeded bug\n\n" + a + b + "\n"
i, j = t.index(a) + len(a), t.index(b)
open(f, "w").write(t[:i] + "\n".join(rows) + "\n" + t[j:])
