#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md: fills in the lists of repaired defects and of planted bugs."""
import glob, json
s = open("/verif/tools/DESIGN.in.md").read()
fixed = json.load(open("/verif/known_findings.json"))["fixed"]
by = {}
for f in fixed:
    p, h, t = f.split("property=")[1].split(" ", 2)
    by.setdefault(p, []).append("%s (%s)" % (t, h))
s = s.replace("@FIXES@", "\n".join("* %s: %s." % (p, "; ".join(by[p])) for p in sorted(by)))
rows = ["| bug | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], m["property"], m["needs"]))
s = s.replace("@BUGS@", "\n".join(rows))
open("/verif/DESIGN.md", "w").write(s)
