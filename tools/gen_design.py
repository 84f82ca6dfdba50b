#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, KNOWN_FINDINGS.txt and seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design_head.md").read()
fx = [re.match(r"fixed: property=(\w+) (\w+) (.*)", l).groups() for l in open(V + "/KNOWN_FINDINGS.txt") if l.startswith("fixed:")]
t = t.replace("%FIXES%", "\n".join("* %s (%s): %s." % f for f in fx))
kn = [re.match(r"finding: property=(\w+) key=(\S+) (.*)", l).groups() for l in open(V + "/KNOWN_FINDINGS.txt") if l.startswith("finding:")]
t = t.replace("%FINDINGS%", "\n".join("* %s (`%s`): %s." % f for f in kn))
try:
    status = json.load(open(V + "/tools/seed_status.json"))
except OSError:
    status = {}
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), status.get(i, m["property"])))
open(V + "/DESIGN.md", "w").write(t.replace("%SEEDS%", "\n".join(rows)))
