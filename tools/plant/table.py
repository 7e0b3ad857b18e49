#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
by = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    by.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
n = sum(map(len, by.values()))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"^\d+ planted bugs", "%d planted bugs" % n, s, flags=re.M)
t = "".join("| %s | %s |\n" % (p, ", ".join(by[p])) for p in sorted(by))
s = re.sub(r"(?m)(^\| property \| bugs \|\n\|[-| ]*\n)(\| C\d\d \| c.*\n)+", lambda m: m.group(1) + t, s)
open(V + "/DESIGN.md", "w").write(s); print(n)
