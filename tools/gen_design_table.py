#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (a maintenance
script; no check runs it)."""
import json, glob, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(p)); rows.append((m["property"], os.path.basename(os.path.dirname(p)), m["what_it_breaks"], m["needs"]))
rows.sort()
D = ROOT + "/DESIGN.md"; s = open(D).read(); mark = "<!-- planted -->\n"
s = s[:s.index(mark) + len(mark)]
clean = lambda t: " ".join(str(t).replace("|", "/").split())
s += f"\n{len(rows)} changes, all caught by the quick check of the property in the first column.\n\n| caught by | id | what breaks | needs |\n|---|---|---|---|\n"
for r in rows: s += "| " + " | ".join(clean(x) for x in r) + " |\n"
open(D, "w").write(s)
print(len(rows))
