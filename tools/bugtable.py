#!/usr/bin/env python3
"""Rewrites the table at the end of DESIGN.md from the output of runbugs.sh: bugtable.py LOG"""
import os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d\d) (caught|MISSED)\S*(?: rc=\d+)? \d+s: (.*)", l)
    if not m:
        continue
    by = "recorded history"
    r = re.search(r"mismatch in (\w+)", m[4])
    if r:
        by = "replay of " + r[1]
    elif "recorded step rejected" not in m[4]:
        by = "race detector" if "race" in m[4] else "replay"
    rows.append("| %s | %s | %s | %s |" % (m[1], m[2], m[3], by if m[3] == "caught" else ""))
rows.sort()
n = sum("| MISSED |" in r for r in rows)
f = os.path.join(H, "DESIGN.md")
s = open(f).read()
s = s[:s.index("### Latest result")] + """### Latest result

%s caught by the quick tier. First report, per bug (a recorded history and a replay often both find it):

| planted bug | property | quick check | first reported by |
|---|---|---|---|
""" % ("All %d are" % len(rows) if not n else "%d of %d are" % (len(rows) - n, len(rows))) + "\n".join(rows) + "\n"
open(f, "w").write(s)
