#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md from checks.py and properties.jsonl."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(H, "tools"))
from checks import CHECKS
from notes import NOTES
def val(v):
    return str(v) if len(str(v)) < 60 else "%d values" % len(v)
def vals(d):
    return ", ".join("%s=%s" % (k, val(v)) for k, v in d.items())
out = ["""## Per property

All are decided by the technique; none is `not_applicable`. Each quantifies over all histories (and capacities, hash
functions, thresholds, orders ...), of which the tests of the repository run a handful. Quick checks take 10-60 s,
thorough ones minutes. The constants are explained at the head of each module.
"""]
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line)
    c = CHECKS[p["id"]]
    out.append("### %s %s" % (p["id"], p["title"]))
    out.append("")
    if NOTES.get(p["id"]):
        out.append(NOTES[p["id"]] + "\n")
    for x in c["explore"]:
        q = dict(x.get("consts", {}), **x["quick"])
        t = {k: v for k, v in x["thorough"].items() if q.get(k) != v}
        out.append("* explored: `%s` (%s%s); on the model: %s; compared with the code: %s" %
                   (x["mc"], vals(q), "; thorough: " + vals(t) if t else "", ", ".join(x["invs"] + x.get("props", [])), ", ".join(x["ops"])))
    for x in c["record"]:
        out.append("* recorded: driver `%s`%s, judged by `%s`: %s" % (x["driver"], " (focus %s)" % x["focus"] if x.get("focus") else "", x["trace"], ", ".join(x["ops"])))
    out.append("")
f = os.path.join(H, "DESIGN.md")
s = open(f).read()
s = re.sub(r"(<!-- generated by tools/mkdesign.py -->\n).*(<!-- end -->)", lambda m: m.group(1) + "\n".join(out) + "\n" + m.group(2), s, flags=re.S)
open(f, "w").write(s)
