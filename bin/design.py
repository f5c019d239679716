#!/usr/bin/env python3
"""append the generated per-property table to DESIGN.md (between the markers)"""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import NA, P
from registry import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from design_notes import ORACLE
na = dict(NA)
out = []
P.sort(key=lambda p: int(p["id"][1:]))
for p in P:
    pid = p["id"]
    out.append("### %s %s\n" % (pid, p["title"]))
    if pid in na:
        out.append("Not applicable: %s\n" % na[pid])
        continue
    r = PROPS[pid]
    hs = sorted({x["harness"] for x in r["runs"]})
    out.append("* encoded: %s; harness %s" % (", ".join("`%s`" % a for a in p["anchors"]["files"]), ", ".join("`harness/%s.cpp`" % h for h in hs)))
    out.append("* oracle: " + ORACLE[pid])
    out.append("* runs: " + "; ".join("`%s` (%s)" % (x["name"], ", ".join("%s=%s" % kv for kv in x["cfg"].items()) or "-") for x in r["runs"]))
    out.append("* bounds: %s. Outside: %s." % (r["bounds"], r["outside"]))
    out.append("* beyond the tests: " + p["why_tests_cant"] + "\n")
f = os.path.join(V, "DESIGN.md")
t = open(f).read()
a, b = "<!-- generated: properties -->\n", "<!-- end generated -->\n"
i, j = t.index(a) + len(a), t.index(b)
open(f, "w").write(t[:i] + "\n" + "\n".join(out) + "\n" + t[j:])

# defects and planted bugs
t = open(f).read()
k = json.load(open(os.path.join(V, "known_findings.json")))
fx = ["| property | commit | what failed |", "|---|---|---|"]
for l in k["fixed"]:
    _, pr, rest = l.split(" ", 2)
    c, w = rest.split(" ", 1)
    fx.append("| %s | %s | %s |" % (pr.split("=")[1], c, w))
sd = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
S = os.path.join(V, "seeded")
missed = {}
if os.path.isdir(S):
    for n in sorted(os.listdir(S)):
        m = json.load(open(os.path.join(S, n, "meta.json")))
        sd.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], missed.get(n, m["property"])))
    for a, body in (("fixed", fx), ("seeds", sd)):
        x, y = "<!-- generated: %s -->\n" % a, "<!-- end %s -->\n" % a
        i, j = t.index(x) + len(x), t.index(y)
        t = t[:i] + "\n" + "\n".join(body) + "\n" + t[j:]
    open(f, "w").write(t)
