#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import NA, P
from registry import PROPS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
P.sort(key=lambda p: (p["id"][0], int(p["id"][1:])))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for a in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + a), (p["id"], a)
        f.write(json.dumps(p) + "\n")
na = {n[0] for n in NA}
assert set(PROPS) | na == set(ids) and not set(PROPS) & na, (set(PROPS) ^ set(ids), na)
checks = []
for p in P:
    if p["id"] in na:
        continue
    r = PROPS[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3 bin/check.py " + p["id"], thorough_cmd="python3 bin/check.py %s --tier thorough" % p["id"],
                       technique="symbolic execution of /repo's LLVM bitcode, assertions decided by SMT (z3: LIA, bit-vector fallback), counterexamples replayed natively",
                       level="model_checking", level_note="Bounded: " + r["bounds"] + ". Outside: " + r["outside"] + "."))
m = dict(version=1, setup_cmd="make -s -j4 -C engine", checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA],
         notes="engine/ is an LLVM-bitcode symbolic executor over z3; bin/check.py compiles /repo's current sources with the harness, explores every path and replays counterexamples natively.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
