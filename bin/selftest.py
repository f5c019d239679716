#!/usr/bin/env python3
"""runs harness/gauntlet.cpp: library features that Umpire, or a rewrite of it, may use, under the engine"""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
d = tempfile.mkdtemp(prefix="verif-self-")
vf.build_engine()
bad = 0
bc = vf.build_bc("gauntlet", dict(only=["umpire/util/"], rt=["rt_io.cpp", "rt_file.cpp"]), d)
for t in range(43):
    res, _ = vf.run_engine(bc, d, dict(t=t), 60, [])
    if res["status"] != "ok":
        bad += 1
        print(t, res["status"], res["error"][:300])
shutil.rmtree(d)
print("%d failed" % bad)
sys.exit(bad != 0)
