#!/usr/bin/env python3
"""seedtool.py DIR...: (re)make and confirm planted bugs.  DIR holds bug.py (FILE, OLD, NEW or a list EDITS; PROP, NEEDS, BREAKS; optional ONLY, FLAGS)
and demo.cpp.  Writes /verif/seeded/<name>/ after confirming in a scratch copy: builds, stable tests pass, demo 0 on clean and nonzero on patched."""
import json, os, shutil, subprocess, sys
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def make(d):
    name = os.path.basename(d.rstrip("/"))
    ns = {}
    exec(open(os.path.join(d, "bug.py")).read(), ns)
    edits = ns.get("EDITS") or [(ns["FILE"], ns["OLD"], ns["NEW"])]
    out = "%s/seeded/%s" % (V, name)
    W = "/tmp/seedw-" + name
    shutil.rmtree(W, ignore_errors=True)
    sh("git -C /repo worktree prune; mkdir -p %s; cd /repo && git archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm base" % (W, W, W))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    shutil.copy(os.path.join(d, "demo.cpp"), out)
    shutil.copy(V + "/bin/seedlib/demo.sh", out)
    shutil.copytree(V + "/shim", out + "/shim")
    if "ONLY" in ns: open(out + "/only", "w").write(ns["ONLY"] + "\n")
    if "FLAGS" in ns: open(out + "/flags", "w").write(ns["FLAGS"] + "\n")
    json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % out, cwd=W)
    if r.returncode: print(name, "CLEAN demo fails", r.returncode, r.stdout[-1500:]); return False
    for f, o, n in edits:
        p = os.path.join(W, f); s = open(p).read()
        if s.count(o) != 1: print(name, "OLD occurs", s.count(o)); return False
        open(p, "w").write(s.replace(o, n))
    open(out + "/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
    r = sh("bash %s/demo.sh" % out, cwd=W)
    ok = r.returncode not in (0, 2)
    print(name, "patched demo exit", r.returncode, r.stdout.strip()[-200:].replace("\n", " | "))
    shutil.rmtree(W, ignore_errors=True)
    # stable tests with the patch (only util, judy and event recorder sources are built)
    if any("/util/" in f or "judy" in f or f.endswith((".hpp", ".inl")) for f, _, _ in edits):
        r = sh("cd /repo && git apply %s/patch.diff && bash /opt/vp/build.sh >/tmp/sb.log 2>&1 && bash /opt/vp/test.sh /tmp/sb.json >/dev/null 2>&1; git checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1" % out)
        o = json.load(open("/tmp/sb.json"))
        f = o.get("failed", [])
        print(name, "tests failed:", f)
        ok = ok and not f
    if not ok: print(name, "NOT CONFIRMED"); shutil.rmtree(out)
    return ok
if __name__ == "__main__":
    sys.exit(0 if all([make(d) for d in sys.argv[1:]]) else 1)
