#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--run NAME] [--keep]

Decides one property by symbolic execution of /repo's current sources.  Exit 0: holds within the stated bounds,
1: violated (VIOLATION line, counterexample replayed natively), 2: no verdict (error, timeout, unconfirmed)."""
import argparse
import json
import os
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
from registry import PROPS


def known_findings():
    try:
        return json.load(open(os.path.join(vf.VERIF, "known_findings.json")))["findings"]
    except OSError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--run")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--no-samples", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    P = PROPS[a.prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    outroot = tempfile.mkdtemp(prefix="verif-%s-" % a.prop, dir="/tmp")
    rc = 2
    try:
        rc = decide(a, P, tier, outroot, t0)
    except vf.CheckError as e:
        print("ERROR property=%s %s" % (a.prop, e))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(outroot, ignore_errors=True)
        else:
            print("kept", outroot)
    sys.exit(rc)


def decide(a, P, tier, outroot, t0):
    eng = vf.cf.ThreadPoolExecutor(1).submit(vf.build_engine)
    runs = [r for r in P["runs"] if tier in r.get("tiers", ("quick", "thorough"))]
    if a.run:
        runs = [r for r in P["runs"] if r["name"] == a.run]
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, queries=0, queries_sat=0, queries_unsat=0,
               query_cache_hits=0, solver_s=0.0, solver_max_s=0.0, instructions=0, assertions_checked=0, symbolic_assertions=0,
               symbolic_inputs=0, samples=[], runs=[], functions_encoded=[])
    funcs = set()
    built = {}
    viols, unconfirmed, errors, known_lines = [], [], [], []
    disagreements = 0
    known = [k for k in known_findings() if k["property"] == a.prop and k.get("status") == "known"]
    for r in runs:
        spec = r.get("spec", {})
        h = r["harness"]
        bkey = json.dumps([h, spec], sort_keys=True)
        d = os.path.join(outroot, r["name"])
        os.makedirs(d, exist_ok=True)
        if bkey not in built:
            tb = time.time()
            built[bkey] = vf.build_bc(h, spec, d)
            vf.log("[%s] built %s in %.1fs" % (r["name"], h, time.time() - tb))
        eng.result()
        cfg = dict(r.get("cfg", {}))
        if tier == "thorough":
            cfg.update(r.get("cfg_thorough", {}))
        tmo = r.get("timeout_thorough" if tier == "thorough" else "timeout", 3000 if tier == "thorough" else 400)
        res, out = vf.run_engine(built[bkey], d, cfg, tmo, r.get("flags", []))
        vf.log("[%s] %s paths=%d queries=%d solver=%.1fs wall=%.1fs %s" % (
            r["name"], res["status"], res["paths"], res["queries"], res["solver_s"], res["wall_s"], res["error"][:300]))
        cov["states"] += res["paths"]
        cov["transitions"] += res["forks"]
        cov["queries"] += res["queries"]
        cov["queries_sat"] += res["sat"]
        cov["queries_unsat"] += res["unsat"]
        cov["query_cache_hits"] += res["cache_hits"]
        cov["solver_s"] += res["solver_s"]
        cov["solver_max_s"] = max(cov["solver_max_s"], res["solver_max_s"])
        cov["instructions"] += res["instructions"]
        cov["assertions_checked"] += res["asserts_checked"]
        cov["symbolic_assertions"] += res["asserts_symbolic"]
        cov["symbolic_inputs"] += res["symbolic_inputs"]
        funcs.update(res["functions"])
        cov["runs"].append(dict(name=r["name"], harness=h, bounds=dict(cfg, **{"_": r.get("bounds", "")}), status=res["status"],
                                paths=res["paths"], queries=res["queries"], solver_s=round(res["solver_s"], 2), wall_s=round(res["wall_s"], 2),
                                assertions=res["asserts"], reached=res["covers"], error=res["error"][:500]))
        cov["samples"] += ["%s: %s" % (r["name"], s[:400]) for s in res["samples"][:2]]
        nat = {}

        def native(mode):
            if mode not in nat:
                nat[mode] = vf.build_native(h, spec, d, mode)
            return nat[mode]

        mode = r.get("replay", "asan")
        if res["status"] == "violation":
            i = 0
            while os.path.exists(os.path.join(d, "viol_%d.inputs" % i)):
                inp = os.path.join(d, "viol_%d.inputs" % i)
                txt = open(os.path.join(d, "viol_%d.txt" % i)).read()
                i += 1
                kind = txt.split("\n")[0].replace("kind: ", "")
                msg = txt.split("\n")[1].replace("message: ", "") if "\n" in txt else ""
                n, so, se = vf.replay(native("tsan" if kind == "race" else mode), inp, cfg)
                ok = n not in (0, 3, 4)
                if kind == "hang":
                    ok = n == "timeout"
                vf.log("  counterexample: %s: %s -> native replay: %s %s" % (kind, msg, n, "reproduced" if ok else "NOT reproduced"))
                vf.log("    " + "\n    ".join((se or so).splitlines()[:8]))
                kf = [k for k in known if k["run"] == r["name"] and k["message"] == msg]
                rdir = os.path.join(vf.VERIF, "evidence", "replays")
                os.makedirs(rdir, exist_ok=True)
                dst = os.path.join(rdir, "%s-%s-%d.txt" % (a.prop, r["name"], i - 1))
                with open(dst, "w") as f:
                    f.write("# property %s run %s harness %s\n# cfg %s\n# %s: %s\n# native replay (%s): exit %s\n" % (
                        a.prop, r["name"], h, json.dumps(cfg), kind, msg, mode, n))
                    f.write("".join("# | " + l + "\n" for l in txt.splitlines()))
                    f.write("".join("# > " + l + "\n" for l in (se or "").splitlines()[:40]))
                    f.write(open(inp).read())
                if kf and ok:
                    known_lines.append("KNOWN-FINDING: property=%s %s" % (a.prop, kf[0]["what"]))
                elif ok:
                    viols.append((r["name"], kind, msg, dst))
                else:
                    unconfirmed.append((r["name"], kind, msg, dst))
        elif res["status"] != "ok":
            errors.append("%s: %s %s" % (r["name"], res["status"], res["error"][:800]))
        if res["status"] == "ok":
            miss = [c for c in r.get("covers", []) if not res["covers"].get(c)]
            if miss:
                errors.append("%s: vacuity guard: not reached: %s" % (r["name"], ", ".join(miss)))
            if r.get("samples", True) and not a.no_samples:
                n = 0
                for j in range(r.get("nsamples", 3)):
                    inp = os.path.join(d, "sample_%d.inputs" % j)
                    if not os.path.exists(inp):
                        break
                    c, so, se = vf.replay(native(mode), inp, cfg)
                    want = [l.split(" = ") for l in open(inp).read().splitlines() if l.startswith("trace ")]
                    got = [l for l in so.splitlines() if l.startswith("trace ")]
                    same = c in (0, 4) and (c == 4 or len(want) == len(got))
                    if same:
                        n += 1
                    else:
                        disagreements += 1
                        vf.log("  sample %d: native run disagrees: exit %s\n    %s" % (j, c, "\n    ".join(se.splitlines()[:12])))
                cov["traces_validated_against_impl"] += n
        if viols and not a.keep:
            break
    cov["functions_encoded"] = sorted(funcs)
    cov["solver_s"] = round(cov["solver_s"], 2)
    cov["native_disagreements"] = disagreements
    cov["exhaustive"] = not errors and not viols and not unconfirmed
    cov["bounds"] = P["bounds"]
    cov["outside"] = P["outside"]
    ev = dict(property=a.prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", coverage=cov,
              assumptions=P["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(viols))
    ed = os.path.join(vf.VERIF, "evidence")
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in known_lines:
        print(l)
    if viols:
        for n, k, m, dst in viols:
            print("  %s: %s: %s" % (n, k, m))
        print("VIOLATION property=%s replay=%s" % (a.prop, viols[0][3]))
        return 1
    for n, k, m, dst in unconfirmed:
        print("UNCONFIRMED property=%s %s: %s: %s (%s)" % (a.prop, n, k, m, dst))
    for e in errors:
        print("ERROR property=%s %s" % (a.prop, e))
    if unconfirmed or errors:
        return 2
    print("OK property=%s paths=%d queries=%d (unsat %d) solver=%.1fs wall=%.1fs" % (
        a.prop, cov["states"], cov["queries"], cov["queries_unsat"], cov["solver_s"], time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
