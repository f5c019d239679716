"""Build /repo's sources to bitcode, run the symbolic executor, replay counterexamples natively."""
import glob, concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
ENGINE = os.path.join(VERIF, "engine", "usymex")
CLANGXX = "/usr/bin/clang++-18"
CLANG = "/usr/bin/clang-18"
LINK = "/usr/bin/llvm-link-18"
OPT = "/usr/bin/opt-18"
NM = "/usr/bin/llvm-nm-18"
ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C", "HOME": "/tmp"}
NJ = os.cpu_count() or 8

# sources that need an SDK which is absent here (CUDA, HIP, SYCL, OpenMP target, sqlite, MPI 3, umap)
SKIP = re.compile(r"(Cuda|Hip|Sycl|OpenMPTarget|DeviceAllocator|device_allocator|sqlite|HostMpi3|numa|Numa|/interface/)")
BASE_FLAGS = ["-std=c++14", "-DNDEBUG", "-fno-access-control", "-w"]
BC_FLAGS = ["-DVERIF_BC", "-O0", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-gline-tables-only"]
ASAN = ["-O0", "-gline-tables-only", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function,pointer-overflow,alignment",
        "-fno-sanitize-recover=all"]
TSAN = ["-O0", "-gline-tables-only", "-fsanitize=thread"]


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=ENV, **kw)


def build_engine():
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "engine.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-j4", "-C", os.path.join(VERIF, "engine")])
        if r.returncode:
            raise CheckError("engine build failed: " + r.stderr[-2000:])


def file_hash(p, memo={}):
    try:
        st = os.stat(p)
        k = (p, st.st_mtime_ns, st.st_size)
        if k not in memo:
            with open(p, "rb") as f:
                memo[k] = hashlib.sha256(f.read()).hexdigest()
        return memo[k]
    except OSError:
        return "missing"


def gen_config(logging):
    """umpire/config.hpp from config.hpp.in, with the project's default options"""
    on = {"UMPIRE_ENABLE_FILE_RESOURCE", "UMPIRE_ENABLE_IPC_SHARED_MEMORY"}
    if logging:
        on.add("UMPIRE_ENABLE_LOGGING")
    src = open(os.path.join(REPO, "src/umpire/config.hpp.in")).read()
    ver = re.search(r"project\s*\(\s*Umpire[^)]*VERSION\s+(\d+)\.(\d+)\.(\d+)", open(os.path.join(REPO, "CMakeLists.txt")).read())
    v = ver.groups() if ver else ("0", "0", "0")

    def rep(m):
        return ("#define " + m.group(1)) if m.group(1) in on else ("/* #undef " + m.group(1) + " */")

    out = re.sub(r"#cmakedefine\s+(\w+).*", rep, src)
    out = out.replace("@Umpire_VERSION_MAJOR@", v[0]).replace("@Umpire_VERSION_MINOR@", v[1]).replace("@Umpire_VERSION_PATCH@", v[2])
    out = re.sub(r"@\w+@", "", out)
    d = os.path.join(CACHE, "inc-log" if logging else "inc")
    os.makedirs(os.path.join(d, "umpire"), exist_ok=True)
    p = os.path.join(d, "umpire", "config.hpp")
    if not os.path.exists(p) or open(p).read() != out:
        with open(p + ".%d" % os.getpid(), "w") as f:
            f.write(out)
        os.replace(p + ".%d" % os.getpid(), p)
    return d


def includes(logging):
    d = gen_config(logging)
    return ["-I" + os.path.join(VERIF, "shim"), "-I" + d, "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src/tpl"),
            "-I" + os.path.join(VERIF, "rt"), "-I" + os.path.join(VERIF, "harness")]


def compile_one(src, flags, ext, cxx=True):
    """compile with a cache keyed by flags and the contents of the source and of every file it included"""
    cmd = [CLANGXX if cxx else CLANG] + flags
    key = hashlib.sha256(("\0".join(cmd) + "\0" + src).encode()).hexdigest()[:24]
    base = os.path.join(CACHE, "obj", key)
    out, meta = base + ext, base + ".meta"
    try:
        with open(meta) as f:
            m = json.load(f)
        if os.path.exists(out) and all(file_hash(p) == h for p, h in m.items()):
            return out, None
    except (OSError, ValueError):
        pass
    os.makedirs(os.path.dirname(base), exist_ok=True)
    tmp = "%s.%d" % (base, os.getpid())
    r = sh(cmd + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"])
    if r.returncode:
        for s in (".d", ".o"):
            if os.path.exists(tmp + s):
                os.unlink(tmp + s)
        return None, r.stderr
    deps = open(tmp + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    m = {p: file_hash(p) for p in deps if not p.startswith("/usr/")}
    os.replace(tmp + ".o", out)
    os.unlink(tmp + ".d")
    with open(tmp + ".m", "w") as f:
        json.dump(m, f)
    os.replace(tmp + ".m", meta)
    return out, None


def repo_sources():
    r = []
    for root, _, files in os.walk(os.path.join(REPO, "src/umpire")):
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith(".cpp") and not SKIP.search(p[len(REPO):]):
                r.append(p)
    return sorted(r)


def compile_all(harness, mode, spec):
    """-> list of object files.  mode: bc | asan | tsan | plain"""
    logging = spec.get("logging", False)
    inc = includes(logging)
    defs = ["-D" + d for d in spec.get("defs", [])]
    srcdefs = spec.get("srcdefs", {})
    mflags = {"bc": BC_FLAGS, "asan": ASAN, "tsan": TSAN, "plain": ["-O1", "-g"]}[mode]
    ext = ".bc" if mode == "bc" else ".o"
    jobs = []
    only = spec.get("only")
    for s in repo_sources():
        rel = s[len(REPO) + 1:]
        if only is not None and not any(x in rel for x in only):
            continue
        if any(x in rel for x in spec.get("skip", [])):
            continue
        extra = [x for k, v in srcdefs.items() if k in rel for x in v]
        jobs.append((s, BASE_FLAGS + mflags + inc + extra, True, False))
    for s in sorted(x for g in spec.get("extra_src", []) for x in glob.glob(os.path.join(REPO, g))):
        extra = [x for k, v in srcdefs.items() if k in s[len(REPO) + 1:] for x in v if x not in defs]
        jobs.append((s, BASE_FLAGS + mflags + inc + defs + extra, True, True))
    jdefs = [x for k, v in srcdefs.items() if k == "judy.c" for x in v]
    jobs.append((os.path.join(REPO, "src/tpl/umpire/judy/judy.c"), ["-DNDEBUG", "-w"] + mflags + inc + jdefs, False, True))
    jobs.append((os.path.join(VERIF, "harness", harness + ".cpp"), BASE_FLAGS + mflags + inc + defs, True, True))
    for s in spec.get("support", []):
        jobs.append((os.path.join(VERIF, "harness", s), BASE_FLAGS + mflags + inc + defs, True, True))
    if mode == "bc":
        jobs.append((os.path.join(VERIF, "rt/rt.cpp"), BASE_FLAGS + mflags + inc, True, True))
        for x in spec.get("rt", []):
            jobs.append((os.path.join(VERIF, "rt", x), BASE_FLAGS + mflags + inc, True, True))
        jobs.append((os.path.join(VERIF, "rt/rt_c.c"), ["-fno-builtin", "-w"] + mflags, False, True))
    else:
        nd = ["-DVERIF_ASAN"] if mode == "asan" else []
        jobs.append((os.path.join(VERIF, "rt/native.cpp"), BASE_FLAGS + mflags + inc + nd + (["-fno-sanitize=thread"] if mode == "tsan" else []), True, True))
    objs, errs = [], []
    with cf.ThreadPoolExecutor(NJ) as ex:
        for (s, fl, cxx, must), (o, e) in zip(jobs, ex.map(lambda j: compile_one(j[0], j[1], ext, j[2]), jobs)):
            if o:
                objs.append(o)
            elif must:
                raise CheckError("cannot compile %s:\n%s" % (s, "\n".join(e.splitlines()[:12])))
            else:
                errs.append((s, e))
    return objs, errs


def build_bc(harness, spec, outdir):
    objs, errs = compile_all(harness, "bc", spec)
    a, b = os.path.join(outdir, "a.bc"), os.path.join(outdir, "h.bc")
    r = sh([LINK, "-o", a] + objs)
    if r.returncode:
        raise CheckError("llvm-link: " + r.stderr[-2000:])
    entry = spec.get("entry", "harness_main")
    r = sh([OPT, "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,instsimplify,dce)",
            "-internalize-public-api-list=" + entry, a, "-o", b])
    if r.returncode:
        raise CheckError("opt: " + r.stderr[-2000:])
    os.unlink(a)
    for s, e in errs:
        log("note: %s does not compile: %s" % (s, e.splitlines()[0] if e else ""))
    return b


def build_native(harness, spec, outdir, mode):
    objs, _ = compile_all(harness, mode, spec)
    exe = os.path.join(outdir, "replay-" + mode)
    fl = {"asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"], "plain": []}[mode]
    fl = fl + ["-Wl,--wrap=" + w for w in ("pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "__cxa_guard_acquire", "sched_yield")]
    r = sh([CLANGXX] + fl + ["-o", exe, "-Wl,--allow-multiple-definition", "-Wl,--gc-sections"] + objs + ["-lpthread", "-ldl", "-lrt"])
    if r.returncode:
        # drop what nothing in the harness reaches
        r = sh([CLANGXX] + fl + ["-o", exe, "-Wl,--allow-multiple-definition", "-Wl,--unresolved-symbols=ignore-all"] + objs +
               ["-lpthread", "-ldl", "-lrt"])
        if r.returncode:
            raise CheckError("native link: " + r.stderr[-2000:])
    return exe


def run_engine_once(bc, outdir, cfg, tmo, grace, flags):
    """one engine run; (None, output) when it does not stop by itself"""
    os.makedirs(outdir, exist_ok=True)
    for n in os.listdir(outdir):
        if n.startswith(("viol_", "sample_")) or n == "result.json":
            os.unlink(os.path.join(outdir, n))
    cmd = [ENGINE, bc, "-o", outdir, "-j", str(NJ), "-t", str(tmo)] + flags
    for k, v in cfg.items():
        cmd += ["--cfg", "%s=%s" % (k, v)]
    stopped = True
    with open(os.path.join(outdir, "engine.log"), "w+", errors="replace") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=ENV, start_new_session=True)
        try:
            p.wait(timeout=tmo + grace)
        except subprocess.TimeoutExpired:
            stopped = False
        try:
            os.killpg(p.pid, 9)  # workers that are left, if any
        except OSError:
            pass
        p.wait()
        lf.seek(0)
        out = lf.read()
    if not stopped:
        return None, out
    try:
        with open(os.path.join(outdir, "result.json")) as f:
            return json.load(f), out
    except (OSError, ValueError):
        return None, out


def run_engine(bc, outdir, cfg, tmo, flags):
    """A run whose engine hangs, loses a worker or runs out of time is made once more, from the start."""
    first = min(tmo, 200) if tmo <= 400 else tmo
    res, out = run_engine_once(bc, outdir, cfg, first, 20, flags)
    if res and (res["status"] in ("ok", "violation") or
                (res["status"] == "error" and "workers did not stop" not in res["error"] and "worker process died" not in res["error"])):
        return res, out
    log("note: engine run gave %s; running it again" % (res["status"] + " " + res["error"][:200] if res else "no result"))
    res, out = run_engine_once(bc, outdir, cfg, tmo, 70, flags)
    if not res:
        raise CheckError("engine failed or did not stop: " + out[-2000:])
    return res, out


def replay(exe, inputs, cfg, tmo=60):
    env = dict(ENV)
    if cfg.get("events"):
        env["UMPIRE_EVENTS"] = "1"
    env.update(VERIF_REPLAY=inputs, VERIF_CFG=",".join("%s=%s" % kv for kv in cfg.items()),
               ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=16384:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=78:print_stacktrace=0", TSAN_OPTIONS="exitcode=79:halt_on_error=1")
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmo, text=True, errors="replace")
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return "timeout", "", ""
