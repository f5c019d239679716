"""Runs per property.  A run = one harness build (spec), one configuration (bounds), explored to completion by the engine."""
import os

import copy

PROPS = {}
QP = dict(defs=['POOL=QuickPool', 'POOL_HDR="umpire/strategy/QuickPool.hpp"'])
DP = dict(defs=['POOL=DynamicPoolList', 'POOL_HDR="umpire/strategy/DynamicPoolList.hpp"'])
SP = {"qp": QP, "dp": DP}
POI = ["UMPIRE_ENABLE_ASAN", "__SANITIZE_ADDRESS__", "VERIF_POISON_SHIM"]
SPP = {k: dict(defs=v["defs"] + POI + ["VERIF_POISON"], srcdefs={"src/umpire": ["-D" + d for d in POI]}) for k, v in SP.items()}
BASE = ["alloc", "release", "coalesce", "dealloc", "end"]


def run(name, harness, cfg, covers=(), th=None, **kw):
    r = dict(name=name, harness=harness, cfg=cfg, covers=list(covers), **kw)
    if th:
        r["cfg_thorough"] = th
    return r


def pool(which, name, groups, cfg, covers=(), th=None, **kw):
    c = dict(cfg, groups=groups)
    return run(which + "-" + name, "pool", c, covers, th, spec=SP[which], **kw)


def prop(pid, bounds, outside, assumptions, runs):
    names = [r["name"] for r in runs]
    assert len(set(names)) == len(names), pid
    PROPS[pid] = dict(bounds=bounds, outside=outside, assumptions=assumptions, runs=runs)


A_UP = ("upstream memory is modelled by a stub strategy that returns any suitably aligned address range not overlapping what it "
        "has out (layout 0) or one of a family of layouts (far apart, or adjacent to the previous block), and fails "
        "nondeterministically where stated; pools never dereference the memory they hand out")
A_ENG = ("encoding: LLVM 18 bitcode of /repo's sources (clang -O0 + sroa), x86-64, exceptions and heap modelled by the engine; "
         "streams, logging output and environment variables are stubbed; string formatting (fmt) is stubbed to an arbitrary string")
A_CAMP = "camp is replaced by a minimal shim (verif/shim) because the submodule is absent; only Host resources/events are modelled"
POOL_OUT = "longer histories, more than one heuristic per history, device resources, requests above 2^40 bytes other than the explicit huge request"

# ---- pools
for pid, w in (("C01", "qp"), ("C02", "dp")):
    prop(pid, "histories of k<=4 operations (allocate/deallocate/release/coalesce/huge allocate) with symbolic sizes 1..2^40 and "
         "symbolic minimum chunk sizes; k<=6 with sizes from {16,32,64}; alignments 16 and 64; with and without an automatic "
         "coalescing heuristic; up to 2 upstream failures per operation", POOL_OUT, [A_UP, A_ENG, A_CAMP], [
        pool(w, "sym", 1, dict(k=3, layout=0), BASE, dict(k=4)),
        pool(w, "lay", 1, dict(k=4, layout=1), BASE + ["huge", "alloc-reuse"], dict(k=5), timeout=300),
        pool(w, "coal", 1, dict(k=3, pre=2, layout=1, ops=10, heur=5), ["dealloc", "coalesce", "coalesced", "end"], dict(k=4, ops=11)),
        pool(w, "coalc", 1, dict(k=6, layout=1, szset=3, first=64, next=32, ops=11, heur=5), ["alloc", "dealloc", "coalesce", "coalesced", "end"], dict(k=7)),
        pool(w, "adj", 1, dict(k=3, layout=2), BASE, dict(k=4)),
        pool(w, "al64", 1, dict(k=3, layout=1, align=64), BASE, dict(k=4)),
        pool(w, "fail", 1, dict(k=3, layout=1, fail=2), BASE + ["alloc-failed"], dict(k=4)),
        pool(w, "h1", 1, dict(k=3, layout=1, heur=0, hparm=1, maxsz=4096), BASE, dict(k=4)),
        pool(w, "h1c", 1, dict(k=5, layout=1, heur=0, hparm=1, szset=3, first=64, next=32), BASE + ["dealloc-coalesced"], dict(k=6)),
        pool(w, "def", 1, dict(k=3, layout=1, heur=3, hparm=100, fail=2, ops=3, maxsz=4096), ["alloc", "dealloc", "alloc-failed", "dealloc-coalesced", "end"], dict(k=4)),
        pool(w, "again", 1, dict(k=6, layout=3, heur=0, hparm=2, szset=2, first=48, next=32, ops=15), BASE + ["dealloc-coalesced"], dict(k=7)),
        pool(w, "p50c", 1, dict(k=5, layout=1, heur=2, hparm=50, szset=3, first=64, next=32, ops=15), BASE + ["dealloc-coalesced"], dict(k=6)),
    ])

FPC = ["alloc", "dealloc", "release", "probe", "alloc-failed", "end"]
MPC = ["small", "large", "dealloc", "end"]
SPC = ["alloc", "reuse", "full", "dealloc", "huge", "end"]


def fixed(g, k=0):
    return [
        run("fp-sym", "fixedpool", dict(which=0, k=5, fail=1, groups=g), FPC, dict(k=6)),
        run("fp-33", "fixedpool", dict(which=0, k=3, layout=1, npp=33, obj=24, pre=32, fail=1, groups=g), FPC, dict(k=4)),
        run("fp-64", "fixedpool", dict(which=0, k=2, layout=1, npp=64, obj=8, pre=62, fail=1, groups=g), ["alloc", "dealloc", "end"], dict(k=3)),
        run("mp", "fixedpool", dict(which=1, k=3, layout=1, fail=2, groups=g), MPC, dict(k=4)),
        run("fp-again", "fixedpool", dict(which=0, k=6, layout=3, npp=2, obj=24, groups=g), [c for c in FPC if c != "alloc-failed"], dict(k=7)),
        run("mp-again", "fixedpool", dict(which=1, k=6, layout=3, szset=1, smallest=64, pre=4, hparm=100, groups=g), MPC, dict(k=7)),
        run("sp", "fixedpool", dict(which=2, k=5, fail=1, layout=1, groups=g), SPC, dict(k=6, slots=3)),
        run("fsp", "fixedpool", dict(which=3, k=4, groups=g), ["alloc", "dealloc", "two-pools", "end"], dict(k=6)),
    ]


prop("C03", "FixedPool: k<=5 operations, object sizes {1,8,24,4096}, 1-3 objects per sub-pool, and 33/64 objects prefilled to the word "
     "boundary; MixedPool k<=3 with symbolic sizes to 2^30; SlotPool k<=5, 2 slots, sizes over the full 64-bit range; FixedSizePool k<=4 "
     "after 0/31/32/63 allocations", "other geometries, longer histories", [A_UP, A_ENG, A_CAMP], fixed(1))


def pools(g, covers):
    r = []
    for w in ("qp", "dp"):
        r += [
            pool(w, "sym", g, dict(k=3, layout=0), BASE, dict(k=4)),
            pool(w, "lay", g, dict(k=3, layout=1), BASE, dict(k=5)),
            pool(w, "fail", g, dict(k=3, layout=1, fail=2), BASE + ["alloc-failed"], dict(k=4)),
            pool(w, "again", g, dict(k=5, layout=3, heur=0, hparm=2, szset=2, first=48, next=32, ops=15), BASE + ["dealloc-coalesced"], dict(k=6)),
            pool(w, "h1c", g, dict(k=5, layout=1, heur=0, hparm=1, szset=2, first=64, next=32, ops=15), BASE + ["dealloc-coalesced"], dict(k=6)),
        ]
    return r


PB = ("pools: k<=3 operations with symbolic sizes and minimum chunk sizes (any layout), 2 upstream failures per operation, and k<=5 with "
      "concrete sizes and automatic coalescing; fixed-size, mixed and slot pools as in C03")
prop("C04", PB, POOL_OUT, [A_UP, A_ENG, A_CAMP], pools(4, 0) + fixed(4))
prop("C05", PB, POOL_OUT, [A_UP, A_ENG, A_CAMP], pools(2, 0) + fixed(2))
prop("C06", PB + "; making each kind of pool with any upstream request failing", POOL_OUT, [A_UP, A_ENG, A_CAMP], pools(16, 0) + fixed(16) + [
    run("making", "fixedpool", dict(which=4, fail=1, groups=16), ["made", "not-made", "end"], dict(fail=3))])


def heuristics(g):
    r = []
    for w in ("qp", "dp"):
        for n, h, p in (("b2", 0, 2), ("bh2", 1, 2), ("p50", 2, 50), ("ph30", 3, 30)):
            r.append(pool(w, n, g, dict(k=5, layout=1, heur=h, hparm=p, szset=2, first=48, next=32, ops=11), ["alloc", "dealloc", "coalesce", "dealloc-coalesced", "end"], dict(k=6)))
        r.append(pool(w, "failc", g, dict(k=6, layout=1, fail=1, szset=3, first=64, next=16, ops=7), ["alloc", "release", "dealloc", "alloc-retry", "end"], dict(k=7)))
        for n, h, p, i in (("p100", 2, 100, 0), ("ph100", 3, 100, 0), ("ph100i", 3, 100, 1)):
            r.append(pool(w, n, g, dict(k=5, layout=1, heur=h, hparm=p, szset=2, first=48, next=32, ops=11, internal=i), ["alloc", "dealloc", "coalesce", "dealloc-coalesced", "end"], dict(k=6)))
        for n, h, p in (("b2", 0, 2), ("p50", 2, 50), ("ph50", 3, 50)):
            r.append(pool(w, n + "eq", g, dict(k=5, layout=1, heur=h, hparm=p, szset=2, first=32, next=32, ops=3), ["alloc", "dealloc", "dealloc-coalesced", "end"], dict(k=6)))
        r.append(run(w + "-percent", "pool", dict(making=1), ["made", "refused", "end"], spec=SP[w]))
        r.append(pool(w, "user", g, dict(k=5, layout=1, heur=5, szset=2, first=48, next=32, ops=11), ["alloc", "dealloc", "coalesce", "coalesced", "end"], dict(k=6)))
        r.append(pool(w, "coal", g, dict(k=3, pre=2, layout=1, ops=10, heur=5), ["dealloc", "coalesce", "coalesced", "end"], dict(k=4, ops=11)))
    return r


prop("C07", PB, POOL_OUT, [A_UP, A_ENG, A_CAMP], pools(8, 0) + heuristics(8) + fixed(8))

prop("C40", "histories of k<=4 operations as in C01 and C02, sizes symbolic or from {16,32,64}, upstream failures, automatic coalescing; one byte anywhere in the address space",
     "other pools (they do not poison); device memory; what the sanitizer run time does with the calls", [A_UP, A_ENG, A_CAMP], sum([[
    run(w + "-sym", "pool", dict(k=3, layout=1, groups=0, maxsz=1 << 20), ["in-use", "not-in-use", "end"], dict(k=4), spec=SPP[w], replay="plain"),
    run(w + "-fail", "pool", dict(k=4, layout=1, fail=2, szset=2, first=64, next=32, groups=0), ["in-use", "not-in-use", "end"], dict(k=5), spec=SPP[w], replay="plain"),
    run(w + "-al64", "pool", dict(k=2, layout=1, align=64, groups=0, maxsz=1 << 20, ops=3), ["in-use", "not-in-use", "end"], dict(k=3), spec=SPP[w], replay="plain"),
    run(w + "-coal", "pool", dict(k=5, layout=1, heur=0, hparm=1, szset=2, first=64, next=32, ops=15, groups=0), ["in-use", "not-in-use", "dealloc-coalesced", "end"], dict(k=6), spec=SPP[w], replay="plain"),
] for w in ("qp", "dp")], []))

# ---- wrappers
prop("C11", "k<=2 operations, alignments 16..128, request sizes over the full 64-bit range (served up to 4096), upstream addresses at every "
     "8-byte offset below 256; constructor argument over the full 64-bit range", "larger alignments", [A_ENG, A_CAMP], [
    run("al", "wrappers", dict(which=0, k=2), ["alloc", "dealloc", "huge", "alloc-failed", "end"], dict(k=3)),
    run("alctor", "wrappers", dict(which=1), ["accepted", "rejected", "end"]),
])
prop("C12", "k<=4 operations, limit and sizes over the full 64-bit range", "longer histories", [A_UP, A_ENG, A_CAMP], [
    run("sl", "wrappers", dict(which=2, k=4, layout=1), ["alloc", "dealloc", "refused", "alloc-failed", "end"], dict(k=6)),
    run("untracked", "rm", dict(which=6), ["end"]),
])
prop("C13", "k<=4 operations, capacity 1..2^40, sizes over the full 64-bit range, any upstream address", "longer histories", [A_UP, A_ENG, A_CAMP], [
    run("mo", "wrappers", dict(which=3, k=4, layout=0), ["alloc", "dealloc", "refused", "end"], dict(k=6)),
])
prop("C14", "k<=4 operations, sizes over the full 64-bit range, upstream failures", "longer histories", [A_UP, A_ENG, A_CAMP], [
    run("pt", "wrappers", dict(which=4, k=4, layout=1), ["alloc", "dealloc", "alloc-failed", "end"], dict(k=6)),
    run("untracked", "rm", dict(which=7), ["end"]),
])

# ---- Allocator and ResourceManager
RMC = ["alloc", "alloc-zero", "alloc-failed", "dealloc", "wrong-allocator", "bad-pointer", "end"]
RMB = ("k<=3 operations (allocate, named allocate, zero-byte allocate, deallocate through allocator or manager, through the wrong allocator, of a "
       "bad pointer, lookup) on two allocators over stub strategies that may fail; sizes over the full 64-bit range")


def rm(name, which, cfg, covers, th=None, **kw):
    return run(name, "rm", dict(cfg, which=which), covers, th, **kw)


prop("C08", RMB, "longer histories; untracked allocators", [A_UP, A_ENG, A_CAMP], [
    rm("acct", 0, dict(k=3, groups=9), RMC, dict(k=4))])
prop("C09", RMB + "; probe addresses symbolic around every allocation", "longer histories; overlapping registrations", [A_UP, A_ENG, A_CAMP], [
    rm("lookup", 0, dict(k=3, groups=2), RMC + ["lookup-hit", "lookup-miss"], dict(k=4)),
    rm("untracked", 5, dict(k=4), ["alloc", "alloc-failed", "dealloc", "end"], dict(k=5))])
prop("C15", RMB, "longer histories", [A_UP, A_ENG, A_CAMP], [
    rm("zero", 0, dict(k=3, groups=4), RMC, dict(k=4)),
    rm("zero-many", 0, dict(k=6, groups=4, ops=66, fail=0), ["alloc-zero", "end"], dict(k=8))])
prop("C16", RMB, "longer histories", [A_UP, A_ENG, A_CAMP], [
    rm("owner", 0, dict(k=3, groups=16), RMC, dict(k=4))])
prop("C17", "allocations of 0..4 bytes in HOST and a QuickPool, every pair of offsets, lengths over the full 64-bit range, symbolic contents, sync and async",
     "larger allocations; device memory", [A_ENG, A_CAMP], [
    rm("copy", 1, {}, ["copied", "copy-refused", "set", "memset-refused"], dict(max=6))])
prop("C18", "HOST and QuickPool, 2 reallocations, sizes 0..5 bytes and one unserveable size, symbolic contents, sync and async, null, offset and foreign pointers",
     "larger sizes; device memory", [A_ENG, A_CAMP], [
    rm("realloc", 2, {}, ["realloc", "wrong-allocator", "offset", "realloc-failed", "end"], dict(k=3))])
prop("C19", "HOST to QuickPool and back, sizes 0..5, symbolic contents, every offset", "larger sizes; device memory; NUMA moves (C41)", [A_ENG, A_CAMP], [
    rm("move", 3, {}, ["moved", "same", "offset", "end"], dict(max=12))])
prop("C20", "k<=3 operations (make, alias, unalias, look up, set default) over 4 names (one a built-in resource) and a symbolic 32-bit id",
     "longer histories; other names", [A_ENG, A_CAMP], [
    rm("names", 4, {}, ["made", "make-refused", "aliased", "unaliased", "looked-up", "default", "end"], dict(k=4))])

SYS = ["-D%s=verif_%s" % (f, f) for f in ("shm_open", "fchmod", "ftruncate", "fstat", "mmap", "munmap", "shm_unlink", "close", "pthread_mutex_init")]
SHM = dict(srcdefs={"HostSharedMemoryResource.cpp": SYS})
FSYS = ["-include", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/redirect.h")]
IO = dict(only=["umpire/util/"], rt=["rt_io.cpp"], srcdefs={"util/io.cpp": FSYS})
FILES = dict(srcdefs={"FileMemoryResource.cpp": FSYS, "NullMemoryResource.cpp": FSYS}, rt=["rt_io.cpp"])
EVENTS = dict(skip=["recorder_factory.cpp"], rt=["rt_io.cpp"])
STORE = dict(only=["umpire/event/json_file_store", "umpire/util/"], rt=["rt_io.cpp", "rt_file.cpp"])
CAPI = dict(extra_src=["src/umpire/interface/c_fortran/*.cpp"])
NUMA_D = ["UMPIRE_ENABLE_NUMA"]
NUMA = dict(defs=NUMA_D, srcdefs={"src/umpire": ["-D" + d for d in NUMA_D], "util/numa.cpp": FSYS},
            extra_src=["src/umpire/util/numa.cpp", "src/umpire/strategy/NumaPolicy.cpp", "src/umpire/op/NumaMoveOperation.cpp"])
SQL_D = ["UMPIRE_ENABLE_SQLITE_EXPERIMENTAL"]
SQL = dict(STORE, defs=SQL_D, only=["umpire/util/"], srcdefs={"src/umpire": ["-D" + d for d in SQL_D]}, extra_src=["src/umpire/event/sqlite_database.cpp"])
SPECS = {"sqlite": SQL, "numa": NUMA, "shm": SHM, "io": IO, "capi": CAPI, "files": FILES, "events": EVENTS, "store": STORE}

# ---- address maps
UT = dict(only=["umpire/util/"])


def um(name, which, cfg, covers, th=None, **kw):
    return run(name, "umap", dict(cfg, which=which), covers, th, spec=UT, **kw)


MMC = ["insert", "insert-again", "erase", "erase-refused", "erase-iter", "clear", "floor-hit", "floor-miss", "find-hit", "find-miss", "end"]
FC = ["floor-hit", "find-hit", "find-miss", "end"]
prop("C10", "k<=4 operations with keys over all of 1..2^64-1; k<=1 with a symbolic key among 31 prefilled keys; k<=2 over ten corner addresses among 50 and 62 "
     "prefilled keys (all node sizes, splits into radix nodes at every byte), k<=1 among keys with three different prefixes; two iterators, k<=2 steps over 3 entries",
     "the null key; more entries than the prefills, other key patterns in large maps", [A_ENG], [
    um("mm", 0, dict(k=4), MMC, dict(k=5)),
    um("how", 0, dict(k=2, how=1), ["insert", "insert-again", "end"], dict(k=3)),
    um("lin31", 0, dict(k=1, pat=1, win=4096), MMC, dict(desc=1)),
    um("lin15", 0, dict(k=1, pat=6, win=1024), MMC, dict(k=2)),
    um("rad2", 0, dict(k=2, pat=7, kset=8, ops=3), ["insert", "erase"] + FC, dict(kset=10, ops=19)),
    um("rad1", 0, dict(k=2, pat=3, kset=8, ops=3), ["insert", "erase"] + FC, dict(kset=10, ops=19)),
    um("rad2clr", 0, dict(k=2, pat=7, kset=4, ops=17, desc=1), ["insert", "clear"] + FC, dict(kset=10)),
    um("rad1clr", 0, dict(k=2, pat=3, kset=4, ops=17, desc=1), ["insert", "clear"] + FC, dict(kset=10)),
    um("pre3", 0, dict(k=1, pat=5, kset=10), MMC, dict(k=2)),
    um("it", 3, dict(n=3, k=2), ["advance", "assign", "copy", "end"], dict(k=3)),
    um("it1", 3, dict(n=1, k=3), ["advance", "reach-end", "assign", "copy", "end"], dict(k=4)),
    um("itrad", 3, dict(n=1, k=2, pat=3, kset=4), ["advance", "assign", "copy", "end"], dict(n=2)),
    um("val", 4, dict(k=5), ["erase", "clear", "end"], dict(k=6)),
])
AMC = ["insert", "remove", "remove-refused", "clear", "lookup-hit", "lookup-miss", "iterated", "end"]
prop("C34", "k<=3 operations with addresses 1..2^62 and sizes 0..2^40, ranges at different bases disjoint, several records at one base; k<=2 over corner "
     "addresses among 50 and 62 prefilled records", "overlapping ranges at different bases; the null address; longer histories", [A_ENG], [
    um("am", 1, dict(k=3), AMC, dict(k=4)),
    um("am4", 1, dict(k=4, ops=11), ["insert", "remove", "end"], dict(ops=15)),
    run("print", "umap", dict(which=5, k=4), ["removed", "shown", "not-shown", "end"], dict(k=5), spec=dict(UT, rt=["rt_io.cpp"])),
    um("amrad2", 1, dict(k=2, pat=7, kset=6, ops=3, maxsz=2), ["insert", "remove", "remove-refused", "lookup-hit", "iterated", "end"], dict(kset=10)),
    um("amrad1", 1, dict(k=2, pat=3, kset=6, ops=3, maxsz=1), ["insert", "remove", "remove-refused", "lookup-hit", "iterated", "end"], dict(kset=10)),
])
prop("C26", "k<=7 operations, object sizes 1, 4, 8 and 24 bytes, 1 to 3 objects per pool", "other geometries, malloc failure", [A_ENG], [
    um("fmp", 2, dict(k=7), ["dealloc", "grown", "end"], dict(k=9, maxper=4)),
    um("fmpre", 2, dict(k=4, pre=4, maxper=6), ["dealloc", "grown", "end"], dict(k=6)),
])

# ---- threads
A_THR = ("threads: every schedule with context switches at mutex operations, static initialisation, join and thread end and at most 2 preemptions; sequentially "
         "consistent memory, and a happens-before race detector on every access makes finer interleavings of race-free code equivalent")
THC = ["insert", "remove", "find", "size", "end"]
UC = ["alloc", "alloc-zero", "alloc-named", "dealloc", "dealloc-rm", "end"]


def thr(name, which, cfg, covers, th=None, **kw):
    return run(name, "threads", dict(cfg, which=which), covers, th, **kw)


TB = "2 threads, 2 operations each (any mix), at most 2 preemptions per schedule"
prop("C22", TB, "more threads or operations, iterating or clearing while others write", [A_THR, A_ENG], [
    thr("map", 0, dict(k=2), THC, dict(k=3, preempt=1)),
])
prop("C23", TB + "; allocations of 0 and 24 bytes over a QuickPool", "more threads or operations; other wrapped strategies; allocators shared without a ThreadSafeAllocator",
     [A_THR, A_UP, A_ENG, A_CAMP], [
    thr("shared", 1, dict(k=2), UC, dict(k=3, ops=15, preempt=1)),
    thr("same-object", 1, dict(k=2, copy=0, ops=7), ["alloc", "dealloc", "end"], dict(ops=31)),
    thr("separate", 2, dict(k=2), UC, dict(k=3, ops=15, preempt=1)),
    thr("pools", 4, dict(k=2, ops=7), ["alloc", "dealloc", "end"], dict(k=3, preempt=1)),
])
prop("C24", "2 threads, 2 attempts each over 3 names (one contested), at most 2 preemptions per schedule", "more threads or attempts; other registrations (aliases, resources) at the same time",
     [A_THR, A_UP, A_ENG, A_CAMP], [
    thr("make", 3, dict(k=2), ["made", "refused", "end"], dict(k=3, preempt=1)),
])
SHC = ["allocate", "attach", "free", "detach", "find", "end"]


def shm(name, cfg, covers, th=None, **kw):
    return run(name, "shm", cfg, covers, th, spec=SHM, **kw)


prop("C25", "one segment used through 1 or 2 mappings at different addresses, k<=5 operations over up to 3 names and sizes, segment sizes around the smallest usable ones and "
     "others, setup failures, 2 threads on one mapping with 2 operations each, 2 processes that open the segment at the same time and allocate, every order of their system calls "
     "with at most 2 idle turns in a row",
     "more processes; a process that ends while it holds the lock; names longer than the segment", [A_THR, A_ENG, A_CAMP,
     "shm_open, ftruncate, fstat, mmap, munmap, shm_unlink and close are modelled by the harness; processes are modelled as threads when they run at the same time"], [
    shm("two", dict(k=3, procs=2), ["allocate", "attach", "free", "find", "end"], dict(k=4)),
    shm("one", dict(k=4, procs=1, ops=3), ["allocate", "free", "end"], dict(k=5)),
    shm("full", dict(k=5, procs=1, ops=3, maxsz=32, size=520), ["allocate", "free", "full", "end"], dict(k=6)),
    shm("names", dict(k=4, procs=2, names=2, maxsz=16), ["allocate", "attach", "free", "detach", "end"], dict(k=5)),
    shm("sizes", dict(size=0, k=2, procs=1, names=1, ops=3), ["too-small", "end"], dict(k=3)),
    shm("faults", dict(k=1, faults=1), ["truncate-failed", "map-failed"]),
    shm("holes", dict(k=8, pre=6, procs=1, ops=3, names=6, size=760), ["allocate", "free", "end"], dict(k=9)),
    shm("opening", dict(which=2, yields=2), ["shared", "own", "end"]),
    shm("threads", dict(which=1, k=2), ["allocate", "free", "find", "end"], dict(k=3, preempt=1)),
])

# ---- output, logging
def io(name, which, cfg, covers, th=None, **kw):
    return run(name, "io", dict(cfg, which=which), covers, th, spec=IO, **kw)


A_IO = "libstdc++'s stream buffers, streams and files are modelled (rt_io.cpp): a buffer accepts or refuses each character or write"
prop("C29", "k<=4 operations (characters over all values, text, flush) with console and file stream each present or absent and free to fail", "longer histories; wide characters",
     [A_ENG, A_IO], [
    io("buffer", 0, dict(k=4), ["console", "file", "char", "refused", "text", "flush", "flush-failed", "eof", "end"], dict(k=5)),
])
prop("C35", "k<=3 operations (set level, log a message) over every level, texts of up to 20 symbolic characters, 4 file names and line numbers; environment values of up to 7 symbolic characters", "longer values of UMPIRE_LOG_LEVEL; longer texts",
     [A_ENG, A_IO], [
    io("levels", 1, dict(k=3), ["set-level", "logged", "not-logged", "end"], dict(k=4)),
    io("env", 2, dict(len=7), ["ERROR", "WARNING", "INFO", "DEBUG", "end"], dict(len=9)),
])
prop("C36", "3 process ids, 2 names, 2 extensions, any of the numbers 0 to 12 taken (in a run or any subset of three)", "files created by others between the question and the answer; more files", [A_ENG, A_IO], [
    io("unique", 3, {}, ["free", "taken", "end"]),
])
prop("C43", "logging on or off, MPI layer initialized or not, output directory present, missing or a file, three base names, 0 to 2 names taken; texts with two symbolic characters", "several processes; write errors; output directories of several levels",
     [A_ENG, A_IO, "stat and mkdir are modelled in the harness (io.cpp)"], [
    io("setup", 4, dict(streams=1), ["refused", "directory-made", "no-directory", "flush", "logged", "not-logged", "end"]),
])


# ---- the smaller interfaces
def misc(name, which, cfg, covers, th=None, **kw):
    return run(name, "misc", dict(cfg, which=which), covers, th, **kw)


prop("C28", "two ranges anywhere in 2^40 bytes with sizes up to 2^40, every pair of pointers into them; k<=3 operations (allocate, named allocate, register, deallocate, "
     "deregister) on two allocators", "longer histories; null ranges", [A_UP, A_ENG, A_CAMP], [
    misc("overlap", 0, {}, ["interior", "overlaps", "contains", "neither", "end"]),
    misc("records", 1, dict(k=3), ["external", "named", "deregistered", "end"], dict(k=4)),
])
prop("C31", "objects of 1, 3, 8 and 40 bytes, counts over the full 64-bit range", "other object sizes", [A_UP, A_ENG, A_CAMP], [
    misc("typed", 2, {}, ["zero", "huge", "served", "end"]),
])
prop("C30", "every pair of six platforms for six operation names; every size up to 2^40 and device number", "operations of other back ends", [A_UP, A_ENG, A_CAMP], [
    misc("registry", 3, {}, ["found", "not-found", "applied", "failed", "end"]),
])
prop("C21", "strings of up to 12 symbolic characters, every resource type, 2 resources made among 6 names, every 32-bit word", "longer names; resources this build has not",
     [A_ENG, A_CAMP], [
    misc("resources", 4, {}, ["no-type", "type", "names", "made", "not-made", "bit", "end"], dict(len=15)),
])
prop("C27", "up to 4 records with gaps of 0, 16, 48 or 1024 bytes", "other gaps; unsorted records", [A_ENG, A_CAMP], [
    misc("fragmentation", 5, {}, ["gaps", "no-gaps", "end"], dict(k=5)),
])
prop("C37", "HOST, QuickPool, DynamicPoolList and FixedPool; sizes 0 to 39", "other strategies", [A_UP, A_ENG, A_CAMP], [
    misc("convenience", 6, {}, ["coalesced", "not-coalesced", "malloc", "find", "release", "end"]),
])


# ---- the C interface
def capi(name, which, cfg, covers, th=None, **kw):
    return run(name, "capi", dict(cfg, which=which), covers, th, spec=CAPI, **kw)


prop("C33", "k<=3 operations on allocator handles with sizes over the full 64-bit range; every memory operation on 4-byte allocations with symbolic contents and lengths; "
     "every allocator the interface makes, names of 1 to 6 characters, both string conventions", "longer histories, other names; the Fortran module on top; what exceptions do in C callers",
     [A_UP, A_ENG, A_CAMP], [
    capi("handles", 0, dict(k=3), ["alloc", "alloc-failed", "dealloc", "lookup", "external", "end"], dict(k=4)),
    capi("memory", 1, {}, ["copy-all", "copy-size", "set-all", "set-size", "realloc", "move", "end"]),
    capi("making", 2, {}, ["pool", "advice", "fixed", "end"]),
])


# ---- memory resources over system calls
def files(name, which, cfg, covers, th=None, **kw):
    return run(name, "files", dict(cfg, which=which), covers, th, spec=FILES, **kw)


prop("C32", "k<=5 operations (file), k<=6 (null), sizes over the full 64-bit range, up to 2 failing system calls (open, ftruncate, mmap, remove) anywhere; HOST with 3 allocations of 4 "
     "sizes and one unserveable; no-op ranges up to 2^40 bytes", "longer histories; failures while the resource is destroyed; files left by other processes",
     [A_ENG, A_CAMP, "open, ftruncate, mmap, munmap, close, remove, sysconf and getpid are modelled by the harness"], [
    files("file", 0, dict(k=4, faults=2), ["alloc", "alloc-failed", "dealloc", "open-failed", "truncate-failed", "map-failed", "remove-failed", "end"], dict(k=5)),
    files("null", 1, dict(k=5, faults=2), ["alloc", "alloc-failed", "dealloc", "map-failed", "end"], dict(k=6)),
    files("no-op", 2, dict(k=4), ["dealloc", "end"]),
    files("host", 3, {}, ["alloc-failed", "dealloc", "end"]),
    run("host-paged", "numa", dict(which=4), ["alloc-failed", "dealloc", "end"], spec=NUMA),
])


# ---- events
prop("C38", "k<=3 allocations and deallocations (plain, named, failing) with sizes over the full 64-bit range on two allocators; every other recorded operation once with its parameters varied",
     "which internal operations of a reallocation or move are recorded; what is recorded about operations that fail after they started", [A_UP, A_ENG, A_CAMP, A_IO], [
    run("allocations", "events", dict(which=0, k=3, events=1), ["alloc", "named", "alloc-failed", "dealloc", "end"], dict(k=4), spec=EVENTS),
    run("operations", "events", dict(which=1, events=1), ["make", "default", "copy", "set", "realloc", "move", "release", "external", "coalesce", "mark", "end"], spec=EVENTS),
])
prop("C39", "one event with a symbolic ASCII character in its texts, texts of up to 4206 characters, two events of every pair of kinds; sizes 0, 1, 4096, 2^63-1, 2^63, 2^64-1 and three pointers",
     "more events per file; other texts, characters outside ASCII; write errors", [A_ENG, A_IO, "stdio is modelled (rt_file.cpp)"], [
    run("text", "store", dict(k=1, long=1), ["event", "allocate", "named_allocate", "deallocate", "end"], spec=STORE),
    run("pairs", "store", dict(k=2, plain=1), ["event", "allocate", "named_allocate", "deallocate", "end"], dict(k=2), spec=STORE),
])
prop("C44", "two resources and k<=2 (thorough 3) allocators of nine kinds over any earlier one, each unused, used or used and given back; 32-byte blocks", "more allocators; allocators over device memory",
     [A_UP, A_ENG, A_CAMP, "handlers registered with atexit and for static objects run in reverse order, as in C++"], [
    run("shutdown", "shutdown", dict(k=2, atexit=1), ["make-refused", "refused", "used", "freed", "kept", "end"], dict(k=3)),
])
prop("C42", "one event with a symbolic ASCII character in its texts, texts of up to 4206 characters, two events of every pair of kinds; sizes 0, 1, 4096, 2^63-1, 2^63, 2^64-1 and three pointers",
     "SQLite itself; more events per database; other texts, characters outside ASCII; errors of the database",
     [A_ENG, A_IO, "SQLite is modelled in the harness (sqlite.cpp): databases by file name, CREATE TABLE, INSERT of text or json(text), SELECT, by exec or prepared statements"], [
    run("text", "sqlite", dict(k=1, long=1), ["event", "allocate", "named_allocate", "deallocate", "end"], spec=SQL),
    run("pairs", "sqlite", dict(k=2, plain=1), ["event", "allocate", "named_allocate", "deallocate", "end"], dict(k=2), spec=SQL),
])

prop("C41", "a machine of 1..4 nodes with any subset present, with cpus and allowed; NumaPolicy for every 32-bit node; 2 allocations and one move of symbolic size up to 2^30 from each kind "
     "of allocator, failures of mbind, of the underlying allocator and of libnuma; one byte anywhere in the address space; HOST blocks of 1..10000 bytes",
     "real hardware; more than 64 nodes; device nodes (a policy's platform in a GPU build)",
     ["libnuma and mbind are modelled in the harness (numa.cpp): mbind binds whole pages, needs a page-aligned start and an existing node, and may fail", A_ENG, A_CAMP], [
    run("policy", "numa", dict(which=0), ["refused", "allocated", "probe-in", "failed", "end"], dict(k=3), spec=NUMA),
    run("move", "numa", dict(which=1), ["same", "offset", "moved", "move-failed", "end"], spec=NUMA),
    run("queries", "numa", dict(which=2), ["query", "query-failed", "location", "location-failed", "end"], spec=NUMA),
    run("host", "numa", dict(which=3), ["end"], spec=NUMA)])
