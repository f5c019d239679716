// QuickPool / DynamicPoolList: k symbolic operations (allocate, deallocate, release, coalesce) of symbolic sizes on a pool
// with symbolic minimum block sizes over an arbitrary upstream resource that may fail.
//   -DPOOL=QuickPool | DynamicPoolList
// cfg: k, layout, fail, heur (0 blocks_releasable 1 blocks_releasable_hwm 2 percent_releasable 3 percent_releasable_hwm 4 never
//      5 a user's heuristic that fires in explicit coalesce() calls only),
//      hparm, internal (operations as an allocator built on the pool makes them), align, groups, ops (bit mask: 1 alloc 2 dealloc 4 release 8 coalesce 16 huge alloc), maxsz, pre
#include "common.hpp"
#include POOL_HDR
using namespace vf;
using Pool = umpire::strategy::POOL;

#ifdef VERIF_POISON
// Memory poisoning as the address sanitizer does it, followed for one arbitrary byte.
static u64 probe;
static bool poisoned;
extern "C" void verif_poison(const volatile void* p, size_t n)
{
  if (probe - A((const void*)p) < n) poisoned = true;
}
extern "C" void verif_unpoison(const volatile void* p, size_t n)
{
  if (probe - A((const void*)p) < n) poisoned = false;
}
#endif

static u64 rup(u64 n, u64 a) { return (n + a - 1) & ~(a - 1); }

namespace {
struct World {
  Upstream up;
  Live lv;
  Pool* pool = nullptr;
  u64 alignment = 16, first = 0, next = 0;
  u64 groups = ~0ull;
  u64 alHwm = 0, acHwm = 0;
  bool coalesced = false;  // the pool itself may allocate
  u64 szset = 0, maxsz = 0, heur = 4, hp = 0, internal = 0;
  bool explicitCoalesce = false;
  int owner[Live::MAX];
  bool G(int g) { return (groups >> g) & 1; }

  u64 aligned()
  {
    u64 s = 0;
    for (int i = 0; i < lv.cnt; ++i)
      if (lv.live[i]) s += rup(lv.n[i], alignment);
    return s;
  }
  bool used(int b)
  {
    for (int i = 0; i < lv.cnt; ++i)
      if (lv.live[i] && owner[i] == b) return true;
    return false;
  }
  void stats()
  {
#ifdef VERIF_POISON
    int held = up.contains(probe, 1), inUse = 0;
    for (int i = 0; i < lv.cnt; ++i)
      if (lv.live[i]) inUse = inUse | inside(probe, 1, lv.p[i], lv.n[i]);
    if (inUse) {
      ASSERT(!poisoned, "every byte of a live block may be accessed");
      COVER("in-use");
    } else if (held) {
      ASSERT(poisoned, "bytes the pool holds outside live blocks may not be accessed");
      COVER("not-in-use");
    }
#endif
    if (!G(1)) return;
    u64 al = aligned(), ac = 0, rel = 0;
    u64 nb = 0, nrel = 0;
    for (int i = 0; i < up.n; ++i)
      if (up.b[i].live) {
        ac += up.b[i].n - alignment;
        ++nb;
        if (!used(i)) {
          rel += up.b[i].n - alignment;
          ++nrel;
        }
      }
    if (al > alHwm) alHwm = al;
    if (ac > acHwm) acHwm = ac;
    ASSERT(pool->getAlignedSize() == al, "aligned size equals the rounded sizes of the live blocks");
    ASSERT(pool->getActualSize() == ac, "actual size is what the pool holds from upstream");
    ASSERT(pool->getReleasableSize() == rel, "releasable size is the size of the chunks without a live block");
    ASSERT(pool->getReleasableBlocks() == nrel, "releasable blocks counts the chunks without a live block");
    ASSERT(pool->getTotalBlocks() == nb, "total blocks counts the chunks held");
    ASSERT(pool->getBlocksInPool() >= (u64)lv.nlive, "blocks in pool includes the live blocks");
    if (coalesced) {
      ASSERT(pool->getAlignedHighwaterMark() >= alHwm, "aligned high watermark is at least every aligned size seen");
      ASSERT(pool->getActualHighwaterMark() >= acHwm, "actual high watermark is at least every actual size seen");
      alHwm = pool->getAlignedHighwaterMark();
      acHwm = pool->getActualHighwaterMark();
    } else {
      ASSERT(pool->getAlignedHighwaterMark() == alHwm, "aligned high watermark is the largest aligned size");
      ASSERT(pool->getActualHighwaterMark() == acHwm, "actual high watermark is the largest actual size");
    }
    ASSERT(pool->getActualSize() >= pool->getAlignedSize(), "the pool holds at least what is live");
    ASSERT(up.getCurrentSize() == up.liveBytes(), "upstream's current size is what the pool holds from it");
    ASSERT(up.getAllocationCount() == (u64)up.live, "upstream's allocation count is the number of chunks held");
  }
  void alloc()
  {
    u64 sz = szset ? 16ull << sym_choice((unsigned)szset, "size_log") : sym_range(1, maxsz, "size");
    u64 largest = pool->getLargestAvailableBlock();
    u64 rb = rup(sz, alignment);
    bool empty = pool->getTotalBlocks() == 0;
    int na = up.nalloc, nf = up.nfailed;
    u64 rel0 = pool->getReleasableSize();
    void* q = nullptr;
    bool threw = false;
    try {
      q = internal ? pool->allocate_internal(sz) : pool->allocate(sz);
    } catch (umpire::out_of_memory_error&) {
      threw = true;
    }
    if (G(3)) {
      // a request that fits a free block is served from the pool, any other asks upstream once (twice after a failure)
      if (rb <= largest)
        ASSERT(up.nalloc == na, "a request that fits the largest available block is served without going upstream");
      else
        ASSERT(up.nalloc == na + 1 + (up.nfailed > nf), "a request that fits no free block asks upstream once, and once more after a failure");
      if (up.nalloc > na) {
        u64 mn = empty ? first : next;
        ASSERT(up.lastReq == (rb > mn ? rb : mn) + alignment, "a new chunk has the configured minimum size, or the request's size if larger");
      }
    }
    if (G(4)) {
      ASSERT(threw == (up.nfailed == nf + 2), "allocate fails exactly when upstream fails again after the pool gave up its free chunks");
      if (up.nfailed > nf) {
        bool idle = false;
        for (int i = 0; i < up.n; ++i)
          if (up.b[i].live && !used(i) && (threw || i != up.last)) idle = true;
        ASSERT(!idle, "after an upstream failure every chunk without a live block has been given back");
      }
    }
    if (!threw) {
      if (G(0)) lv.check(up, A(q), sz, alignment);
      int o = -1;
      for (int i = 0; i < up.n; ++i)
        if (up.b[i].live && o < 0)
          if (inside(A(q), sz, up.b[i].p, up.b[i].n)) o = i;
      owner[lv.cnt] = o;
      lv.add(A(q), sz);
      COVER("alloc");
      if (up.nalloc == na) COVER("alloc-reuse");
      if (up.nfailed > nf) COVER("alloc-retry");
    } else
      COVER("alloc-failed");
  }
  void huge()
  {
    u64 sz = sym_range((1ull << 41) + 1, ~0ull, "huge_size");
    bool threw = false;
    try {
      pool->allocate(sz);
    } catch (umpire::out_of_memory_error&) {
      threw = true;
    }
    ASSERT(threw, "a request larger than anything upstream can provide fails");
    COVER("huge");
  }
  void dealloc(int i)
  {
    lv.del(i);
    int na = up.nalloc, nf = up.nfailed, nfr = up.nfree;
    u64 ac = 0, rel = 0, nrel = 0;
    for (int j = 0; j < up.n; ++j)
      if (up.b[j].live) {
        ac += up.b[j].n - alignment;
        if (!used(j)) {
          rel += up.b[j].n - alignment;
          ++nrel;
        }
      }
    bool threw = false;
    try {
      if (internal)
        pool->deallocate_internal((void*)(uintptr_t)lv.p[i], lv.n[i]);
      else
        pool->deallocate((void*)(uintptr_t)lv.p[i], lv.n[i]);
    } catch (umpire::out_of_memory_error&) {
      threw = true;
    }
    ASSERT(!threw, "deallocate does not fail because upstream is out of memory");
    if (G(3)) {
      bool fire = heur <= 1 ? nrel >= hp : heur <= 3 ? 100 * rel >= hp * ac : false;
      if (!fire)
        ASSERT(up.nalloc == na && up.nfree == nfr, "deallocate goes upstream only when the coalescing heuristic says so");
      else
        ASSERT(pool->getReleasableBlocks() <= 1, "after the heuristic fires at most one chunk without a live block is left");
    }
    if (up.nalloc > na) {
      COVER("dealloc-coalesced");
      if (up.nfailed > nf) COVER("coalesce-failed");
    }
    COVER("dealloc");
  }
};
}  // namespace

// cfg making: a percentage heuristic can be made of exactly the percentages
static void percentages()
{
  const int kGood[5] = {0, 1, 50, 99, 100};
  const bool good = sym_choice(2, "a_percentage");
  const int p = good ? kGood[sym_choice(5, "which")] : (int)sym_u64("percentage");
  if (!good) ASSUME(p < 0 || p > 100);
  const unsigned hwm = sym_choice(2, "hwm");
  umpire::strategy::PoolCoalesceHeuristic<Pool> h;
  bool threw = false;
  try {
    h = hwm ? Pool::percent_releasable_hwm(p) : Pool::percent_releasable(p);
  } catch (umpire::runtime_error&) {
    threw = true;
  }
  ASSERT(threw == !good, "exactly the percentages from 0 to 100 make a heuristic");
  if (threw)
    COVER("refused");
  else
    COVER("made");
  COVER("end");
}

extern "C" void harness_main()
{
  if (sym_config("making", 0)) return percentages();
  static World w;
  const u64 K = sym_config("k", 3);
  w.groups = sym_config("groups", ~0ull);
  w.up.layout = (int)sym_config("layout", 0);
  w.up.maxBytes = 1ull << 41;
  const u64 fail = sym_config("fail", 0);
  const u64 ops = sym_config("ops", 31);
  const u64 maxsz = w.maxsz = sym_config("maxsz", 1ull << 40);
  w.szset = sym_config("szset", 0);
  w.alignment = sym_config("align", 16);
  w.up.align = (unsigned)sym_config("upalign", 16);
  if (w.alignment > 16) w.up.origin = 16 * sym_choice((unsigned)(w.alignment / 16), "upstream_offset");
  w.first = sym_config("first", 0);
  w.next = sym_config("next", 0);
  if (!w.first) w.first = sym_range(1, maxsz >> 4, "first_size");
  if (!w.next) w.next = sym_range(1, maxsz >> 4, "next_size");
  const u64 hp = w.hp = sym_config("hparm", 2);
  w.heur = sym_config("heur", 4);
  w.internal = sym_config("internal", 0);
  umpire::strategy::PoolCoalesceHeuristic<Pool> h;
  w.coalesced = sym_config("heur", 4) != 4;
  switch (sym_config("heur", 4)) {
    case 0: h = Pool::blocks_releasable(hp); break;
    case 1: h = Pool::blocks_releasable_hwm(hp); break;
    case 2: h = Pool::percent_releasable((int)hp); break;
    case 3: h = Pool::percent_releasable_hwm((int)hp); break;
    case 5: h = [](const Pool& p) { return w.explicitCoalesce ? p.getActualSize() : (std::size_t)0; }; break;
    default: h = Pool::percent_releasable(0); break;
  }
#ifdef VERIF_POISON
  probe = sym_u64("probe");
#endif
  w.pool = new Pool("pool", 3, umpire::Allocator(&w.up), w.first, w.next, w.alignment, h);
  const u64 pre = sym_config("pre", 0);
  for (u64 i = 0; i < pre; ++i) {
    w.alloc();
    w.stats();
  }
  for (u64 k = 0; k < K; ++k) {
    w.up.mayFail = (int)fail;
    unsigned av[5], n = 0;
    if (ops & 1) av[n++] = 0;
    if (w.lv.nlive && (ops & 2)) av[n++] = 1;
    if (k && (ops & 4)) av[n++] = 2;
    if (k && (ops & 8)) av[n++] = 3;
    if (ops & 16) av[n++] = 4;
    switch (av[sym_choice(n, "op")]) {
      case 0: w.alloc(); break;
      case 1: {
        unsigned c = sym_choice(w.lv.nlive, "victim");
        int i = 0;
        for (;; ++i)
          if (w.lv.live[i] && c-- == 0) break;
        w.dealloc(i);
        break;
      }
      case 2: {
        w.pool->release();
        if (w.G(2)) {
          int idle = 0;
          for (int i = 0; i < w.up.n; ++i)
            if (w.up.b[i].live && !w.used(i)) ++idle;
          ASSERT(idle == 0, "release gives back every chunk without a live block");
          ASSERT(w.pool->getReleasableSize() == 0, "nothing is releasable after release");
        }
        COVER("release");
        break;
      }
      case 3: {
        int na = w.up.nalloc;
        w.explicitCoalesce = true;
        w.pool->coalesce();
        w.explicitCoalesce = false;
        if (w.up.nalloc > na) COVER("coalesced");
        if (w.G(3) && w.heur == 5) ASSERT(w.pool->getReleasableBlocks() <= 1, "coalesce leaves at most one chunk without a live block");
        if (w.G(3) && w.heur == 4) ASSERT(w.up.nalloc == na, "coalesce does nothing when the heuristic says so");
        COVER("coalesce");
        break;
      }
      case 4: w.huge(); break;
    }
    if (w.G(0)) w.lv.checkBacked(w.up);
    w.stats();
  }
  w.up.mayFail = 0;
  // a pool may be destroyed while blocks are live: what it gives back must be right all the same
  const bool idle = !w.G(2) || !w.lv.nlive || sym_choice(2, "idle_at_end") == 0;
  for (int i = 0; i < w.lv.cnt && idle; ++i)
    if (w.lv.live[i]) w.dealloc(i);
  w.stats();
  if (w.G(1) && idle) ASSERT(w.pool->getReleasableSize() == w.pool->getActualSize(), "when nothing is live everything is releasable");
  delete w.pool;
  if (w.G(2) && idle) ASSERT(w.up.live == 0, "destroying the pool returns all upstream memory");
  COVER("end");
}
