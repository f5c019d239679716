// FixedPool, MixedPool, SlotPool and FixedSizePool under k symbolic operations.
// cfg: which (0 FixedPool 1 MixedPool 2 SlotPool 3 FixedSizePool 4 making pools while upstream fails), k, layout, fail, pre (allocations made beforehand), npp, obj, slots,
//      groups (bit 1 statistics, bit 2 return upstream, bit 4 failure handling)
#include "common.hpp"
#include "umpire/alloc/MallocAllocator.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/FixedSizePool.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/MixedPool.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SlotPool.hpp"
using namespace vf;
using umpire::strategy::AllocationStrategy;
using umpire::strategy::FixedPool;
using umpire::strategy::MixedPool;
using umpire::strategy::SlotPool;

namespace {
u64 groups;
bool G(int g) { return (groups >> g) & 1; }
Upstream* up;
Live* lv;
int owner[Live::MAX];
int ownerOf(u64 a, u64 n)
{
  for (int i = 0; i < up->n; ++i)
    if (up->b[i].live)
      if (inside(a, n, up->b[i].p, up->b[i].n)) return i;
  return -1;
}
bool used(int b)
{
  for (int i = 0; i < lv->cnt; ++i)
    if (lv->live[i] && owner[i] == b) return true;
  return false;
}
int pickLive(const char* nm)
{
  unsigned c = sym_choice((unsigned)lv->nlive, nm);
  for (int i = 0;; ++i)
    if (lv->live[i] && c-- == 0) return i;
}

void fixedPool()
{
  const u64 K = sym_config("k", 4), pre = sym_config("pre", 0), fail = sym_config("fail", 0);
  const u64 objs[] = {1, 8, 24, 4096};
  u64 obj = sym_config("obj", 0);
  if (!obj) obj = objs[sym_choice(4, "obj_bytes")];
  u64 npp = sym_config("npp", 0);
  if (!npp) npp = 1 + sym_choice(3, "objects_per_pool");
  up->maxBytes = 1ull << 41;
  auto* p = new FixedPool("fp", 3, umpire::Allocator(up), obj, npp);
  ASSERT(p->numPools() == 1 && up->live == 1, "a new fixed pool holds one sub-pool");
  ASSERT(up->b[0].n >= obj * npp, "a sub-pool has room for the configured number of objects");
  const u64 per = p->getActualSize();
  u64 hwm = 0;
  auto alloc = [&](bool mayfail) {
    bool room = false;
    // is there a free object in a sub-pool?
    u64 cap = (u64)up->live * npp;
    room = cap > (u64)lv->nlive;
    int na = up->nalloc, nf = up->nfailed;
    void* q = nullptr;
    bool threw = false;
    up->mayFail = mayfail ? 1 : 0;
    try {
      q = ((AllocationStrategy*)p)->allocate(obj);
    } catch (umpire::out_of_memory_error&) {
      threw = true;
    }
    up->mayFail = 0;
    if (G(4)) ASSERT(threw == (up->nfailed > nf), "allocate fails exactly when upstream cannot provide a sub-pool");
    if (G(3)) ASSERT((up->nalloc == na) == room, "a fixed pool asks upstream for a sub-pool exactly when every object is in use");
    if (threw) {
      COVER("alloc-failed");
      return;
    }
    if (G(0)) lv->check(*up, A(q), obj, 0);
    owner[lv->cnt] = ownerOf(A(q), obj);
    lv->add(A(q), obj);
    COVER("alloc");
  };
  auto stats = [&] {
    u64 cur = (u64)lv->nlive * obj;
    if (cur > hwm) hwm = cur;
    if (!G(1)) return;
    ASSERT(p->getCurrentSize() == cur, "current size is the size of the live objects");
    ASSERT(p->getHighWatermark() == hwm, "high watermark is the largest current size");
    ASSERT(p->numPools() == (u64)up->live, "numPools counts the sub-pools held from upstream");
    ASSERT(p->getActualSize() == per * (u64)up->live, "actual size counts the sub-pools held from upstream");
  };
  for (u64 i = 0; i < pre; ++i) alloc(false);
  stats();
  for (u64 k = 0; k < K; ++k) {
    unsigned av[4], n = 0;
    av[n++] = 0;
    if (lv->nlive) av[n++] = 1;
    av[n++] = 2;
    if (k == K - 1) av[n++] = 3;
    switch (av[sym_choice(n, "op")]) {
      case 0: alloc(fail); break;
      case 1: {
        int i = pickLive("victim");
        lv->del(i);
        ((AllocationStrategy*)p)->deallocate((void*)(uintptr_t)lv->p[i], obj);
        COVER("dealloc");
        break;
      }
      case 2: {
        p->release();
        if (G(2))
          for (int i = 0; i < up->n; ++i) ASSERT(up->b[i].live == used(i), "release gives back exactly the sub-pools without a live object");
        COVER("release");
        break;
      }
      case 3: {
        u64 a = sym_u64("probe");
        ASSERT(p->pointerIsFromPool((void*)(uintptr_t)a) == (up->contains(a, 1) != 0), "pointerIsFromPool is true exactly for addresses inside the pool");
        COVER("probe");
        break;
      }
    }
    if (G(0)) lv->checkBacked(*up);
    stats();
  }
  // a pool may be destroyed while blocks are live: what it gives back must be right all the same
  const bool idle = !G(2) || !lv->nlive || sym_choice(2, "idle_at_end") == 0;
  if (!idle) COVER("busy-end");
  for (int i = 0; i < lv->cnt && idle; ++i)
    if (lv->live[i]) {
      lv->del(i);
      ((AllocationStrategy*)p)->deallocate((void*)(uintptr_t)lv->p[i], obj);
    }
  stats();
  delete p;
  if (G(2) && idle) ASSERT(up->live == 0, "destroying an idle pool returns all upstream memory");
  COVER("end");
}

void mixedPool()
{
  const u64 K = sym_config("k", 3), fail = sym_config("fail", 0);
  u64 smallest = sym_config("smallest", 16), largest = sym_config("largest", 256), maxinit = sym_config("maxinit", 256),
      mult = sym_config("mult", 4);
  auto* p = new MixedPool("mp", 3, umpire::Allocator(up), smallest, largest, maxinit, mult, 1024, 512, 16,
                          umpire::strategy::QuickPool::percent_releasable((int)sym_config("hparm", 0)));
  if (G(1)) {
    u64 held = 0;
    for (int i = 0; i < up->n; ++i) held += up->b[i].n;
    ASSERT(p->getActualSize() >= held, "a new pool's actual size covers what it obtained");
  }
  const u64 pre = sym_config("pre", 0), szset = sym_config("szset", 0);
  for (u64 k = 0; k < K + pre; ++k) {
    unsigned n = 1;
    if (lv->nlive && k >= pre) n = 2;
    if (sym_choice(n, "op") == 0) {
      u64 sz = k < pre ? 64 : szset ? (sym_choice(2, "large") ? 600 : 64) : sym_range(1, sym_config("maxsz", 1ull << 30), "size");
      void* q = nullptr;
      bool threw = false;
      int nf = up->nfailed;
      const int na = up->nalloc;
      const u64 before = p->getActualSize();
      up->mayFail = (int)fail;
      try {
        q = ((AllocationStrategy*)p)->allocate(sz);
      } catch (umpire::out_of_memory_error&) {
        threw = true;
      }
      up->mayFail = 0;
      if (G(4) && threw) ASSERT(up->nfailed > nf, "allocate fails only when upstream fails");
      if (threw) {
        COVER("alloc-failed");
        continue;
      }
      if (G(1) && up->nfailed == nf) {
        const u64 grown = p->getActualSize() - before;
        if (up->nalloc == na)
          ASSERT(grown == 0, "the actual size changes only with the memory held from upstream");
        else if (sz > largest)
          ASSERT((grown >= sz) & (grown <= up->lastReq), "the actual size grows by what is obtained from upstream");
        else
          ASSERT((grown >= sz) & (grown + 64 >= up->lastReq), "the actual size grows by what is obtained from upstream");
      }
      if (G(0)) lv->check(*up, A(q), sz, 0);
      owner[lv->cnt] = ownerOf(A(q), sz);
      lv->add(A(q), sz);
      if (sz <= smallest)
        COVER("small");
      else if (sz > largest)
        COVER("large");
    } else {
      int i = pickLive("victim");
      lv->del(i);
      ((AllocationStrategy*)p)->deallocate((void*)(uintptr_t)lv->p[i], lv->n[i]);
      COVER("dealloc");
    }
    if (G(0)) lv->checkBacked(*up);
    if (G(1)) ASSERT(p->getActualSize() >= lv->sum(), "actual size covers the live blocks");
  }
  // a pool may be destroyed while blocks are live: what it gives back must be right all the same
  const bool idle = !G(2) || !lv->nlive || sym_choice(2, "idle_at_end") == 0;
  if (!idle) COVER("busy-end");
  for (int i = 0; i < lv->cnt && idle; ++i)
    if (lv->live[i]) {
      lv->del(i);
      ((AllocationStrategy*)p)->deallocate((void*)(uintptr_t)lv->p[i], lv->n[i]);
    }
  delete p;
  if (G(2) && idle) ASSERT(up->live == 0, "destroying an idle pool returns all upstream memory");
  COVER("end");
}

void slotPool()
{
  const u64 K = sym_config("k", 4), fail = sym_config("fail", 0);
  const u64 slots = sym_config("slots", 2);
  auto* p = new SlotPool("sp", 3, umpire::Allocator(up), slots);
  // sizes of the blocks the pool holds, in slot order
  struct {
    u64 n;
    bool busy;
  } s[8];
  int ns = 0;
  int slotOf[Live::MAX];
  for (u64 k = 0; k < K; ++k) {
    unsigned n = 1;
    if (lv->nlive) n = 2;
    if (sym_choice(n, "op") == 0) {
      u64 sz = sym_range(1, ~0ull, "size");
      if (sz > up->maxBytes) {
        // cannot be served: fails and changes nothing
        if (sz < (1ull << 63)) continue;
        bool threw = false;
        int na = up->nalloc;
        try {
          ((AllocationStrategy*)p)->allocate(sz);
        } catch (umpire::runtime_error&) {
          threw = true;
        }
        ASSERT(threw && up->nalloc == na, "a request of 2^63 bytes or more is refused");
        COVER("huge");
        continue;
      }
      int want = -1;
      for (int i = 0; i < ns && want < 0; ++i)
        if (!s[i].busy)
          if (s[i].n == sz) want = i;
      int na = up->nalloc, nf = up->nfailed;
      void* q = nullptr;
      bool threw = false;
      up->mayFail = (int)fail;
      try {
        q = ((AllocationStrategy*)p)->allocate(sz);
      } catch (umpire::out_of_memory_error&) {
        threw = true;
      }
      up->mayFail = 0;
      if (G(4)) ASSERT(threw == (up->nfailed > nf), "allocate fails only when upstream fails");
      if (threw) {
        COVER("alloc-failed");
        continue;
      }
      if (want >= 0) {
        if (G(3)) ASSERT(up->nalloc == na, "a free block of the same size is reused");
        COVER("reuse");
      } else if ((u64)ns < slots) {
        if (G(3) || G(4)) ASSERT(up->nalloc == na + 1, "without a free block of the same size an empty slot is filled from upstream");
        want = ns++;
        s[want].n = sz;
      } else {
        ASSERT(q == nullptr && up->nalloc == na, "when every slot is occupied by another block, allocate returns null");
        COVER("full");
        continue;
      }
      ASSERT(up->lastReq == sz || up->nalloc == na, "upstream is asked for exactly the requested size");
      s[want].busy = true;
      if (G(0)) lv->check(*up, A(q), sz, 0);
      owner[lv->cnt] = ownerOf(A(q), sz);
      slotOf[lv->cnt] = want;
      lv->add(A(q), sz);
      COVER("alloc");
    } else {
      int i = pickLive("victim");
      lv->del(i);
      s[slotOf[i]].busy = false;
      ((AllocationStrategy*)p)->deallocate((void*)(uintptr_t)lv->p[i], lv->n[i]);
      COVER("dealloc");
    }
    if (G(0)) lv->checkBacked(*up);
  }
  // a pool may be destroyed while blocks are live: what it gives back must be right all the same
  const bool idle = !G(2) || !lv->nlive || sym_choice(2, "idle_at_end") == 0;
  if (!idle) COVER("busy-end");
  for (int i = 0; i < lv->cnt && idle; ++i)
    if (lv->live[i]) {
      lv->del(i);
      ((AllocationStrategy*)p)->deallocate((void*)(uintptr_t)lv->p[i], lv->n[i]);
    }
  delete p;
  if (G(2) && idle) ASSERT(up->live == 0, "destroying an idle pool returns all upstream memory");
  COVER("end");
}

struct Obj {
  u64 a[3];
};
struct CountMA {
  static int live;
  static void* allocate(std::size_t n)
  {
    ++live;
    return malloc(n);
  }
  static void deallocate(void* p)
  {
    --live;
    free(p);
  }
};
int CountMA::live = 0;
void fixedSizePool()
{
  typedef FixedSizePool<Obj, CountMA, CountMA, 1> P;
  const u64 K = sym_config("k", 4);
  auto* p = new P;
  Obj* o[80];
  bool lvv[80];
  int n = 0, nl = 0;
  auto alloc = [&] {
    Obj* q = p->allocate();
    for (int i = 0; i < n; ++i)
      if (lvv[i]) ASSERT(disjoint(A(q), sizeof(Obj), A(o[i]), sizeof(Obj)), "a new object overlaps no live object");
    q->a[0] = q->a[1] = q->a[2] = A(q);  // inside memory the pool owns (checked by the engine's memory model)
    o[n] = q;
    lvv[n++] = true;
    ++nl;
    ASSERT(p->getCurrentSize() == nl * sizeof(Obj), "current size is the size of the live objects");
  };
  auto dealloc = [&](int i) {
    ASSERT(o[i]->a[0] == A(o[i]) && o[i]->a[2] == A(o[i]), "a live object keeps its contents");
    lvv[i] = false;
    --nl;
    p->deallocate(o[i]);
    ASSERT(p->getCurrentSize() == nl * sizeof(Obj), "current size is the size of the live objects");
  };
  const u64 pre[] = {0, 31, 32, 63};
  u64 m = pre[sym_choice(4, "prefill")];
  for (u64 i = 0; i < m; ++i) alloc();
  for (u64 k = 0; k < K; ++k) {
    if (nl == 0 || sym_choice(2, "op") == 0) {
      alloc();
      COVER("alloc");
      if (p->numPools() > 1) COVER("two-pools");
    } else {
      unsigned c = sym_choice(nl < 4 ? nl : 4, "victim");  // first, last, and two around the word boundary
      int pos = c == 0 ? 0 : c == 1 ? nl - 1 : c == 2 ? nl / 2 : nl - 2;
      int i = 0;
      for (;; ++i)
        if (lvv[i] && pos-- == 0) break;
      dealloc(i);
      COVER("dealloc");
    }
  }
  for (int i = 0; i < n; ++i)
    if (lvv[i]) dealloc(i);
  delete p;
  ASSERT(CountMA::live == 0, "destroying the pool frees everything it allocated");
  COVER("end");
}

void making()
{
  up->mayFail = (int)sym_config("fail", 1);
  up->layout = 1;
  umpire::strategy::AllocationStrategy* p = nullptr;
  bool threw = false, over = false;
  umpire::Allocator a(up);
  try {
    switch (sym_choice(6, "kind")) {
      case 0: {
        // objects of any size
        const u64 per[3] = {1, 5, 2048};
        const u64 npp = per[sym_choice(3, "per_pool")], obj = sym_range(1, ~0ull, "obj_bytes");
        over = obj > ~0ull / npp;
        p = new FixedPool("p", 3, a, obj, npp);
        ASSERT(!over && up->b[0].n >= obj * npp, "a sub-pool has room for the configured number of objects");
        break;
      }
      case 1: {
        const u64 sm[3] = {16, 0, 1ull << 33}, la[3] = {256, 16, ~0ull}, in[2] = {1024, 1ull << 36}, mu[4] = {4, 0, 1, 1ull << 33};
        const u64 s = sm[sym_choice(3, "smallest")], l = la[sym_choice(3, "largest")], m = in[sym_choice(2, "initial")], f = mu[sym_choice(4, "multiplier")];
        p = new MixedPool("p", 3, a, s, l, m, f);
        break;
      }
      case 2: p = new SlotPool("p", 3, a, 3); break;
      case 3: p = new umpire::strategy::MonotonicAllocationStrategy("p", 3, a, 1000); break;
      case 4: p = new umpire::strategy::QuickPool("p", 3, a, 64, 64); break;
      default: p = new umpire::strategy::DynamicPoolList("p", 3, a, 64, 64); break;
    }
  } catch (umpire::out_of_memory_error&) {
    threw = true;
  }
  ASSERT(threw == ((up->nfailed > 0) | over), "making a pool fails exactly when the memory it needs cannot be obtained, with upstream's error");
  COVER(threw ? "not-made" : "made");
  if (threw) ASSERT(up->live == 0, "a pool that could not be made keeps no memory");
  delete p;
  ASSERT(up->live == 0, "destroying an idle pool returns all upstream memory");
  COVER("end");
}
}  // namespace

extern "C" void harness_main()
{
  up = new Upstream;
  lv = new Live;
  groups = sym_config("groups", ~0ull);
  up->layout = (int)sym_config("layout", 0);
  up->maxBytes = 1ull << 41;
  switch (sym_config("which", 0)) {
    case 0: fixedPool(); break;
    case 1: mixedPool(); break;
    case 2: slotPool(); break;
    case 3: fixedSizePool(); break;
    case 4: making(); break;
  }
}
