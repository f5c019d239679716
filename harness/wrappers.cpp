// Strategies that wrap one upstream allocator: AlignedAllocator, SizeLimiter, MonotonicAllocationStrategy,
// NamedAllocationStrategy, NamingShim, ThreadSafeAllocator.
// cfg: which, k, fail, layout
#include "common.hpp"
#include "umpire/strategy/AlignedAllocator.hpp"
#include "umpire/strategy/MonotonicAllocationStrategy.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/NamingShim.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
using namespace vf;
using namespace umpire::strategy;

namespace {
Upstream* up;
Live* lv;
int pickLive(const char* nm)
{
  unsigned c = sym_choice((unsigned)lv->nlive, nm);
  for (int i = 0;; ++i)
    if (lv->live[i] && c-- == 0) return i;
}
// the accounting of the wrapped allocator reflects what it has really handed out
u64 upHwm = 0;
void upstreamAccounts()
{
  ASSERT(up->getCurrentSize() == up->liveBytes(), "the wrapped allocator's current size is what is held from it");
  ASSERT(up->getAllocationCount() == (u64)up->live, "the wrapped allocator's allocation count is what is held from it");
  if (up->liveBytes() > upHwm) upHwm = up->liveBytes();
  ASSERT(up->getHighWatermark() == upHwm, "the wrapped allocator's high watermark is the most ever held from it");
}
struct Res {
  void* p;
  bool oom, err;
};
Res tryAlloc(AllocationStrategy* s, u64 n, u64 fail)
{
  Res r{nullptr, false, false};
  up->mayFail = (int)fail;
  try {
    r.p = s->allocate(n);
  } catch (umpire::out_of_memory_error&) {
    r.oom = r.err = true;
  } catch (umpire::runtime_error&) {
    r.err = true;
  }
  up->mayFail = 0;
  return r;
}

// memory that can really be written, at an arbitrary offset from alignment boundaries
class RealUpstream : public Upstream {
 public:
  char* buf[8];
  int nb = 0;
  void* allocate(std::size_t bytes) override
  {
    ++nalloc;
    lastReq = bytes;
    if (bytes > 4096 || (mayFail && sym_choice(2, "upstream_fails"))) {
      ++nfailed;
      throw umpire::out_of_memory_error("upstream", "verif", 1);
    }
    char* m = (char*)aligned_alloc(4096, 12288);
    u64 step = sym_config("offstep", 8);
    u64 off = step * sym_choice((unsigned)(sym_config("maxoff", 256) / step), "upstream_offset");
    b[n].p = A(m) + off;
    b[n].n = bytes;
    b[n].live = true;
    ++live;
    return m + b[n++].p - A(m);
  }
};

void aligned()
{
  delete up;
  auto* ru = new RealUpstream;
  up = ru;
  const u64 K = sym_config("k", 3), fail = sym_config("fail", 1);
  u64 al = 16ull << sym_choice((unsigned)sym_config("nalign", 4), "alignment_log");
  auto* p = new AlignedAllocator("al", 3, umpire::Allocator(up), al);
  for (u64 k = 0; k < K; ++k) {
    unsigned n = lv->nlive ? 2 : 1;
    if (sym_choice(n, "op") == 0) {
      u64 sz = sym_range(1, ~0ull, "size");
      Res r = tryAlloc(p, sz, fail);
      if (r.err) {
        ASSERT(r.oom, "running out of memory is reported as out_of_memory_error");
        ASSERT(sz + al + 8 > 4096 || sz > 4096 || up->nfailed > 0, "allocate fails only when upstream does");
        COVER("alloc-failed");
        if (sz > (1ull << 63)) COVER("huge");
      } else {
        lv->check(*up, A(r.p), sz, al);
        lv->add(A(r.p), sz);
        COVER("alloc");
      }
    } else {
      int i = pickLive("victim");
      lv->del(i);
      int nf = up->nfree;
      ((AllocationStrategy*)p)->deallocate((void*)(uintptr_t)lv->p[i], lv->n[i]);
      ASSERT(up->nfree == nf + 1, "deallocate returns the block upstream");
      COVER("dealloc");
    }
    lv->checkBacked(*up);
    upstreamAccounts();
  }
  for (int i = 0; i < lv->cnt; ++i)
    if (lv->live[i]) ((AllocationStrategy*)p)->deallocate((void*)(uintptr_t)lv->p[i], lv->n[i]);
  ASSERT(up->live == 0, "after the last deallocate nothing is held from upstream");
  upstreamAccounts();
  COVER("end");
}

void alignedCtor()
{
  u64 al = sym_u64("alignment");
  bool threw = false;
  try {
    AlignedAllocator a("al", 3, umpire::Allocator(up), al);
  } catch (umpire::runtime_error&) {
    threw = true;
  }
  int pow2 = al >= 16 && (al & (al - 1)) == 0;
  ASSERT(threw == !pow2, "only powers of two of at least 16 are accepted as alignment");
  if (threw)
    COVER("rejected");
  else
    COVER("accepted");
  COVER("end");
}

void limiter()
{
  const u64 K = sym_config("k", 4), fail = sym_config("fail", 1);
  u64 lim = sym_u64("limit");
  auto* p = new SizeLimiter("sl", 3, umpire::Allocator(up), lim);
  for (u64 k = 0; k < K; ++k) {
    unsigned n = lv->nlive ? 2 : 1;
    if (sym_choice(n, "op") == 0) {
      u64 sz = sym_range(1, ~0ull, "size");
      u64 tot = lv->sum();
      int nf = up->nfailed, na = up->nalloc;
      Res r = tryAlloc(p, sz, fail);
      int fits = (tot <= lim) & (sz <= lim - tot);
      if (r.err) {
        ASSERT(r.oom, "exceeding the limit is reported as out_of_memory_error");
        if (up->nfailed == nf) {
          ASSERT(!fits, "an allocation within the limit is not refused");
          ASSERT(up->nalloc == na, "a refused request does not reach upstream");
          COVER("refused");
        } else
          COVER("alloc-failed");
      } else {
        ASSERT(fits, "an allocation that would exceed the limit is refused");
        lv->check(*up, A(r.p), sz, 0);
        lv->add(A(r.p), sz);
        COVER("alloc");
      }
    } else {
      int i = pickLive("victim");
      lv->del(i);
      ((AllocationStrategy*)p)->deallocate((void*)(uintptr_t)lv->p[i], lv->n[i]);
      COVER("dealloc");
    }
    ASSERT(up->liveBytes() <= lim, "the live bytes never exceed the limit");
    ASSERT(up->liveBytes() == lv->sum(), "exactly the live blocks are held from upstream");
    lv->checkBacked(*up);
    upstreamAccounts();
  }
  COVER("end");
}

void monotonic()
{
  const u64 K = sym_config("k", 4);
  u64 cap = sym_range(1, 1ull << 40, "capacity");
  auto* p = new MonotonicAllocationStrategy("mo", 3, umpire::Allocator(up), cap);
  ASSERT(up->live == 1 && up->b[0].n == cap, "the capacity is obtained from upstream once");
  u64 tot = 0;
  for (u64 k = 0; k < K; ++k) {
    unsigned n = lv->nlive ? 2 : 1;
    if (sym_choice(n, "op") == 0) {
      u64 sz = sym_range(1, ~0ull, "size");
      Res r = tryAlloc(p, sz, 0);
      int fits = sz <= cap - tot;
      if (r.err) {
        ASSERT(!fits, "an allocation that fits the remaining capacity succeeds");
        COVER("refused");
      } else {
        ASSERT(fits, "an allocation that does not fit the remaining capacity is refused");
        lv->check(*up, A(r.p), sz, 0);
        lv->add(A(r.p), sz);
        tot += sz;
        COVER("alloc");
      }
    } else {
      int i = pickLive("victim");
      // the block stays reserved: blocks handed out later must not overlap it either
      ((AllocationStrategy*)p)->deallocate((void*)(uintptr_t)lv->p[i], lv->n[i]);
      COVER("dealloc");
    }
    ASSERT(up->nalloc == 1, "upstream is asked only once");
    ASSERT(((AllocationStrategy*)p)->getCurrentSize() == tot, "current size is the size handed out so far");
    ASSERT(((AllocationStrategy*)p)->getHighWatermark() == cap, "high watermark is the capacity");
    lv->checkBacked(*up);
    upstreamAccounts();
  }
  delete p;
  ASSERT(up->live == 0, "destroying the allocator returns its memory upstream");
  COVER("end");
}

void passThrough()
{
  const u64 K = sym_config("k", 4), fail = sym_config("fail", 1);
  AllocationStrategy* p = nullptr;
  switch (sym_choice(3, "strategy")) {
    case 0: p = new NamedAllocationStrategy("p", 3, umpire::Allocator(up)); break;
    case 1: p = new NamingShim("p", 3, umpire::Allocator(up)); break;
    case 2: p = new ThreadSafeAllocator("p", 3, umpire::Allocator(up)); break;
  }
  ASSERT(p->getPlatform() == up->getPlatform(), "a wrapper has the platform of what it wraps");
  for (u64 k = 0; k < K; ++k) {
    unsigned n = lv->nlive ? 2 : 1;
    if (sym_choice(n, "op") == 0) {
      u64 sz = sym_range(1, ~0ull, "size");
      int nf = up->nfailed;
      Res r = tryAlloc(p, sz, fail);
      ASSERT(r.err == (up->nfailed > nf), "allocate fails exactly when upstream does");
      if (!r.err) {
        ASSERT(up->lastReq == sz, "upstream is asked for the requested size");
        lv->check(*up, A(r.p), sz, 0);
        lv->add(A(r.p), sz);
        COVER("alloc");
      } else
        COVER("alloc-failed");
    } else {
      int i = pickLive("victim");
      lv->del(i);
      p->deallocate((void*)(uintptr_t)lv->p[i], lv->n[i]);
      COVER("dealloc");
    }
    ASSERT(up->live == lv->nlive, "one upstream block per live block");
    lv->checkBacked(*up);
    upstreamAccounts();
  }
  COVER("end");
}
}  // namespace

extern "C" void harness_main()
{
  up = new Upstream;
  lv = new Live;
  up->layout = (int)sym_config("layout", 0);
  up->maxBytes = 1ull << 41;
  switch (sym_config("which", 0)) {
    case 0: aligned(); break;
    case 1: alignedCtor(); break;
    case 2: limiter(); break;
    case 3: monotonic(); break;
    case 4: passThrough(); break;
  }
}
