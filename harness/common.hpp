#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "../rt/verif.h"
#include "umpire/Allocator.hpp"
#include "umpire/config.hpp"
#include "umpire/strategy/AllocationStrategy.hpp"
#include "umpire/util/error.hpp"

namespace vf {
typedef uint64_t u64;
static inline u64 A(const void* p) { return (u64)(uintptr_t)p; }
// [p,p+n) inside [q,q+m), no wrap-around
static inline int inside(u64 p, u64 n, u64 q, u64 m) { return (p >= q) & (n <= m) & (p - q <= m - n); }
// [p,p+n) and [q,q+m) share no byte (both non-wrapping)
static inline int disjoint(u64 p, u64 n, u64 q, u64 m)
{
  return ((q >= p) & (q - p >= n)) | ((p >= q) & (p - q >= m));
}

// Upstream memory resource: returns an arbitrary address (any 16-aligned, non-overlapping with what is live)
// or fails, and checks that everything handed back was obtained from it and is handed back once.
class Upstream : public umpire::strategy::AllocationStrategy {
 public:
  enum { MAX = 24 };
  struct Blk {
    u64 p, n;
    bool live;
  } b[MAX];
  int n = 0;
  int live = 0;
  unsigned align = 16;
  int mayFail = 0;  // remaining number of nondeterministic failures allowed
  bool failNow = false;  // every request fails
  bool checkSize = true;
  int layout = 0;  // 0: arbitrary symbolic addresses; 1: far apart; 2: far apart or adjacent; 3: far apart, returned addresses are handed out again
  u64 maxBytes = 1ull << 46;
  u64 origin = 0;  // added to the addresses of layouts 1 and 2
  int nalloc = 0, nfree = 0, nfailed = 0, last = -1;
  u64 lastReq = 0;

  Upstream(const char* name = "UPSTREAM", int id = 77)
      : umpire::strategy::AllocationStrategy(name, id, nullptr, "VerifUpstream")
  {
  }
  void* allocate(std::size_t bytes) override
  {
    ++nalloc;
    lastReq = bytes;
    bool fail = failNow;
    if (!fail && bytes > maxBytes) fail = true;
    if (!fail && mayFail > 0) {
      if (sym_choice(2, "upstream_fails")) {
        --mayFail;
        fail = true;
      }
    }
    if (fail) {
      ++nfailed;
      throw umpire::out_of_memory_error("upstream", "verif", 1);
    }
    u64 a;
    if (layout) {
      // far above everything, or flush against the block obtained before it (which may have been returned since)
      a = origin + ((u64)nalloc << 42);
      if (layout == 3) {
        u64 back[MAX];
        unsigned nb = 0;
        for (int i = 0; i < n; ++i)
          if (!b[i].live) {
            bool out = false;
            for (int j = 0; j < n; ++j) out = out || (b[j].live && b[j].p == b[i].p);
            for (unsigned j = 0; j < nb; ++j) out = out || back[j] == b[i].p;
            if (!out) back[nb++] = b[i].p;
          }
        const unsigned c = nb ? sym_choice(nb + 1, "upstream_again") : 0;
        if (c) a = back[c - 1];
      } else if (last >= 0 && layout > 1 && sym_choice(2, "upstream_adjacent"))
        a = (b[last].p + b[last].n + align - 1) & ~(u64)(align - 1);
    } else
      a = sym_u64("upstream_addr");
    if (!layout) {
      int ok = (a >= 0x10000) & (a <= (1ull << 47)) & ((a & (align - 1)) == 0);
      for (int i = 0; i < n; ++i)
        if (b[i].live) ok = ok & ((a + bytes <= b[i].p) | (b[i].p + b[i].n <= a));
      ASSUME(ok);
    }
    int s = 0;
    while (s < n && b[s].live) ++s;
    if (s == n) ++n;
    if (s >= MAX || nalloc > 4 * MAX) sym_fail("an operation asks upstream for memory a bounded number of times");
    b[s].p = a;
    b[s].n = bytes;
    b[s].live = true;
    last = s;
    ++live;
    return (void*)(uintptr_t)a;
  }
  void deallocate(void* ptr, std::size_t size) override
  {
    ++nfree;
    u64 a = A(ptr);
    for (int i = 0; i < n; ++i)
      if (b[i].live && sym_known(b[i].p == a)) {
        if (checkSize) ASSERT(size == b[i].n, "upstream memory is returned with the size it was obtained with");
        b[i].live = false;
        --live;
        return;
      }
    sym_fail("only memory obtained from upstream and not yet returned is given back upstream");
  }
  umpire::Platform getPlatform() noexcept override { return umpire::Platform::host; }
  umpire::MemoryResourceTraits getTraits() const noexcept override { return umpire::MemoryResourceTraits{}; }
  // is [p,p+n) inside one live upstream block?
  int contains(u64 p, u64 m)
  {
    int r = 0;
    for (int i = 0; i < n; ++i)
      if (b[i].live) r = r | inside(p, m, b[i].p, b[i].n);
    return r;
  }
  u64 liveBytes()
  {
    u64 t = 0;
    for (int i = 0; i < n; ++i)
      if (b[i].live) t += b[i].n;
    return t;
  }
};

// Blocks handed out to the user and still live
struct Live {
  enum { MAX = 80 };
  u64 p[MAX], n[MAX];
  bool live[MAX];
  int cnt = 0, nlive = 0;
  void check(Upstream& up, u64 a, u64 bytes, u64 alignment)
  {
    ASSERT(a != 0, "allocate never returns a null pointer for a non-zero request");
    ASSERT(up.contains(a, bytes), "every block lies inside live memory obtained from upstream");
    int d = 1;
    for (int i = 0; i < cnt; ++i)
      if (live[i]) d = d & disjoint(a, bytes, p[i], n[i]);
    ASSERT(d, "a new block overlaps no live block");
    if (alignment) ASSERT((a & (alignment - 1)) == 0, "every block satisfies the configured alignment");
  }
  int add(u64 a, u64 bytes)
  {
    p[cnt] = a;
    n[cnt] = bytes;
    live[cnt] = true;
    ++nlive;
    return cnt++;
  }
  void del(int i)
  {
    live[i] = false;
    --nlive;
  }
  // all live blocks still inside live upstream memory
  void checkBacked(Upstream& up)
  {
    int ok = 1;
    for (int i = 0; i < cnt; ++i)
      if (live[i]) ok = ok & up.contains(p[i], n[i]);
    ASSERT(ok, "memory under a live block is never given back upstream");
  }
  u64 sum()
  {
    u64 t = 0;
    for (int i = 0; i < cnt; ++i)
      if (live[i]) t += n[i];
    return t;
  }
};
}  // namespace vf
#endif
