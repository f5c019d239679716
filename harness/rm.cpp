// Allocator + ResourceManager through the public API.
// cfg: which (0 accounting and lookup, 1 copy/memset, 2 reallocate, 3 move, 4 names/ids/aliases, 5 untracked allocators, 6 untracked limiter, 7 untracked pass-through), k, groups
#include "common.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/SizeLimiter.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
using namespace vf;
using umpire::Allocator;
using umpire::ResourceManager;

namespace {
u64 groups;
bool G(int g) { return (groups >> g) & 1; }

struct Stub : Upstream {
  Stub(const std::string& n, int id) : Upstream(n.c_str(), id)
  {
    layout = 1;
    maxBytes = 1ull << 41;
  }
};

// ---- 0: accounting, lookup, ownership, zero-byte allocations
struct Rec {
  u64 p, n;
  int who;
  bool live, named;
};
Rec rec[16];
int nrec = 0, nlive = 0;
u64 cur[2], cnt[2], hwm[2];
Stub* st[2];

void checkAccounts(Allocator* al)
{
  for (int w = 0; w < 2; ++w) {
    if (G(0)) {
      ASSERT(al[w].getCurrentSize() == cur[w], "current size is the sum of the live allocations' sizes");
      ASSERT(al[w].getAllocationCount() == cnt[w], "allocation count is the number of live allocations");
      ASSERT(al[w].getHighWatermark() == hwm[w], "high watermark is the largest current size so far");
      ASSERT(al[w].getActualSize() == cur[w], "actual size of a plain allocator is its current size");
    }
  }
}
void lookup(ResourceManager& rm, Allocator* al)
{
  // an arbitrary address near a live allocation, or anywhere
  u64 a;
  if (nrec) {
    unsigned c = sym_choice((unsigned)nrec, "near");
    u64 off = sym_u64("offset");
    ASSUME(off <= (1ull << 41) || off >= ~0ull - (1ull << 40));
    if (rec[c].n == 0) {
      ASSUME(off == 0);  // the 1-byte placeholders of other zero-byte allocations lie next to this one
      off = 0;
    }
    a = rec[c].p + off;
  } else {
    a = sym_choice(2, "near") ? 0x1000 : 0x7000000000ull;
  }
  int want = -1;
  for (int i = 0; i < nrec; ++i)
    if (rec[i].live && want < 0) {
      if (inside(a, 1, rec[i].p, rec[i].n) | (a == rec[i].p)) want = i;
    }
  void* p = (void*)(uintptr_t)a;
  ASSERT(rm.hasAllocator(p) == (want >= 0), "hasAllocator is true exactly for addresses inside live allocations");
  bool threw = false;
  u64 sz = 0;
  int id = -1;
  void* base = nullptr;
  try {
    sz = rm.getSize(p);
    id = rm.getAllocator(p).getId();
    base = rm.findAllocationRecord(p)->ptr;
  } catch (umpire::unknown_pointer_error&) {
    threw = true;
  }
  ASSERT(threw == (want < 0), "looking up an address outside every live allocation fails, any other succeeds");
  if (want >= 0) {
    ASSERT(sz == rec[want].n, "getSize returns the size of the allocation containing the address");
    ASSERT(id == al[rec[want].who].getId(), "getAllocator returns the allocator of the allocation containing the address");
    ASSERT(rm.findAllocationRecord(p)->name == (rec[want].named ? "name" : ""), "the record found carries the allocation's name");
    ASSERT(A(base) == rec[want].p, "the record found starts at the allocation's base");
    COVER("lookup-hit");
  } else
    COVER("lookup-miss");
}
void accounting()
{
  auto& rm = ResourceManager::getInstance();
  Allocator al[2] = {rm.makeAllocator<Stub>("A"), rm.makeAllocator<Stub>("B")};
  for (int w = 0; w < 2; ++w) {
    st[w] = (Stub*)al[w].getAllocationStrategy();
    st[w]->origin = w ? (1ull << 46) : (1ull << 45);
  }
  const u64 K = sym_config("k", 3), fail = sym_config("fail", 1), ops = sym_config("ops", 127);
  for (u64 k = 0; k < K; ++k) {
    unsigned av[8], n = 0;
    if (ops & 1) av[n++] = 0;
    if (nlive && (ops & 2)) av[n++] = 1;
    if (nlive && (ops & 4)) av[n++] = 2;
    if (nlive && (ops & 8)) av[n++] = 3;
    if (ops & 16) av[n++] = 4;
    if (ops & 32) av[n++] = 5;
    if (ops & 64) av[n++] = 6;
    unsigned op = av[sym_choice(n, "op")];
    int v = -1;
    if (op >= 1 && op <= 3) {
      unsigned c = sym_choice((unsigned)nlive, "victim");
      for (v = 0;; ++v)
        if (rec[v].live && c-- == 0) break;
    }
    switch (op) {
      case 0:
      case 6: {
        int w = (int)sym_choice(2, "allocator");
        u64 sz = op == 6 ? 0 : sym_range(1, ~0ull, "size");
        bool named = sym_choice(2, "named");
        int na = st[w]->nalloc, nf = st[w]->nfailed;
        void* p = nullptr;
        bool oom = false;
        st[w]->mayFail = (int)fail;
        try {
          p = named ? al[w].allocate("name", sz) : al[w].allocate(sz);
        } catch (umpire::out_of_memory_error& e) {
          oom = true;
          if (G(3)) {
            ASSERT(e.requested_size() == sz, "an out_of_memory_error carries the requested size");
            ASSERT(e.get_allocator_id() == al[w].getId(), "an out_of_memory_error carries the allocator's id");
          }
        }
        st[w]->mayFail = 0;
        if (G(3)) ASSERT(oom == (st[w]->nfailed > nf), "allocate fails exactly when the strategy does");
        if (sz == 0) {
          if (G(2)) ASSERT(st[w]->nalloc == na, "a zero-byte request does not reach the strategy");
        } else if (G(1))
          ASSERT(st[w]->nalloc == na + 1 && st[w]->lastReq == sz, "the strategy is asked once, for the requested size");
        if (!oom) {
          if (G(2)) {
            ASSERT(p != nullptr, "allocate returns a non-null pointer");
            for (int i = 0; i < nrec; ++i)
              if (rec[i].live) ASSERT(A(p) != rec[i].p, "live allocations have distinct addresses");
          }
          rec[nrec++] = Rec{A(p), sz, w, true, named};
          ++nlive;
          cur[w] += sz;
          cnt[w]++;
          if (cur[w] > hwm[w]) hwm[w] = cur[w];
          if (sz) {
            COVER("alloc");
          } else
            COVER("alloc-zero");
          if (G(1)) ASSERT(rm.findAllocationRecord(p)->name == (named ? "name" : ""), "the record carries the given name");
        } else
          COVER("alloc-failed");
        break;
      }
      case 1:
      case 2: {
        Rec& r = rec[v];
        int nf = st[r.who]->nfree;
        if (op == 1)
          al[r.who].deallocate((void*)(uintptr_t)r.p);
        else
          rm.deallocate((void*)(uintptr_t)r.p);
        if (G(1)) ASSERT(st[r.who]->nfree == nf + (r.n != 0), "the strategy gets back exactly the non-empty allocations");
        r.live = false;
        --nlive;
        cur[r.who] -= r.n;
        cnt[r.who]--;
        if (G(1)) ASSERT(!rm.hasAllocator((void*)(uintptr_t)r.p), "a deallocated pointer is no longer known");
        COVER("dealloc");
        break;
      }
      case 3: {  // through the wrong allocator
        Rec& r = rec[v];
        int nf0 = st[0]->nfree, nf1 = st[1]->nfree;
        bool threw = false;
        try {
          al[!r.who].deallocate((void*)(uintptr_t)r.p);
        } catch (umpire::runtime_error&) {
          threw = true;
        }
        if (G(4)) {
          ASSERT(threw, "deallocating through another allocator than the owner fails");
          ASSERT(st[0]->nfree == nf0 && st[1]->nfree == nf1, "a refused deallocate frees nothing");
          ASSERT(rm.hasAllocator((void*)(uintptr_t)r.p), "after a refused deallocate the allocation is still known");
          ASSERT(rm.getSize((void*)(uintptr_t)r.p) == r.n, "after a refused deallocate the allocation keeps its size");
          ASSERT(rm.getAllocator((void*)(uintptr_t)r.p).getId() == al[r.who].getId(),
                 "after a refused deallocate the allocation keeps its owner");
          ASSERT(rm.findAllocationRecord((void*)(uintptr_t)r.p)->name == (r.named ? "name" : ""), "after a refused deallocate the allocation keeps its name");
        }
        COVER("wrong-allocator");
        break;
      }
      case 4: {  // a pointer that was never allocated, or null
        int nf0 = st[0]->nfree, nf1 = st[1]->nfree;
        unsigned how = sym_choice(2, "bad_pointer");
        bool threw = false;
        try {
          al[0].deallocate(how ? (void*)0x1230 : nullptr);
        } catch (umpire::runtime_error&) {
          threw = true;
        }
        if (G(4)) {
          ASSERT(threw == (how != 0), "deallocating null is ignored, deallocating an unknown pointer fails");
          ASSERT(st[0]->nfree == nf0 && st[1]->nfree == nf1, "neither frees anything");
        }
        COVER("bad-pointer");
        break;
      }
      case 5:
        if (G(1)) lookup(rm, al);
        break;
    }
    checkAccounts(al);
  }
  COVER("end");
}

// ---- 1: copy and memset touch exactly the requested bytes
camp::resources::Resource& hostCtx()
{
  static camp::resources::Resource r{camp::resources::Host{}};
  return r;
}
Allocator pick(ResourceManager& rm, unsigned c)
{
  if (c == 0) return rm.getAllocator("HOST");
  if (!rm.isAllocator("pool")) rm.makeAllocator<umpire::strategy::QuickPool>("pool", rm.getAllocator("HOST"), 1024, 512);
  return rm.getAllocator("pool");
}
void copySet()
{
  auto& rm = ResourceManager::getInstance();
  const unsigned M = (unsigned)sym_config("max", 4);
  bool set = sym_choice(2, "memset");
  unsigned which = sym_choice(2, "where");
  Allocator a = pick(rm, which), b = pick(rm, !which);
  u64 ns = sym_choice(M + 1, "src_size"), nd = set ? 1 : sym_choice(M + 1, "dst_size");
  unsigned char* s = (unsigned char*)a.allocate(ns);
  unsigned char* d = (unsigned char*)b.allocate(nd);
  unsigned char s0[16], d0[16];
  for (u64 i = 0; i < ns; ++i) s[i] = s0[i] = sym_u8("src_byte");
  for (u64 i = 0; i < nd; ++i) d[i] = d0[i] = (unsigned char)(0x80 + i);
  u64 os = ns ? sym_choice((unsigned)ns, "src_offset") : 0, od = nd ? sym_choice((unsigned)nd, "dst_offset") : 0;
  u64 n = sym_u64("length");
  bool async = sym_choice(2, "async");
  bool threw = false;
  if (!set) {
    try {
      if (async)
        rm.copy(d + od, s + os, hostCtx(), n);
      else
        rm.copy(d + od, s + os, n);
    } catch (umpire::runtime_error&) {
      threw = true;
    }
    u64 len = n;
    if (n == 0) len = ns - os;
    int fits = (len <= nd - od) & (len <= ns - os);
    ASSERT(threw == !fits, "copy fails exactly when source or destination is too small");
    for (u64 i = 0; i < nd; ++i) {
      if (!threw && i >= od && i - od < len)
        ASSERT(d[i] == s0[os + i - od], "copy writes the source's bytes");
      else
        ASSERT(d[i] == d0[i], "copy changes nothing outside the requested range");
    }
    for (u64 i = 0; i < ns; ++i) ASSERT(s[i] == s0[i], "copy leaves the source as it was");
    if (threw)
      COVER("copy-refused");
    else
      COVER("copied");
  } else {
    unsigned char val = sym_u8("value");
    try {
      if (async)
        rm.memset(s + os, val, hostCtx(), n);
      else
        rm.memset(s + os, val, n);
    } catch (umpire::runtime_error&) {
      threw = true;
    }
    u64 len = n;
    if (n == 0) len = ns - os;
    ASSERT(threw == (len > ns - os), "memset fails exactly when the allocation is too small");
    for (u64 i = 0; i < ns; ++i) {
      if (!threw && i >= os && i - os < len)
        ASSERT(s[i] == val, "memset writes the value");
      else
        ASSERT(s[i] == s0[i], "memset changes nothing outside the requested range");
    }
    if (threw)
      COVER("memset-refused");
    else
      COVER("set");
  }
  COVER("end");
}

// ---- 2: reallocate
void realloc_()
{
  auto& rm = ResourceManager::getInstance();
  const unsigned M = (unsigned)sym_config("max", 3);
  const u64 K = sym_config("k", 2);
  unsigned which = sym_choice(2, "where");
  Allocator a = pick(rm, which), other = pick(rm, !which);
  const u64 base = a.getCurrentSize(), baseCnt = a.getAllocationCount();
  u64 hw = a.getHighWatermark();
  bool fromNull = sym_choice(2, "from_null");
  u64 n = sym_choice(M + 1, "size");
  u64 total0 = base;
  unsigned char* p;
  if (fromNull) {
    rm.setDefaultAllocator(a);
    p = (unsigned char*)rm.reallocate(nullptr, n);
  } else
    p = (unsigned char*)a.allocate(n);
  unsigned char bytes[16];
  for (u64 i = 0; i < n; ++i) p[i] = bytes[i] = sym_u8("byte");
  auto consistent = [&] {
    if (total0 + n > hw) hw = total0 + n;
    ASSERT(rm.getSize(p) == n, "the allocation has the size last asked for");
    ASSERT(rm.getAllocator(p).getId() == a.getId(), "the allocation still belongs to its allocator");
    ASSERT(a.getCurrentSize() == total0 + n, "current size follows reallocation");
    ASSERT(a.getAllocationCount() == baseCnt + 1, "reallocation keeps the number of allocations");
    for (u64 i = 0; i < n; ++i) ASSERT(p[i] == bytes[i], "reallocation keeps the contents");
  };
  consistent();
  for (u64 k = 0; k < K; ++k) {
    switch (sym_choice(4, "op")) {
      case 0: {
        u64 m = sym_choice(M + 3, "new_size");
        bool async = sym_choice(2, "async");
        unsigned char* q = (unsigned char*)(async ? rm.reallocate(p, m, hostCtx()) : rm.reallocate(p, m));
        if (q != p) ASSERT(!rm.hasAllocator(p), "the old pointer is no longer known");
        p = q;
        for (u64 i = n; i < m; ++i) p[i] = bytes[i] = (unsigned char)i;  // the new part is writable
        n = m;
        COVER("realloc");
        break;
      }
      case 1: {
        bool threw = false;
        try {
          const u64 m = sym_choice(M + 1, "new_size");
          if (sym_choice(2, "async"))
            rm.reallocate(p, m, other, hostCtx());
          else
            rm.reallocate(p, m, other);
        } catch (umpire::runtime_error&) {
          threw = true;
        }
        ASSERT(threw, "reallocating with another allocator fails");
        COVER("wrong-allocator");
        break;
      }
      case 2: {
        if (n < 2) break;
        bool threw = false;
        try {
          const u64 m = sym_choice(M + 1, "new_size");
          if (sym_choice(2, "async"))
            rm.reallocate(p + 1, m, hostCtx());
          else
            rm.reallocate(p + 1, m);
        } catch (umpire::runtime_error&) {
          threw = true;
        }
        ASSERT(threw, "reallocating an offset pointer fails");
        COVER("offset");
        break;
      }
      case 3: {
        bool threw = false;
        try {
          rm.reallocate(p, (1ull << 60) + sym_choice(2, "new_size"));
        } catch (umpire::runtime_error&) {
          threw = true;
        }
        ASSERT(threw, "a size that cannot be provided makes reallocate fail");
        COVER("realloc-failed");
        break;
      }
    }
    consistent();
  }
  ASSERT(a.getHighWatermark() >= hw, "high watermark is at least every current size seen");
  a.deallocate(p);
  ASSERT(a.getCurrentSize() == total0 && a.getAllocationCount() == baseCnt, "deallocating afterwards leaves nothing accounted");
  COVER("end");
}

// ---- 3: move
void move_()
{
  auto& rm = ResourceManager::getInstance();
  const unsigned M = (unsigned)sym_config("max", 5);
  unsigned which = sym_choice(2, "where");
  Allocator a = pick(rm, which), b = pick(rm, !which);
  u64 n = sym_choice(M + 1, "size");
  const u64 acur = a.getCurrentSize(), acnt = a.getAllocationCount(), bcur = b.getCurrentSize(), bcnt = b.getAllocationCount();
  unsigned char* p = (unsigned char*)a.allocate(n);
  unsigned char bytes[16];
  for (u64 i = 0; i < n; ++i) p[i] = bytes[i] = sym_u8("byte");
  switch (sym_choice(3, "op")) {
    case 0: {
      unsigned char* q = (unsigned char*)rm.move(p, b);
      ASSERT(q != p && rm.getSize(q) == n, "the moved allocation has the same size");
      ASSERT(rm.getAllocator((void*)q).getId() == b.getId(), "the moved allocation belongs to the target allocator");
      for (u64 i = 0; i < n; ++i) ASSERT(q[i] == bytes[i], "move keeps the contents");
      ASSERT(!rm.hasAllocator(p), "the source allocation is gone");
      // the pool's own chunk comes from HOST: HOST's accounts change only by what the pool takes or the user holds
      if (which == 0) {
        ASSERT(b.getCurrentSize() == bcur + n && b.getAllocationCount() == bcnt + 1, "the target accounts for the moved allocation");
      } else {
        ASSERT(a.getCurrentSize() == acur && a.getAllocationCount() == acnt, "the source no longer accounts for the moved allocation");
      }
      rm.deallocate(q);
      ASSERT((which ? a : b).getCurrentSize() == (which ? acur : bcur), "deallocating afterwards leaves nothing accounted");
      COVER("moved");
      break;
    }
    case 1: {
      ASSERT(rm.move(p, a) == p, "moving to the owner returns the same pointer");
      ASSERT(rm.getSize(p) == n && a.getAllocationCount() >= 1, "moving to the owner changes nothing");
      for (u64 i = 0; i < n; ++i) ASSERT(p[i] == bytes[i], "moving to the owner keeps the contents");
      COVER("same");
      break;
    }
    case 2: {
      if (n < 2) break;
      u64 off = 1 + sym_choice((unsigned)n - 1, "offset");
      bool threw = false;
      try {
        rm.move(p + off, b);
      } catch (umpire::runtime_error&) {
        threw = true;
      }
      ASSERT(threw, "moving an offset pointer fails");
      ASSERT(rm.getSize(p) == n && rm.getAllocator((void*)p).getId() == a.getId(), "a refused move changes nothing");
      if (which == 0) ASSERT(b.getAllocationCount() == bcnt, "a refused move leaves no allocation behind");
      for (u64 i = 0; i < n; ++i) ASSERT(p[i] == bytes[i], "a refused move keeps the contents");
      COVER("offset");
      break;
    }
  }
  COVER("end");
}

// ---- 4: names, ids, aliases, default allocator
void names()
{
  auto& rm = ResourceManager::getInstance();
  const u64 K = sym_config("k", 3);
  static const char* const nm[4] = {"alpha", "beta", "FILE", "alias"};
  int owner[4] = {-1, -1, -1, -1};  // index into made[] of the allocator the name stands for
  bool alias[4] = {false, false, false, false};
  int made[8];  // ids
  int nmade = 0;
  Allocator host = rm.getAllocator("HOST");
  made[nmade++] = host.getId();
  int def = 0;
  for (u64 k = 0; k < K; ++k) {
    unsigned op = sym_choice(5, "op");
    unsigned c = sym_choice(4, "name");
    bool res = c == 2;  // a resource name: known even before it is first used
    bool known = owner[c] >= 0 || res;
    std::string s(nm[c]);
    bool threw = false;
    switch (op) {
      case 0: {
        try {
          Allocator x = rm.makeAllocator<umpire::strategy::NamedAllocationStrategy>(s, host);
          for (int i = 0; i < nmade; ++i) ASSERT(x.getId() != made[i], "every allocator gets an id of its own");
          ASSERT(x.getName() == s, "an allocator has the name it was made with");
          owner[c] = nmade;
          alias[c] = false;
          made[nmade++] = x.getId();
          COVER("made");
        } catch (umpire::runtime_error&) {
          threw = true;
          COVER("make-refused");
        }
        ASSERT(threw == known, "making an allocator fails exactly when the name is taken");
        break;
      }
      case 1: {
        unsigned t = sym_choice((unsigned)nmade, "target");
        Allocator x = rm.getAllocator(made[t]);
        try {
          rm.addAlias(s, x);
          owner[c] = (int)t;
          alias[c] = true;
          COVER("aliased");
        } catch (umpire::runtime_error&) {
          threw = true;
        }
        ASSERT(threw == known, "adding an alias fails exactly when the name is taken");
        if (res && owner[c] < 0) {  // the refusal looked the name up, which creates the resource
          owner[c] = nmade;
          made[nmade++] = rm.getAllocator(s).getId();
        }
        break;
      }
      case 2: {
        unsigned t = sym_choice((unsigned)nmade, "target");
        Allocator x = rm.getAllocator(made[t]);
        const bool ok = alias[c] && owner[c] == (int)t;
        try {
          rm.removeAlias(s, x);
        } catch (umpire::runtime_error&) {
          threw = true;
        }
        ASSERT(threw == !ok, "removing an alias fails exactly when it is not an alias of that allocator");
        if (!threw) {
          owner[c] = -1;
          alias[c] = false;
          COVER("unaliased");
        }
        break;
      }
      case 3: {
        try {
          Allocator x = rm.getAllocator(s);
          if (owner[c] < 0) {
            owner[c] = nmade;
            for (int i = 0; i < nmade; ++i) ASSERT(x.getId() != made[i], "every allocator gets an id of its own");
            made[nmade++] = x.getId();
          }
          ASSERT(x.getId() == made[owner[c]], "a name always leads to the same allocator");
        } catch (umpire::runtime_error&) {
          threw = true;
        }
        ASSERT(threw == !known, "looking up a name fails exactly when it is unknown");
        COVER("looked-up");
        break;
      }
      case 4: {
        unsigned t = sym_choice((unsigned)nmade, "target");
        rm.setDefaultAllocator(rm.getAllocator(made[t]));
        def = (int)t;
        COVER("default");
        break;
      }
    }
    for (int i = 0; i < 4; ++i)
      ASSERT(rm.isAllocator(std::string(nm[i])) == (owner[i] >= 0 || i == 2), "isAllocator knows exactly the registered names");
    const std::vector<std::string> all = rm.getAllocatorNames();
    for (int i = 0; i < 4; ++i) {
      int n = 0;
      for (const auto& x : all) n += x == nm[i];
      ASSERT(n == (owner[i] >= 0 ? 1 : 0), "the list of names has every name in use once");
      if (owner[i] >= 0) ASSERT(rm.getAllocator(nm[i]).getId() == made[owner[i]], "a name always leads to the same allocator");
    }
    const std::vector<int> ids = rm.getAllocatorIds();
    for (int i = 0; i < nmade; ++i) {
      int n = 0;
      for (int x : ids) n += x == made[i];
      ASSERT(n == 1, "the list of ids has every allocator once");
    }
    ASSERT(rm.getDefaultAllocator().getId() == made[def], "the default allocator is HOST or the one set last");
  }
  int id = (int)sym_u32("id");
  bool mine = false;
  for (int i = 0; i < nmade; ++i)
    if (id == made[i]) mine = true;
  bool threw = false;
  try {
    Allocator x = rm.getAllocator(id);
    ASSERT(x.getId() == id, "an allocator looked up by id has that id");
  } catch (umpire::runtime_error&) {
    threw = true;
  }
  ASSERT(threw == !mine, "looking up an id fails exactly when no allocator has it");
  ASSERT(rm.isAllocator(id) == mine, "isAllocator knows exactly the ids in use");
  COVER("end");
}

// ---- 5: allocators made untracked leave no records, and still get and give back memory
void untracked()
{
  auto& rm = ResourceManager::getInstance();
  const unsigned how = sym_choice(4, "how");
  Allocator al = how == 0   ? rm.makeAllocator<Stub>("A", umpire::Tracking::Untracked)
                 : how == 1 ? rm.makeAllocator<Stub, false>("A")
                 : how == 2 ? rm.makeAllocator<Stub>("A", umpire::Tracking::Tracked)
                            : rm.makeAllocator<Stub, true>("A");
  const bool tracked = how >= 2;
  Stub* s = (Stub*)al.getAllocationStrategy();
  s->origin = 1ull << 45;
  s->checkSize = tracked;
  ASSERT(al.isTracked() == tracked && rm.getAllocator("A").isTracked() == tracked && rm.getAllocator(al.getId()).isTracked() == tracked,
         "an allocator is tracked exactly when it was made so");
  const u64 K = sym_config("k", 4);
  Allocator other = rm.getAllocator("A");
  u64 sum = 0, cnt = 0;
  for (u64 k = 0; k < K; ++k) {
    if (nlive == 0 || sym_choice(2, "op") == 0) {
      const u64 sz = sym_choice(2, "zero") ? 0 : sym_range(1, ~0ull, "size");
      const bool named = sym_choice(2, "named");
      const int na = s->nalloc, nf = s->nfailed;
      void* p = nullptr;
      bool oom = false;
      s->mayFail = 1;
      try {
        p = named ? other.allocate("n", sz) : al.allocate(sz);
      } catch (umpire::out_of_memory_error&) {
        oom = true;
      }
      s->mayFail = 0;
      ASSERT(oom == (s->nfailed > nf), "allocate fails exactly when the strategy does");
      ASSERT(s->nalloc == na + (sz != 0), "the strategy is asked once for every request that is not empty");
      if (oom) {
        COVER("alloc-failed");
        continue;
      }
      for (int i = 0; i < nrec; ++i)
        if (rec[i].live) ASSERT(A(p) != rec[i].p, "live allocations have distinct addresses");
      rec[nrec++] = Rec{A(p), sz, 0, true};
      ++nlive;
      sum += sz;
      ++cnt;
      ASSERT(rm.hasAllocator(p) == tracked, "an allocation is recorded exactly when its allocator is tracked");
      COVER("alloc");
    } else {
      unsigned c = sym_choice((unsigned)nlive, "victim");
      int v = 0;
      for (;; ++v)
        if (rec[v].live && c-- == 0) break;
      const int nf = s->nfree;
      (sym_choice(2, "by") ? other : al).deallocate((void*)(uintptr_t)rec[v].p);
      ASSERT(s->nfree == nf + (rec[v].n != 0), "the strategy gets back exactly the allocations that are not empty");
      rec[v].live = false;
      --nlive;
      sum -= rec[v].n;
      --cnt;
      COVER("dealloc");
    }
    ASSERT(al.getCurrentSize() == (tracked ? sum : 0) && al.getAllocationCount() == (tracked ? cnt : 0),
           "the accounts of an untracked allocator stay empty");
  }
  COVER("end");
}

// ---- 6, 7: strategies that depend on the size given back, made untracked
void untrackedLimiter()
{
  auto& rm = ResourceManager::getInstance();
  Allocator up = rm.makeAllocator<Stub>("U");
  ((Stub*)up.getAllocationStrategy())->origin = 1ull << 45;
  ((Stub*)up.getAllocationStrategy())->checkSize = false;
  const u64 limit = sym_range(1, 1ull << 40, "limit"), a = sym_range(1, 1ull << 40, "first"), b = sym_range(1, 1ull << 40, "second");
  ASSUME(a <= limit && b <= limit);
  Allocator al = rm.makeAllocator<umpire::strategy::SizeLimiter>("L", umpire::Tracking::Untracked, up, limit);
  bool refused = false;
  void *p = nullptr, *q = nullptr;
  try {
    p = al.allocate(a);
  } catch (umpire::out_of_memory_error&) {
    refused = true;
  }
  ASSERT(!refused, "an untracked limiter serves a request within its limit");
  al.deallocate(p);
  try {
    q = al.allocate(b);
  } catch (umpire::out_of_memory_error&) {
    refused = true;
  }
  ASSERT(!refused, "an untracked limiter serves again what was given back to it");
  al.deallocate(q);
  COVER("end");
}
void untrackedWrapper()
{
  auto& rm = ResourceManager::getInstance();
  Allocator up = rm.makeAllocator<Stub>("U");
  Stub* s = (Stub*)up.getAllocationStrategy();
  s->origin = 1ull << 45;
  s->checkSize = false;
  Allocator al = sym_choice(2, "kind") ? rm.makeAllocator<umpire::strategy::NamedAllocationStrategy>("W", umpire::Tracking::Untracked, up)
                                       : rm.makeAllocator<umpire::strategy::ThreadSafeAllocator>("W", umpire::Tracking::Untracked, up);
  const u64 n = sym_range(1, 1ull << 40, "size");
  void* p = al.allocate(n);
  ASSERT(s->nalloc == 1 && s->lastReq == n && up.getCurrentSize() == n && up.getAllocationCount() == 1, "an untracked wrapper asks what it wraps once, for the requested size");
  al.deallocate(p);
  ASSERT(s->nfree == 1 && s->live == 0 && up.getAllocationCount() == 0, "an untracked wrapper gives back what it got");
  ASSERT(up.getCurrentSize() == 0, "the wrapped allocator's current size counts nothing after an untracked wrapper gave all back");
  COVER("end");
}
}  // namespace

extern "C" void harness_main()
{
  groups = sym_config("groups", ~0ull);
  switch (sym_config("which", 0)) {
    case 0: accounting(); break;
    case 1: copySet(); break;
    case 2: realloc_(); break;
    case 3: move_(); break;
    case 4: names(); break;
    case 5: untracked(); break;
    case 6: untrackedLimiter(); break;
    case 7: untrackedWrapper(); break;
  }
}
