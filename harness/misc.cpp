// Smaller parts of the public interface.
// cfg: which (0 overlap/containment, 1 records and external registration, 2 TypedAllocator, 3 operation registry and advice
// strategies, 4 resources by type and name, 5 fragmentation, 6 coalesce/malloc/free/find_pointer_from_name), k
#include <math.h>
#include <string.h>
#include "common.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/TypedAllocator.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/op/MemoryOperation.hpp"
#include "umpire/op/MemoryOperationRegistry.hpp"
#include "umpire/resource/MemoryResourceTypes.hpp"
#include "umpire/strategy/AllocationAdvisor.hpp"
#include "umpire/strategy/AllocationPrefetcher.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/util/allocation_statistics.hpp"
#include "umpire/util/find_first_set.hpp"
using namespace vf;
using umpire::Allocator;
using umpire::Platform;
using umpire::ResourceManager;
using umpire::util::AllocationRecord;

namespace {
struct Stub : Upstream {
  Platform plat = Platform::host;
  Stub(const std::string& n, int id) : Upstream(n.c_str(), id)
  {
    layout = 1;
    maxBytes = 1ull << 41;
    origin = (u64)id << 50;
  }
  Platform getPlatform() noexcept override { return plat; }
};
void* P(u64 a) { return (void*)(uintptr_t)a; }

// ---- 0
void geometry()
{
  static Stub s("S", 500);
  // two registered ranges anywhere, also overlapping, and a third far from both
  u64 p[2], n[2];
  for (int i = 0; i < 2; ++i) {
    p[i] = sym_range(0x1000, 1ull << 40, "base");
    n[i] = sym_range(0, 1ull << 40, "size");
  }
  ASSUME(p[0] != p[1]);
  for (int i = 0; i < 2; ++i) umpire::register_external_allocation(P(p[i]), AllocationRecord(P(p[i]), n[i], &s));
  const unsigned l = sym_choice(2, "left"), r = sym_choice(2, "right");
  u64 a = p[l], b = p[r];
  if (sym_choice(2, "interior")) {
    // from inside the ranges: only when they lie apart
    ASSUME(disjoint(p[0], n[0], p[1], n[1]));
    u64 oa = sym_range(0, 1ull << 40, "off"), ob = sym_range(0, 1ull << 40, "off");
    ASSUME(((oa == 0) | (oa < n[l])) & ((ob == 0) | (ob < n[r])));
    a += oa;
    b += ob;
    // an empty range at the start of another is found by its base only
    COVER("interior");
  }
  const u64 le = p[l] + n[l], re = p[r] + n[r];
  const int starts = (p[r] >= p[l]) & (p[r] < le);
  bool ov = umpire::pointer_overlaps(P(a), P(b));
  ASSERT(ov == (bool)(starts & (re > le)), "right overlaps left exactly when it starts inside left and ends after it");
  bool co = umpire::pointer_contains(P(a), P(b));
  ASSERT(co == (bool)(starts & (re <= le)), "left contains right exactly when right starts inside left and does not end after it");
  COVER(ov ? "overlaps" : co ? "contains" : "neither");
  bool threw = false;
  const bool side = sym_choice(2, "unknown-side");
  try {
    if (sym_choice(2, "query"))
      umpire::pointer_overlaps(side ? P(a) : P(1ull << 45), side ? P(1ull << 45) : P(a));
    else
      umpire::pointer_contains(side ? P(a) : P(1ull << 45), side ? P(1ull << 45) : P(a));
  } catch (umpire::runtime_error&) {
    threw = true;
  }
  ASSERT(threw, "unknown pointers are refused");
  COVER("end");
}

// ---- 1
void records()
{
  const u64 K = sym_config("k", 3);
  static Stub s0("S0", 501), s1("S1", 502);
  Stub* st[2] = {&s0, &s1};
  Allocator al[2] = {Allocator(&s0), Allocator(&s1)};
  auto& rm = ResourceManager::getInstance();
  struct {
    u64 p, n;
    int who;
    bool ext, named;
  } r[8];
  int nr = 0;
  for (u64 k = 0; k < K; ++k) {
    const unsigned op = sym_choice(5, "op");
    if (op <= 2) {
      const unsigned w = sym_choice(2, "who");
      const u64 sz = sym_range(1, 1ull << 40, "size");
      r[nr].n = sz;
      r[nr].who = (int)w;
      r[nr].ext = op == 2;
      r[nr].named = op == 1;
      if (op == 2) {
        r[nr].p = (600ull + k) << 48;
        umpire::register_external_allocation(P(r[nr].p), AllocationRecord(P(r[nr].p), sz, st[w]));
        COVER("external");
      } else if (op == 1) {
        r[nr].p = A(al[w].allocate("a-name", sz));
        COVER("named");
      } else
        r[nr].p = A(al[w].allocate(sz));
      ++nr;
    } else {
      ASSUME(nr > 0);
      const unsigned v = sym_choice((unsigned)nr, "victim");
      if (op == 3) {
        ASSUME(!r[v].ext);
        rm.deallocate(P(r[v].p));
      } else {
        ASSUME(r[v].ext);
        AllocationRecord x = umpire::deregister_external_allocation(P(r[v].p));
        ASSERT(A(x.ptr) == r[v].p && x.size == r[v].n && x.strategy == st[r[v].who], "deregistering gives back the record registered");
        COVER("deregistered");
      }
      r[v] = r[--nr];
    }
    for (int w = 0; w < 2; ++w)
      for (int leaked = 0; leaked < 2; ++leaked) {
        std::vector<AllocationRecord> got = leaked ? umpire::get_leaked_allocations(al[w]) : umpire::get_allocator_records(al[w]);
        u64 want = 0;
        for (int i = 0; i < nr; ++i) want += r[i].who == w;
        ASSERT(got.size() == want, "an allocator's records are as many as its live allocations");
        for (int i = 0; i < nr; ++i) {
          if (r[i].who != w) continue;
          bool seen = false;
          for (auto& g : got)
            if (A(g.ptr) == r[i].p) {
              ASSERT(!seen, "a live allocation is listed once");
              seen = true;
              ASSERT((g.size == r[i].n) & (g.strategy == st[w]), "a listed record has the allocation's size and allocator");
              ASSERT(g.name == (r[i].named ? "a-name" : ""), "a listed record has the allocation's name");
            }
          ASSERT(seen, "every live allocation is listed");
        }
      }
  }
  COVER("end");
}

// ---- 2
struct Three {
  char c[3];
};
struct Big {
  double d[5];
};
template <typename T>
void typed(Allocator a, Stub& st, umpire::TypedAllocator<int> other)
{
  umpire::TypedAllocator<T> t(a), c(other);
  ASSERT(c == other && !(c != other), "a converted allocator equals its source");
  ASSERT(t == umpire::TypedAllocator<T>(a), "allocators over the same allocator are equal");
  ASSERT(t != other && !(t == other), "allocators over different allocators differ");
  const u64 n = sym_u64("count");
  T* p = nullptr;
  bool threw = false;
  try {
    p = t.allocate(n);
  } catch (umpire::out_of_memory_error&) {
    threw = true;
  }
  const bool fits = n <= (1ull << 41) / sizeof(T);
  if (n == 0) {
    ASSERT(!threw && p, "no objects can be allocated");
    COVER("zero");
  } else {
    ASSERT(threw == !fits, "allocating fails exactly when the objects' bytes cannot be provided");
    if (!threw) ASSERT(st.lastReq == n * sizeof(T) && st.contains(A(p), st.lastReq), "the block has room for all objects");
  }
  if (threw) {
    COVER("huge");
    return;
  }
  ASSERT(ResourceManager::getInstance().getSize(p) == n * sizeof(T), "the block is registered with the bytes of all objects");
  ASSERT(ResourceManager::getInstance().getAllocator((void*)p).getId() == a.getId(), "the block belongs to the wrapped allocator");
  t.deallocate(p, sym_choice(2, "size-given") ? n : 7);
  ASSERT(st.live == 0 && a.getCurrentSize() == 0, "deallocating gives the block back");
  COVER("served");
}
void typedAllocator()
{
  static Stub s("S", 503), o("O", 504);
  Allocator a(&s), b(&o);
  umpire::TypedAllocator<int> other(b);
  switch (sym_choice(4, "type")) {
    case 0: typed<char>(a, s, other); break;
    case 1: typed<Three>(a, s, other); break;
    case 2: typed<double>(a, s, other); break;
    default: typed<Big>(a, s, other);
  }
  COVER("end");
}

// ---- 3
struct Note : umpire::op::MemoryOperation {
  int n = 0;
  void* p = nullptr;
  int val = 0;
  u64 len = 0;
  void apply(void* src, AllocationRecord*, int v, std::size_t length) override
  {
    ++n;
    p = src;
    val = v;
    len = length;
  }
};
const Platform kPlat[6] = {Platform::undefined, Platform::host, Platform::cuda, Platform::omp_target, Platform::hip, Platform::sycl};
void registry()
{
  auto& reg = umpire::op::MemoryOperationRegistry::getInstance();
  static const char* const kName[6] = {"COPY", "MEMSET", "REALLOCATE", "ADVICE", "PREFETCH", "NOTHING"};
  auto note = std::make_shared<Note>(), note2 = std::make_shared<Note>();
  reg.registerOperation("ADVICE", std::make_pair(Platform::hip, Platform::hip), note);
  reg.registerOperation("PREFETCH", std::make_pair(Platform::hip, Platform::hip), note2);
  Note* np[2] = {note.get() ? note.get() : nullptr, note2.get()};
  const unsigned nm = sym_choice(6, "name"), a = sym_choice(6, "src"), b = sym_choice(6, "dst");
  const bool host = a == 1 && b == 1;
  const bool want = (nm <= 2 && host) || (nm == 2 && a == 0 && b == 0) || ((nm == 3 || nm == 4) && a == 4 && b == 4);
  static Stub sa("A", 505), sb("B", 506);
  sa.plat = kPlat[a];
  sb.plat = kPlat[b];
  umpire::op::MemoryOperation* got[2] = {nullptr, nullptr};
  for (int i = 0; i < 2; ++i) try {
      got[i] = (i ? reg.find(kName[nm], &sa, &sb) : reg.find(kName[nm], std::make_pair(kPlat[a], kPlat[b]))).get();
    } catch (umpire::runtime_error&) {
    }
  ASSERT((got[0] != nullptr) == want, "an operation is found exactly for the platforms it is registered for");
  ASSERT(got[0] == got[1], "allocators find the operation of their platforms");
  if (want && nm >= 3) ASSERT(got[0] == np[nm - 3] || np[nm - 3] == nullptr, "the registered operation is the one found");
  COVER(want ? "found" : "not-found");

  // strategies that apply an operation to everything they hand out
  static Stub up("U", 507);
  up.plat = Platform::hip;
  up.mayFail = 1;
  const int dev = (int)sym_u32("device");
  const bool pre = sym_choice(2, "prefetcher");
  umpire::strategy::AllocationStrategy* st;
  if (pre)
    st = new umpire::strategy::AllocationPrefetcher("pre", 510, Allocator(&up), dev);
  else
    st = new umpire::strategy::AllocationAdvisor("adv", 511, Allocator(&up), "ADVICE", dev);
  Note* x = (Note*)reg.find(pre ? "PREFETCH" : "ADVICE", &up, &up).get();
  ASSERT(st->getPlatform() == Platform::hip && st->getParent() == &up, "the strategy stands for the allocator it wraps");
  const u64 sz = sym_range(1, 1ull << 40, "size");
  void* q = nullptr;
  try {
    q = st->allocate(sz);
  } catch (umpire::out_of_memory_error&) {
  }
  ASSERT((q == nullptr) == (up.nfailed == 1), "allocation fails exactly when upstream fails");
  ASSERT(x->n == (q ? 1 : 0), "the operation is applied once to each block and not without one");
  if (q) {
    ASSERT((x->p == q) & (x->len == sz) & (x->val == dev) & (A(q) == up.b[0].p) & (up.lastReq == sz),
           "the operation gets the block, its size and the device");
    st->deallocate(q, sz);
    ASSERT(up.live == 0, "the block is handed back");
    COVER("applied");
  } else
    COVER("failed");
  ASSERT(up.getCurrentSize() == 0 && up.getAllocationCount() == 0, "upstream's statistics follow");
  delete st;
  bool threw = false;
  up.plat = kPlat[sym_choice(6, "plat")];
  try {
    umpire::strategy::AllocationAdvisor adv("adv2", 512, Allocator(&up), pre ? "NOTHING" : "ADVICE", dev);
  } catch (umpire::runtime_error&) {
    threw = true;
  }
  ASSERT(threw == (pre || up.plat != Platform::hip), "a strategy for an operation its allocator lacks cannot be made");
  COVER("end");
}

// ---- 4
void resources()
{
  using namespace umpire::resource;
  static const char* const kName[8] = {"HOST", "DEVICE", "UM", "PINNED", "DEVICE_CONST", "FILE", "NO_OP", "SHARED"};
  auto& rm = ResourceManager::getInstance();
  switch (sym_choice(4, "part")) {
    case 0: {  // names to types: any short string
      const u64 len = sym_choice((unsigned)sym_config("len", 12) + 1, "length");
      char t[16];
      for (u64 i = 0; i < len; ++i) t[i] = (char)sym_u8("char");
      int want = -1;
      for (int k = 0; k < 8; ++k) {
        if (strlen(kName[k]) != len) continue;
        int same = 1;
        for (u64 i = 0; i < len; ++i) same = same & (t[i] == kName[k][i]);
        if (same) want = k;
      }
      int got = -1;
      try {
        got = (int)string_to_resource(std::string(t, len));
      } catch (umpire::runtime_error&) {
      }
      ASSERT(got == want, "exactly the resource names name a resource type");
      COVER(want < 0 ? "no-type" : "type");
      break;
    }
    case 1: {
      const unsigned k = sym_choice(9, "type");
      std::string s;
      bool threw = false;
      try {
        s = resource_to_string((MemoryResourceType)k);
      } catch (umpire::runtime_error&) {
        threw = true;
      }
      ASSERT(threw == (k == 8), "every resource type has a name");
      if (!threw) {
        ASSERT(s == kName[k] && string_to_resource(s) == (MemoryResourceType)k, "names and types correspond");
        const bool have = k == 0 || k == 5 || k == 7;
        ASSERT(rm.isAllocator(s) == have, "the resources there are are known");
        bool bad = false;
        try {
          umpire::get_default_resource_traits(s);
        } catch (umpire::runtime_error&) {
          bad = true;
        }
        ASSERT(bad == !have, "the resources there are have traits");
        if (k == 0) {
          Allocator x = rm.getAllocator(Host), y = rm.getAllocator("HOST");
          ASSERT(x.getId() == y.getId() && x.getName() == "HOST" && x.getPlatform() == Platform::host && x.getParent() == nullptr,
                 "a resource is the same by type and by name");
          ASSERT(rm.getAllocator(x.getId()).getName() == "HOST", "a resource is found by its id");
          ASSERT(umpire::is_accessible(Platform::host, x) && !umpire::is_accessible(Platform::cuda, x), "host memory is accessible from the host only");
          Allocator q = rm.makeAllocator<umpire::strategy::NamedAllocationStrategy>("over", x);
          ASSERT(umpire::is_accessible(Platform::host, q) && !umpire::is_accessible(Platform::hip, q), "accessibility is that of the resource beneath");
          Allocator z = rm.makeAllocator<umpire::strategy::NamedAllocationStrategy>("upon", q);
          ASSERT(umpire::is_accessible(Platform::host, z) && !umpire::is_accessible(Platform::cuda, z), "accessibility is that of the resource beneath");
          ASSERT(q.getParent() == x.getAllocationStrategy() && q.getName() == "over" && q.getPlatform() == Platform::host, "a strategy stands on its parent");
        } else if (!have) {
          bad = false;
          try {
            rm.getAllocator((MemoryResourceType)k);
          } catch (umpire::runtime_error&) {
            bad = true;
          }
          ASSERT(bad, "a resource type there is no resource for is refused");
        }
      }
      COVER("names");
      break;
    }
    case 2: {  // making resources: what cannot be made leaves no trace
      static const char* const kMake[7] = {"HOST", "HOST::a", "MYHOST", "NOPE", "", "HOST::b", "HOST::0"};
      bool made[7] = {false, false, false, false, false, false, false};
      const bool own = sym_choice(2, "own");
      const int id = own ? rm.makeAllocator<umpire::strategy::NamedAllocationStrategy>("HOS", rm.getAllocator("HOST")).getId() : -1;
      if (own) made[0] = true;
      for (int i = 0; i < 2; ++i) {
        const unsigned c = sym_choice(7, "make");
        bool ok = true;
        try {
          Allocator x = rm.makeResource(kMake[c]);
          ASSERT(x.getName() == kMake[c], "a made resource has its name");
          void* q = x.allocate(8);
          ASSERT(q && x.getCurrentSize() == 8, "a made resource allocates");
          x.deallocate(q);
        } catch (umpire::runtime_error&) {
          ok = false;
        }
        ASSERT(!(ok && made[c]), "a name is given once");
        if (c == 3 || c == 4) ASSERT(!ok, "what no resource serves cannot be made");
        if ((c == 1 || c == 5 || c == 0 || c == 6) && !made[c]) ASSERT(ok, "further resources can be made");
        made[c] = made[c] || ok;
        COVER(ok ? "made" : "not-made");
      }
      ASSERT(rm.isAllocator(std::string("HOS")) == own && (!own || rm.getAllocator("HOS").getId() == id), "a resource takes no name but its own");
      for (int c = 0; c < 7; ++c) {
        ASSERT(rm.isAllocator(std::string(kMake[c])) == (made[c] || c == 0), "exactly the resources made are known");
        if (!rm.isAllocator(std::string(kMake[c]))) continue;
        Allocator x = rm.getAllocator(kMake[c]);
        ASSERT(x.getName() == kMake[c] && rm.getAllocator(x.getId()).getName() == kMake[c], "a resource is found by name and id");
      }
      break;
    }
    default: {
      const unsigned k = sym_choice(6, "plat");
      static const char* const kP[6] = {"Undefined", "Host", "Cuda", "OmpTarget", "Hip", "Sycl"};
      ASSERT(umpire::platform_to_string(kPlat[k]) == kP[k], "platforms have names");
      const int v = (int)sym_u32("bits");
      const int f = umpire::util::find_first_set(v);
      const u64 uv = (uint32_t)v;
      ASSERT(v == 0 ? f == 0 : ((f >= 1) & (f <= 32)), "the first set bit is a bit of the word, or there is none");
      if (v != 0) {
        int ok = 0;
        for (int i = 0; i < 32; ++i) ok = ok | ((f == i + 1) & ((uv & ((2ull << i) - 1)) == (1ull << i)));
        ASSERT(ok, "the first set bit is set and none below it is");
        COVER("bit");
      }
    }
  }
  COVER("end");
}

// ---- 5
void fragmentation()
{
  const unsigned n = sym_choice((unsigned)sym_config("k", 4) + 1, "records");
  std::vector<AllocationRecord> recs;
  static const u64 kGap[4] = {0, 16, 48, 1024};
  u64 at = 0x10000, largest = 0, total = 0;
  for (unsigned i = 0; i < n; ++i) {
    const u64 sz = i & 1 ? 8 : 100;
    if (i) {
      const u64 g = kGap[sym_choice(4, "gap")];
      at += g;
      total += g;
      if (g > largest) largest = g;
    }
    recs.push_back(AllocationRecord(P(at), sz, nullptr));
    at += sz;
  }
  const float f = umpire::util::relative_fragmentation(recs);
  if (total) {
    const float w = 1.0f - (float)largest / (float)total;
    ASSERT((f - w < 1e-5f) & (w - f < 1e-5f), "fragmentation is one minus the largest gap's share of all gaps");
    COVER("gaps");
  } else
    COVER("no-gaps");
  ASSERT(recs.size() == n, "the records are left alone");
  COVER("end");
}

// ---- 6
void convenience()
{
  auto& rm = ResourceManager::getInstance();
  Allocator host = rm.getAllocator("HOST");
  Stub &s = *new Stub("S", 508), &s1 = *new Stub("S1", 509), &s2 = *new Stub("S2", 510);  // outlive the manager
  Allocator up(&s), up1(&s1), up2(&s2);
  Allocator pool[3] = {rm.makeAllocator<umpire::strategy::QuickPool>("qp", up, 64, 32), rm.makeAllocator<umpire::strategy::DynamicPoolList>("dp", up1, 64, 32),
                       rm.makeAllocator<umpire::strategy::FixedPool>("fp", up2, 32, 4)};
  switch (sym_choice(4, "part")) {
    case 0: {
      const unsigned c = sym_choice(4, "pool");
      Allocator a = c == 3 ? host : pool[c];
      Stub& u = c == 1 ? s1 : c == 2 ? s2 : s;
      // two chunks free, so that there is something to coalesce
      void *p = nullptr, *q = nullptr;
      bool some = true;
      if (c < 2) {
        p = a.allocate(64);
        q = a.allocate(64);
        some = sym_choice(2, "some");  // or nothing free
        if (some) {
          a.deallocate(q);
          a.deallocate(p);
        }
      }
      const int chunks = u.live;
      if (some && sym_choice(2, "try"))
        ASSERT(umpire::try_coalesce(a) == (c < 2), "exactly the coalescing pools are coalesced");
      else {
        bool threw = false;
        try {
          umpire::coalesce(a);
        } catch (umpire::runtime_error&) {
          threw = true;
        }
        ASSERT(threw == (c >= 2), "coalescing what cannot be coalesced fails");
      }
      if (!some)
        ASSERT(u.live == chunks, "chunks in use are not coalesced");
      else if (c < 2) {
        ASSERT(u.live <= 1, "after coalescing at most one chunk is free");
        COVER("coalesced");
      } else {
        ASSERT(u.live == chunks, "nothing changes for others");
        COVER("not-coalesced");
      }
      break;
    }
    case 1: {
      const bool d = sym_choice(2, "default");
      if (d) rm.setDefaultAllocator(pool[0]);
      Allocator def = d ? pool[0] : host;
      const u64 sz = sym_choice(40, "size");
      void* p = umpire::malloc(sz);
      ASSERT(p && rm.getAllocator(p).getId() == def.getId() && rm.getSize(p) == sz && def.getCurrentSize() == sz, "malloc allocates from the default allocator");
      if (sym_choice(2, "change")) rm.setDefaultAllocator(pool[1]);
      umpire::free(p);
      ASSERT(def.getCurrentSize() == 0 && !rm.hasAllocator(p), "free gives any allocation back to its allocator");
      COVER("malloc");
      break;
    }
    case 2: {
      const unsigned c = sym_choice(4, "alloc");
      bool threw = false;
      try {
        umpire::find_pointer_from_name(c == 3 ? host : pool[c], "some");
      } catch (umpire::runtime_error&) {
        threw = true;
      }
      ASSERT(threw, "names are looked up in shared memory allocators only");
      COVER("find");
      break;
    }
    default: {
      // an allocator's release reaches its strategy; getActualSize and counts are the strategy's
      void* p = pool[0].allocate(16);
      const u64 live = (u64)s.live;
      ASSERT(live == 1 && pool[0].getActualSize() == 64, "the actual size is what the pool holds");
      pool[0].deallocate(p);
      pool[0].release();
      ASSERT(s.live == 0 && pool[0].getActualSize() == 0, "release gives everything free back");
      COVER("release");
    }
  }
  COVER("end");
}
}  // namespace

extern "C" void harness_main()
{
  switch (sym_config("which", 0)) {
    case 0: geometry(); break;
    case 1: records(); break;
    case 2: typedAllocator(); break;
    case 3: registry(); break;
    case 4: resources(); break;
    case 5: fragmentation(); break;
    case 6: convenience(); break;
  }
}
