// The C interface: every function acts as the C++ one it stands for.
// cfg: which (0 allocators, 1 memory operations, 2 making and naming allocators)
#include <string.h>
#include "common.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/op/MemoryOperation.hpp"
#include "umpire/op/MemoryOperationRegistry.hpp"
#include "umpire/strategy/AllocationAdvisor.hpp"
#include "umpire/strategy/AllocationPrefetcher.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/FixedPool.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/interface/c_fortran/umpire.h"
#include "umpire/interface/c_fortran/wrapUmpire.h"
#include "umpire/interface/c_fortran/wrapAllocator.h"
#include "umpire/interface/c_fortran/wrapResourceManager.h"
using namespace vf;
using umpire::Allocator;
using umpire::ResourceManager;

extern "C" void umpire_SHROUD_memory_destructor(umpire_SHROUD_capsule_data* cap);
extern "C" void umpire_ShroudCopyStringAndFree(umpire_SHROUD_array* data, char* c_var, size_t c_var_len);
namespace {
struct Stub : Upstream {
  umpire::Platform plat = umpire::Platform::host;
  Stub(const std::string& n, int id) : Upstream(n.c_str(), id)
  {
    layout = 1;
    maxBytes = 1ull << 41;
    origin = (u64)id << 50;
  }
  umpire::Platform getPlatform() noexcept override { return plat; }
};
bool sameName(umpire_allocator* a, const char* want)
{
  umpire_SHROUD_array arr;
  memset(&arr, 0x5a, sizeof arr);
  umpire_allocator_get_name_bufferify(a, &arr);
  const u64 n = strlen(want);
  bool ok = !strcmp(umpire_allocator_get_name(a), want) && arr.elem_len == n && arr.size == 1 && arr.rank == 0 && arr.cxx.idtor == 0;
  return ok && (n == 0 ? arr.addr.ccharp == nullptr : !memcmp(arr.addr.ccharp, want, n));
}
void drop(umpire_allocator* h)
{
  // either way of giving a handle up
  if (sym_choice(2, "drop")) {
    umpire_allocator_delete(h);
  } else {
    umpire_SHROUD_capsule_data c = {h->addr, h->idtor};
    umpire_SHROUD_memory_destructor(&c);
    ASSERT(c.addr == nullptr && c.idtor == 0, "a handle given up is empty");
    umpire_SHROUD_memory_destructor(&c);
  }
}

void allocators()
{
  umpire_resourcemanager m;
  ASSERT(umpire_resourcemanager_get_instance(&m) == &m && m.addr == &ResourceManager::getInstance(), "there is one resource manager");
  auto& rm = ResourceManager::getInstance();
  static Stub &s = *new Stub("S", 600), &o = *new Stub("O", 601);
  s.mayFail = 1;
  Allocator a(&s), b(&o);
  umpire_allocator h = {new Allocator(a), 1};
  struct {
    u64 p, n;
  } l[4];
  int nl = 0;
  u64 cur = 0, hwm = 0;
  for (u64 k = 0; k < sym_config("k", 3); ++k) {
    switch (sym_choice(4, "op")) {
      case 0: {
        const u64 sz = sym_u64("size");
        void* p = nullptr;
        bool threw = false;
        const int f0 = s.nfailed;
        try {
          p = umpire_allocator_allocate(&h, sz);
        } catch (umpire::out_of_memory_error&) {
          threw = true;
        }
        ASSERT(threw == (s.nfailed != f0), "allocating fails exactly when the allocator fails");
        if (threw) {
          COVER("alloc-failed");
          break;
        }
        ASSERT(p && (sz == 0 || s.lastReq == sz), "the allocator is asked for the bytes wanted");
        l[nl].p = A(p);
        l[nl].n = sz;
        ++nl;
        cur += sz;
        if (cur > hwm) hwm = cur;
        COVER("alloc");
        break;
      }
      case 1: {
        ASSUME(nl > 0);
        const unsigned v = sym_choice((unsigned)nl, "victim");
        const int f = s.nfree;
        if (sym_choice(2, "by"))
          umpire_allocator_deallocate(&h, (void*)l[v].p);
        else
          umpire_resourcemanager_deallocate(&m, (void*)l[v].p);
        ASSERT(!umpire_resourcemanager_has_allocator(&m, (void*)l[v].p), "a deallocated pointer is unknown");
        ASSERT(s.nfree == f + (l[v].n != 0), "the allocator gets the block back");
        cur -= l[v].n;
        l[v] = l[--nl];
        COVER("dealloc");
        break;
      }
      case 2: {
        ASSUME(nl > 0);
        const unsigned v = sym_choice((unsigned)nl, "of");
        const u64 off = sym_u64("off");
        ASSUME((off == 0) | (off < l[v].n));
        void* q = (void*)(l[v].p + off);
        ASSERT(umpire_resourcemanager_has_allocator(&m, q), "an allocated address is known");
        umpire_allocator g;
        ASSERT(umpire_resourcemanager_get_allocator_for_ptr(&m, q, &g) == &g, "the handle given is filled");
        ASSERT(umpire_allocator_get_id(&g) == 600 && sameName(&g, "S"), "an address leads to its allocator");
        ASSERT(umpire_allocator_get_size(&h, (void*)l[v].p) == l[v].n && umpire_resourcemanager_get_size(&m, q) == l[v].n, "the size of an allocation is known");
        drop(&g);
        COVER("lookup");
        break;
      }
      default: {
        // memory from elsewhere
        void* q = (void*)(700ull << 48);
        const u64 sz = sym_range(1, 1ull << 40, "size");
        umpire_allocator hb = {new Allocator(b), 1};
        umpire_resourcemanager_register_allocation(&m, q, sz, hb);
        ASSERT(rm.getSize(q) == sz && rm.getAllocator(q).getId() == 601, "a registered allocation is known with its size and allocator");
        if (nl && l[0].n) {
          void* p0 = (void*)l[0].p;
          const unsigned side = sym_choice(2, "side");
          ASSERT(!umpire_pointer_overlaps(side ? p0 : q, side ? q : p0) && !umpire_pointer_contains(side ? p0 : q, side ? q : p0), "ranges apart neither overlap nor contain each other");
        }
        ASSERT(umpire_pointer_contains(q, q) && !umpire_pointer_overlaps(q, q), "a range contains itself");
        void* q2 = (void*)((700ull << 48) + sym_range(1, 1ull << 39, "shift"));
        const u64 sz2 = sym_range(1, 1ull << 40, "size");
        umpire_resourcemanager_register_allocation(&m, q2, sz2, hb);
        const int starts = A(q2) < A(q) + sz, after = A(q2) + sz2 > A(q) + sz;
        ASSERT(umpire_pointer_overlaps(q, q2) == (bool)(starts & after), "overlap is that of right over the end of left");
        ASSERT(umpire_pointer_contains(q, q2) == (bool)(starts & !after), "containment is that of right in left");
        ASSERT(!umpire_pointer_overlaps(q2, q) && !umpire_pointer_contains(q2, q), "the order of the pointers matters");
        umpire_resourcemanager_deregister_allocation(&m, q2);
        umpire_resourcemanager_deregister_allocation(&m, q);
        ASSERT(!rm.hasAllocator(q), "a deregistered allocation is unknown");
        drop(&hb);
        COVER("external");
      }
    }
    ASSERT(umpire_allocator_get_current_size(&h) == cur, "the current size is the bytes allocated");
    ASSERT(umpire_allocator_get_high_watermark(&h) == hwm, "the high watermark is the largest size there was");
    ASSERT(umpire_allocator_get_allocation_count(&h) == (u64)nl, "the count is the live allocations");
    ASSERT(umpire_allocator_get_actual_size(&h) == a.getActualSize(), "the actual size is the allocator's");
    ASSERT(umpire_allocator_get_id(&h) == 600 && sameName(&h, "S"), "a handle keeps its allocator");
  }
  drop(&h);
  ASSERT(umpire_get_major_version() == umpire::get_major_version() && umpire_get_minor_version() == umpire::get_minor_version() &&
             umpire_get_patch_version() == umpire::get_patch_version(),
         "the version is the library's");
  umpire_SHROUD_array bt;
  umpire_get_backtrace_bufferify(nullptr, &bt);
  ASSERT(bt.cxx.idtor == 2 && bt.elem_len == umpire::get_backtrace(nullptr).size() && !memcmp(bt.addr.ccharp, umpire::get_backtrace(nullptr).data(), bt.elem_len),
         "a returned string is the C++ one");
  char out[12];
  memset(out, '#', sizeof out);
  const u64 room = sym_choice(10, "room");
  umpire_ShroudCopyStringAndFree(&bt, out, room);
  ASSERT(!memcmp(out, umpire::get_backtrace(nullptr).data(), room) && out[room] == '#' && bt.cxx.addr == nullptr, "a string is copied as far as there is room, and given up");
  COVER("end");
}

// ---- 1
void operations()
{
  umpire_resourcemanager m;
  umpire_resourcemanager_get_instance(&m);
  auto& rm = ResourceManager::getInstance();
  umpire_allocator h, q;
  umpire_resourcemanager_get_allocator_by_name(&m, "HOST", &h);
  umpire_resourcemanager_make_allocator_quick_pool(&m, "pool", h, 64, 32, &q);
  const unsigned N = 4;
  unsigned char *x = (unsigned char*)umpire_allocator_allocate(&h, N), *y = (unsigned char*)umpire_allocator_allocate(&q, N);
  unsigned char ox[N], oy[N];
  for (unsigned i = 0; i < N; ++i) x[i] = ox[i] = sym_u8("x"), y[i] = oy[i] = sym_u8("y");
  const u64 len = sym_u64("len");
  int ok = 1;
  switch (sym_choice(6, "op")) {
    case 0: {
      umpire_resourcemanager_copy_all(&m, x, y);
      for (unsigned i = 0; i < N; ++i) ok = ok & (x[i] == oy[i]) & (y[i] == oy[i]);
      ASSERT(ok, "copying all copies the second allocation to the first");
      COVER("copy-all");
      break;
    }
    case 1: {
      const unsigned at = sym_choice(N, "at");
      bool threw = false;
      try {
        umpire_resourcemanager_copy_with_size(&m, x + at, y, len);
      } catch (umpire::runtime_error&) {
        threw = true;
      }
      const u64 eff = len == 0 ? N : len;
      ASSERT(threw == (eff > N - at), "a length that does not fit is refused");
      for (unsigned i = 0; i < N; ++i) ok = ok & (x[i] == (!threw && i >= at && i - at < eff ? oy[i >= at ? i - at : 0] : ox[i])) & (y[i] == oy[i]);
      ASSERT(ok, "exactly the bytes asked for are copied, from the second pointer to the first");
      COVER("copy-size");
      break;
    }
    case 2: {
      const int v = (int)sym_u32("value");
      umpire_resourcemanager_memset_all(&m, y, v);
      for (unsigned i = 0; i < N; ++i) ok = ok & (y[i] == (unsigned char)v) & (x[i] == ox[i]);
      ASSERT(ok, "setting all sets every byte");
      COVER("set-all");
      break;
    }
    case 3: {
      const unsigned at = sym_choice(N, "at");
      const int v = (int)sym_u32("value");
      bool threw = false;
      try {
        umpire_resourcemanager_memset_with_size(&m, x + at, v, len);
      } catch (umpire::runtime_error&) {
        threw = true;
      }
      const u64 eff = len == 0 ? N - at : len;
      ASSERT(threw == (eff > N - at), "a length that does not fit is refused");
      for (unsigned i = 0; i < N; ++i) ok = ok & (x[i] == (!threw && i >= at && i - at < eff ? (unsigned char)v : ox[i])) & (y[i] == oy[i]);
      ASSERT(ok, "exactly the bytes asked for are set");
      COVER("set-size");
      break;
    }
    case 4: {
      const u64 n = sym_choice(7, "to");
      const unsigned how = sym_choice(4, "how");
      unsigned char *r, *old = how & 1 ? y : x, *oo = how & 1 ? oy : ox;
      if (how & 2)
        r = (unsigned char*)umpire_resourcemanager_reallocate_with_allocator(&m, old, n, how & 1 ? q : h);
      else
        r = (unsigned char*)umpire_resourcemanager_reallocate_default(&m, old, n);
      ASSERT(umpire_resourcemanager_get_size(&m, r) == n, "a reallocated allocation has the size asked for");
      ASSERT(rm.getAllocator((void*)r).getId() == (int)umpire_allocator_get_id(how & 1 ? &q : &h), "a reallocated allocation stays with its allocator");
      for (unsigned i = 0; i < N && i < n; ++i) ok = ok & (r[i] == oo[i]);
      ASSERT(ok, "reallocation keeps the contents");
      umpire_resourcemanager_deallocate(&m, r);
      if (how & 1)
        y = nullptr;
      else
        x = nullptr;
      if (sym_choice(2, "from-null")) {
        void* z = how & 2 ? umpire_resourcemanager_reallocate_with_allocator(&m, nullptr, 8, q) : umpire_resourcemanager_reallocate_default(&m, nullptr, 8);
        ASSERT(rm.getAllocator(z).getId() == (int)umpire_allocator_get_id(how & 2 ? &q : &h), "reallocating nothing allocates from the allocator given or the default");
        umpire_resourcemanager_deallocate(&m, z);
      }
      COVER("realloc");
      break;
    }
    default: {
      unsigned char* r = (unsigned char*)umpire_resourcemanager_move(&m, x, q);
      ASSERT(r != x && rm.getAllocator((void*)r).getId() == (int)umpire_allocator_get_id(&q) && !umpire_resourcemanager_has_allocator(&m, x), "moving goes to the allocator given");
      for (unsigned i = 0; i < N; ++i) ok = ok & (r[i] == ox[i]);
      ASSERT(ok, "moving keeps the contents");
      umpire_allocator_deallocate(&q, r);
      x = nullptr;
      COVER("move");
    }
  }
  if (x) umpire_allocator_deallocate(&h, x);
  if (y) umpire_allocator_deallocate(&q, y);
  ASSERT(umpire_allocator_get_actual_size(&q) > 0, "a pool keeps its memory");
  umpire_allocator_release(&q);
  ASSERT(umpire_allocator_get_actual_size(&q) == 0 && umpire_allocator_get_current_size(&h) == 0, "release gives free memory back");
  drop(&q);
  drop(&h);
  COVER("end");
}

// ---- 2
struct Note : umpire::op::MemoryOperation {
  int n = 0, val = 0;
  void apply(void*, umpire::util::AllocationRecord*, int v, std::size_t) override
  {
    ++n;
    val = v;
  }
};
void naming()
{
  umpire_resourcemanager m;
  umpire_resourcemanager_get_instance(&m);
  auto& rm = ResourceManager::getInstance();
  auto& reg = umpire::op::MemoryOperationRegistry::getInstance();
  auto adv = std::make_shared<Note>(), pre = std::make_shared<Note>();
  reg.registerOperation("ADV", std::make_pair(umpire::Platform::hip, umpire::Platform::hip), adv);
  reg.registerOperation("PREFETCH", std::make_pair(umpire::Platform::hip, umpire::Platform::hip), pre);
  Note *na = (Note*)reg.find("ADV", std::make_pair(umpire::Platform::hip, umpire::Platform::hip)).get(),
       *np = (Note*)reg.find("PREFETCH", std::make_pair(umpire::Platform::hip, umpire::Platform::hip)).get();
  Stub& s = *new Stub("S", 600);
  s.plat = umpire::Platform::hip;
  umpire_allocator base = {new Allocator(&s), 1};
  // a name of any length in a buffer that goes on after it
  char name[8] = "abcdef", adop[8] = "ADVxyz";
  const int len = (int)sym_choice(6, "length") + 1;
  char cname[8] = {0};
  memcpy(cname, name, (size_t)len);
  const bool buf = sym_choice(2, "bufferify");
  const unsigned what = sym_choice(7, "what");
  const u64 size = sym_range(64, 1u << 20, "size"), block = sym_range(16, 1u << 20, "block");
  const int dev = (int)sym_u32("device");
  ASSUME(size % 16 == 0);
  ASSUME(block % 16 == 0);
  umpire_allocator h = {nullptr, 77}, *r = nullptr;
  switch (what) {
    case 0:
      r = buf ? umpire_resourcemanager_make_allocator_bufferify_list_pool(&m, name, len, base, size, block, &h)
              : umpire_resourcemanager_make_allocator_list_pool(&m, cname, base, size, block, &h);
      break;
    case 1:
      r = buf ? umpire_resourcemanager_make_allocator_bufferify_quick_pool(&m, name, len, base, size, block, &h)
              : umpire_resourcemanager_make_allocator_quick_pool(&m, cname, base, size, block, &h);
      break;
    case 2:
      r = buf ? umpire_resourcemanager_make_allocator_bufferify_advisor(&m, name, len, base, adop, 3, dev, &h)
              : umpire_resourcemanager_make_allocator_advisor(&m, cname, base, "ADV", dev, &h);
      break;
    case 3:
      r = buf ? umpire_resourcemanager_make_allocator_bufferify_named(&m, name, len, base, &h) : umpire_resourcemanager_make_allocator_named(&m, cname, base, &h);
      break;
    case 4:
      r = buf ? umpire_resourcemanager_make_allocator_bufferify_thread_safe(&m, name, len, base, &h) : umpire_resourcemanager_make_allocator_thread_safe(&m, cname, base, &h);
      break;
    case 5:
      r = buf ? umpire_resourcemanager_make_allocator_bufferify_fixed_pool(&m, name, len, base, (size_t)size & 0xff0, &h)
              : umpire_resourcemanager_make_allocator_fixed_pool(&m, cname, base, (size_t)size & 0xff0, &h);
      break;
    default:
      r = buf ? umpire_resourcemanager_make_allocator_bufferify_prefetcher(&m, name, len, base, dev, &h)
              : umpire_resourcemanager_make_allocator_prefetcher(&m, cname, base, dev, &h);
  }
  ASSERT(r == &h && h.addr && h.idtor == 1, "the handle given is filled");
  ASSERT(sameName(&h, cname), "an allocator made has the name given");
  ASSERT(umpire_resourcemanager_is_allocator_name(&m, cname) && umpire_resourcemanager_is_allocator_name_bufferify(&m, name, len), "an allocator made is known");
  ASSERT(umpire_resourcemanager_is_allocator_id(&m, (int)umpire_allocator_get_id(&h)) && !umpire_resourcemanager_is_allocator_id(&m, 12345), "exactly the ids given out are known");
  ASSERT(!umpire_resourcemanager_is_allocator_name(&m, "nobody") && !umpire_resourcemanager_is_allocator_name_bufferify(&m, "abcdefg", 7), "names not given are unknown");
  umpire_allocator g[3];
  umpire_resourcemanager_get_allocator_by_name(&m, cname, &g[0]);
  umpire_resourcemanager_get_allocator_by_name_bufferify(&m, name, len, &g[1]);
  umpire_resourcemanager_get_allocator_by_id(&m, (int)umpire_allocator_get_id(&h), &g[2]);
  for (int i = 0; i < 3; ++i) {
    ASSERT(g[i].idtor == 1 && ((Allocator*)g[i].addr)->getAllocationStrategy() == ((Allocator*)h.addr)->getAllocationStrategy(), "name and id lead to the allocator made");
    drop(&g[i]);
  }
  auto* st = ((Allocator*)h.addr)->getAllocationStrategy();
  ASSERT(st->getParent() == &s, "an allocator made stands on the one given");
  static const char* const kStrategy[7] = {"DynamicPoolList", "QuickPool", "AllocationAdvisor", "NamedAllocationStrategy", "ThreadSafeAllocator", "FixedPool", "AllocationPrefetcher"};
  ASSERT(st->getStrategyName() == kStrategy[what], "the strategy made is the one the function names");
  ASSERT((dynamic_cast<umpire::strategy::ThreadSafeAllocator*>(st) != nullptr) == (what == 4), "a thread safe allocator is one");

  void* p = nullptr;
  u64 want = 0;
  if (what != 5) {
    p = umpire_allocator_allocate(&h, 32);
    ASSERT(p && st->getCurrentSize() == 32, "an allocator made allocates");
    if (what <= 1) {
      // asks for the same memory as a pool made in C++
      Stub& t = *new Stub("T", 602);
      Allocator tw(&t);
      Allocator c = what ? rm.makeAllocator<umpire::strategy::QuickPool>("twin", tw, size, block) : rm.makeAllocator<umpire::strategy::DynamicPoolList>("twin", tw, size, block);
      c.allocate(32);
      ASSERT(s.nalloc == t.nalloc && s.lastReq == t.lastReq && s.lastReq >= size, "a pool starts with a chunk of the initial size");
      const u64 more = sym_range(16, 1u << 21, "more");
      void* p2 = umpire_allocator_allocate(&h, more);
      c.allocate(more);
      ASSERT(s.nalloc == t.nalloc && s.lastReq == t.lastReq, "a pool grows by its block size or what is needed");
      umpire_allocator_deallocate(&h, p2);
      COVER("pool");
    } else
      ASSERT(s.lastReq == 32, "the allocator given is asked");
    ASSERT(na->n == (what == 2) && np->n == (what == 6), "advice is applied by the strategies for it");
    if (what == 2 || what == 6) {
      ASSERT((what == 2 ? na->val : np->val) == dev, "the operation gets the device");
      COVER("advice");
    }
    umpire_allocator_deallocate(&h, p);
  } else {
    want = size & 0xff0;
    if (want) {
      p = umpire_allocator_allocate(&h, want);
      ASSERT(p && st->getCurrentSize() == want, "an allocator made allocates");
      umpire_allocator_deallocate(&h, p);
    }
    COVER("fixed");
  }
  ASSERT(st->getCurrentSize() == 0 && st->getAllocationCount() == 0, "blocks are handed back");

  // aliases
  const bool ab = sym_choice(2, "alias-buf");
  if (ab)
    umpire_resourcemanager_add_alias_bufferify(&m, "zzalias", 2, h);
  else
    umpire_resourcemanager_add_alias(&m, "zz", h);
  ASSERT(rm.isAllocator(std::string("zz")) && rm.getAllocator("zz").getAllocationStrategy() == st, "an alias leads to its allocator");
  ASSERT(!rm.isAllocator(std::string("zzalias")), "an alias is the name given");
  if (sym_choice(2, "unalias-buf"))
    umpire_resourcemanager_remove_alias_bufferify(&m, "zzalias", 2, h);
  else
    umpire_resourcemanager_remove_alias(&m, "zz", h);
  ASSERT(!rm.isAllocator(std::string("zz")), "an alias removed is gone");
  drop(&h);
  ASSERT(rm.isAllocator(std::string(cname)), "an allocator outlives its handles");
  COVER("end");
}
}  // namespace

extern "C" void harness_main()
{
  switch (sym_config("which", 0)) {
    case 0: allocators(); break;
    case 1: operations(); break;
    case 2: naming(); break;
  }
}
