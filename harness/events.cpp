// Event recording: what a store is told.  cfg: which (0 allocations, 1 operations), k; events=1
#include <string.h>
#include "common.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/Umpire.hpp"
#include "umpire/event/event.hpp"
#include "umpire/event/event_store.hpp"
#include "umpire/event/event_store_recorder.hpp"
#include "umpire/event/recorder_factory.hpp"
#include "umpire/strategy/DynamicPoolList.hpp"
#include "umpire/strategy/NamedAllocationStrategy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
using namespace vf;
using umpire::Allocator;
using umpire::ResourceManager;
namespace ev = umpire::event;

namespace {
struct Ent {
  int kind;  // 0 event, 1 allocate, 2 named_allocate, 3 deallocate
  u64 size;
  void *ref, *ptr;
  std::string name;
  ev::event e;
};
struct Store : ev::event_store {
  Ent x[32];
  int n = 0;
  void insert(const ev::event& e) override
  {
    if (n < 32) x[n].kind = 0, x[n].e = e;
    ++n;
  }
  void insert(const ev::allocate& e) override
  {
    if (n < 32) x[n].kind = 1, x[n].size = e.size, x[n].ref = e.ref, x[n].ptr = e.ptr;
    ++n;
  }
  void insert(const ev::named_allocate& e) override
  {
    if (n < 32) x[n].kind = 2, x[n].size = e.size, x[n].ref = e.ref, x[n].ptr = e.ptr, x[n].name = e.name;
    ++n;
  }
  void insert(const ev::deallocate& e) override
  {
    if (n < 32) x[n].kind = 3, x[n].ref = e.ref, x[n].ptr = e.ptr;
    ++n;
  }
  std::vector<ev::event> get_events() override { return {}; }
};
Store& store()
{
  static Store* s = new Store;
  return *s;
}
}  // namespace
namespace umpire {
namespace event {
store_type& recorder_factory::get_recorder()
{
  static store_type* r = new store_type(&store());
  return *r;
}
}  // namespace event
}  // namespace umpire

namespace {
struct Stub : Upstream {
  Stub(const std::string& n, int id) : Upstream(n.c_str(), id)
  {
    layout = 1;
    maxBytes = 1ull << 41;
    origin = (u64)id << 50;
  }
  umpire::Platform getPlatform() noexcept override { return umpire::Platform::host; }
};
std::string text(const void* p)
{
  std::stringstream ss;
  ss << p;
  return ss.str();
}
const ev::event& only(const char* name, ev::category c)
{
  Store& s = store();
  ASSERT(s.n == 1 && s.x[0].kind == 0, "an operation is recorded as one event");
  ASSERT(s.x[0].e.name == name && s.x[0].e.cat == c, "an event is of its operation");
  return s.x[0].e;
}
bool str(const ev::event& e, const char* k, const std::string& v)
{
  auto i = e.string_args.find(k);
  return i != e.string_args.end() && i->second == v;
}
bool num(const ev::event& e, const char* k, u64 v)
{
  auto i = e.numeric_args.find(k);
  return i != e.numeric_args.end() && i->second == v;
}
bool tag(const ev::event& e, const char* k, const std::string& v)
{
  auto i = e.tags.find(k);
  return i != e.tags.end() && i->second == v;
}

// ---- 0: allocations and deallocations
void allocations()
{
  const u64 K = sym_config("k", 3);
  auto& rm = ResourceManager::getInstance();
  ASSERT(store().n > 0 && store().x[0].kind == 0 && store().x[0].e.name == "version", "a record starts with the version");
  Stub &s0 = *new Stub("S0", 501), &s1 = *new Stub("S1", 502);
  s0.mayFail = 1;
  Allocator ts = rm.makeAllocator<umpire::strategy::ThreadSafeAllocator>("ts", Allocator(&s1));
  Allocator al[2] = {Allocator(&s0), ts};
  struct {
    void* p;
    u64 n;
    unsigned who;
  } l[8];
  int nl = 0;
  Store& st = store();
  for (u64 k = 0; k < K; ++k) {
    st.n = 0;
    const unsigned op = sym_choice(4, "op");
    if (op <= 1) {
      const unsigned w = sym_choice(2, "who");
      const u64 sz = sym_u64("size");
      void* p = nullptr;
      bool threw = false;
      try {
        p = op ? al[w].allocate("some name", sz) : al[w].allocate(sz);
      } catch (umpire::out_of_memory_error&) {
        threw = true;
      }
      if (threw) {
        ASSERT(st.n == 0, "a failed allocation is not recorded");
        COVER("alloc-failed");
        continue;
      }
      ASSERT(st.n == 1 && st.x[0].kind == (op ? 2 : 1), "an allocation is recorded once");
      ASSERT(st.x[0].size == sz && st.x[0].ptr == p && st.x[0].ref == al[w].getAllocationStrategy(), "an allocation is recorded with its size, pointer and allocator");
      if (op) ASSERT(st.x[0].name == "some name", "an allocation is recorded with its name");
      l[nl].p = p;
      l[nl].n = sz;
      l[nl].who = w;
      ++nl;
      COVER(op ? "named" : "alloc");
    } else {
      ASSUME(nl > 0);
      const unsigned v = sym_choice((unsigned)nl, "victim");
      if (op == 2)
        al[l[v].who].deallocate(l[v].p);
      else
        rm.deallocate(l[v].p);
      ASSERT(st.n == 1 && st.x[0].kind == 3, "a deallocation is recorded once");
      ASSERT(st.x[0].ptr == l[v].p && st.x[0].ref == al[l[v].who].getAllocationStrategy(), "a deallocation is recorded with its pointer and allocator");
      l[v] = l[--nl];
      COVER("dealloc");
    }
  }
  COVER("end");
}

// ---- 1: everything else
void operations()
{
  auto& rm = ResourceManager::getInstance();
  Store& st = store();
  Stub& s0 = *new Stub("S0", 501);
  Allocator host = rm.getAllocator("HOST"), base(&s0);
  const std::string H = text(host.getAllocationStrategy());
  switch (sym_choice(10, "op")) {
    case 0: {
      st.n = 0;
      const u64 f = 16 * sym_range(4, 64, "first"), nx = 16 * sym_range(4, 64, "next");
      Allocator q = rm.makeAllocator<umpire::strategy::QuickPool>("qp", base, f, nx);
      const auto& e = only("make_allocator", ev::category::operation);
      ASSERT(str(e, "allocator_ref", text(q.getAllocationStrategy())) && tag(e, "allocator_name", "qp") && tag(e, "replay", "true"), "making an allocator is recorded with its name and reference");
      ASSERT(num(e, "introspection", 1) && num(e, "arg1", f) && num(e, "arg2", nx), "making an allocator is recorded with its arguments");
      st.n = 0;
      Allocator n = rm.makeAllocator<umpire::strategy::NamedAllocationStrategy, false>("untracked", base);
      ASSERT(num(only("make_allocator", ev::category::operation), "introspection", 0), "tracking is recorded");
      (void)n;
      COVER("make");
      break;
    }
    case 1: {
      st.n = 0;
      rm.setDefaultAllocator(base);
      const auto& e = only("set_default_allocator", ev::category::operation);
      ASSERT(str(e, "allocator_ref", text(&s0)) && tag(e, "allocator_name", "S0") && tag(e, "replay", "true"), "setting the default allocator is recorded");
      COVER("default");
      break;
    }
    case 2: {  // copy, at any offset
      char *p = (char*)host.allocate(8), *q = (char*)host.allocate(8);
      const u64 so = sym_choice(8, "src"), d = sym_choice(8, "dst"), n = sym_choice(9, "n");
      memset(p, 1, 8);
      const bool asy = sym_choice(2, "async");
      bool threw = false;
      st.n = 0;
      try {
        if (asy) {
          camp::resources::Resource r{camp::resources::Host{}};
          rm.copy(q + d, p + so, r, n);
        } else
          rm.copy(q + d, p + so, n);
      } catch (umpire::runtime_error&) {
        threw = true;
      }
      if (!threw) {
        const auto& e = only("copy", ev::category::operation);
        const u64 eff = n ? n : 8 - so;
        ASSERT(str(e, "src", text(p + so)) && str(e, "dst", text(q + d)), "a copy is recorded with both pointers");
        ASSERT(num(e, "src_offset", so) && num(e, "dst_offset", d) && num(e, "size", eff), "a copy is recorded with offsets and size");
        ASSERT(str(e, "src_allocator_ref", H) && str(e, "dst_allocator_ref", H) && tag(e, "src_allocator_name", "HOST") && tag(e, "dst_allocator_name", "HOST") && tag(e, "replay", "true"),
               "a copy is recorded with both allocators");
        ASSERT(tag(e, "async", "true") == asy, "asynchronous copies are marked");
        COVER("copy");
      }
      break;
    }
    case 3: {
      char* p = (char*)host.allocate(8);
      const int v = (int)sym_choice(200, "value");
      const bool asy = sym_choice(2, "async");
      st.n = 0;
      if (asy) {
        camp::resources::Resource r{camp::resources::Host{}};
        rm.memset(p, v, r);
      } else
        rm.memset(p, v);
      const auto& e = only("memset", ev::category::operation);
      ASSERT(str(e, "ptr", text(p)) && num(e, "value", (u64)v) && num(e, "size", 8) && str(e, "allocator_ref", H) && tag(e, "allocator_name", "HOST") && tag(e, "replay", "true"),
             "setting memory is recorded with pointer, value, size and allocator");
      ASSERT(tag(e, "async", "true") == asy, "asynchronous sets are marked");
      COVER("set");
      break;
    }
    case 4: {
      void* p = host.allocate(8);
      const u64 n = sym_choice(12, "to") + 1;
      const unsigned how = sym_choice(4, "how");
      const std::string was = text(p);
      st.n = 0;
      camp::resources::Resource r{camp::resources::Host{}};
      void* q = how == 0   ? rm.reallocate(p, n)
                : how == 1 ? rm.reallocate(p, n, r)
                : how == 2 ? rm.reallocate(p, n, host)
                           : rm.reallocate(p, n, host, r);
      ASSERT(st.n >= 2 && st.x[0].kind == 0 && st.x[st.n - 1].kind == 0, "a reallocation is recorded before and after");
      const auto &a = st.x[0].e, &b = st.x[st.n - 1].e;
      ASSERT(a.name == "reallocate" && str(a, "current_ptr", was) && num(a, "size", n) && str(a, "allocator_ref", H) && tag(a, "allocator_name", "HOST") && tag(a, "replay", "true"),
             "a reallocation is recorded with pointer, size and allocator");
      ASSERT(b.name == "reallocate" && str(b, "new_ptr", text(q)) && str(b, "allocator_ref", H) && tag(b, "allocator_name", "HOST"), "a reallocation is recorded with its result");
      ASSERT(tag(a, "async", "true") == (bool)(how & 1), "asynchronous reallocations are marked");
      COVER("realloc");
      break;
    }
    case 5: {
      Allocator q = rm.makeAllocator<umpire::strategy::QuickPool>("qp", host, 64, 64);
      void* p = host.allocate(8);
      memset(p, 1, 8);
      const bool same = sym_choice(2, "same");
      st.n = 0;
      void* r = rm.move(p, same ? host : q);
      int at = -1, c = 0;
      for (int i = 0; i < st.n; ++i)
        if (st.x[i].kind == 0 && st.x[i].e.name == "move") at = i, ++c;
      ASSERT(c == 1, "a move is recorded once");
      if (c != 1) return;
      const auto& e = st.x[at].e;
      ASSERT(str(e, "ptr", text(p)) && str(e, "allocator_ref", text((same ? host : q).getAllocationStrategy())) && tag(e, "allocator_name", same ? "HOST" : "qp") && tag(e, "replay", "true"),
             "a move is recorded with pointer and allocator");
      if (!same) ASSERT(str(e, "result", text(r)), "a move is recorded with its result");
      COVER("move");
      break;
    }
    case 6: {
      st.n = 0;
      base.release();
      const auto& e = only("release", ev::category::operation);
      ASSERT(str(e, "allocator_ref", text(&s0)) && tag(e, "allocator_name", "S0") && tag(e, "replay", "true"), "a release is recorded");
      COVER("release");
      break;
    }
    case 7: {
      void* p = (void*)(700ull << 48);
      const u64 n = sym_range(1, 1ull << 40, "size");
      st.n = 0;
      umpire::register_external_allocation(p, umpire::util::AllocationRecord(p, n, &s0));
      const auto& e = only("register_external_allocation", ev::category::operation);
      ASSERT(str(e, "allocator_ref", text(&s0)) && num(e, "size", n) && str(e, "pointer", text(p)) && tag(e, "allocator_name", "S0") && tag(e, "replay", "true"),
             "registering an allocation is recorded");
      st.n = 0;
      umpire::deregister_external_allocation(p);
      ASSERT(tag(only("deregister_external_allocation", ev::category::operation), "replay", "true"), "deregistering an allocation is recorded");
      COVER("external");
      break;
    }
    case 8: {
      const bool d = sym_choice(2, "list");
      Allocator q = d ? rm.makeAllocator<umpire::strategy::DynamicPoolList>("pp", base, 64, 64) : rm.makeAllocator<umpire::strategy::QuickPool>("pp", base, 64, 64);
      st.n = 0;
      umpire::coalesce(q);
      const auto& e = only("coalesce", ev::category::operation);
      ASSERT(tag(e, "allocator_name", "pp") && tag(e, "replay", "true"), "coalescing is recorded");
      COVER("coalesce");
      break;
    }
    default: {
      st.n = 0;
      char t[4] = {0, 0, 0, 0};
      for (int i = 0; i < 3; ++i) {
        t[i] = (char)sym_u8("char");
        ASSUME(t[i] != 0);
      }
      umpire::mark_event(t);
      const auto& e = only("event", ev::category::metadata);
      auto i = e.string_args.find("name");
      ASSERT(i != e.string_args.end() && i->second.size() == 3 && ((i->second[0] == t[0]) & (i->second[1] == t[1]) & (i->second[2] == t[2])) && tag(e, "replay", "true"), "a marked event is recorded with its text");
      st.n = 0;
      Allocator x = rm.makeResource("HOST::x");
      ASSERT(st.n == 1, "making a resource is recorded");
      const auto& m = st.x[0].e;
      ASSERT(m.name == "make_memory_resource" && str(m, "allocator_ref", text(x.getAllocationStrategy())) && tag(m, "allocator_name", "HOST::x") && num(m, "introspection", 1), "making a resource is recorded");
      st.n = 0;
      const std::string own = "own", key = "key", val = "value";
      const u64 num64 = sym_u64("number");
      umpire::event::record([&](auto& e) {
        e.name(own).category(ev::category::statistic).arg(key, num64).arg("text", val).arg("chars", "abc").arg("ptr", (void*)t).tag(key, val).tag("t", "u").args(7, "x");
      });
      const auto& u = only("own", ev::category::statistic);
      ASSERT(num(u, "key", num64) && str(u, "text", "value") && str(u, "chars", "abc") && str(u, "ptr", text(t)) && tag(u, "key", "value") && tag(u, "t", "u") && num(u, "arg0", 7) && str(u, "arg1", "x"),
             "an event a program records carries everything it was given");
      COVER("mark");
    }
  }
  COVER("end");
}
}  // namespace

extern "C" void harness_main()
{
  if (sym_config("which", 0))
    operations();
  else
    allocations();
}
