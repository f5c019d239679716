// Concurrency: schedules of two threads (context switches at lock operations, static initialisation, join and thread end; every
// schedule with at most `preempt` preemptions) and a happens-before race detector on every access of shared memory.
// cfg: which (0 AllocationMap, 1 one ThreadSafeAllocator shared by the threads, 2 one ThreadSafeAllocator per thread,
//      3 making allocators), k operations per thread, preempt
#include "common.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/strategy/ThreadSafeAllocator.hpp"
#include "umpire/util/AllocationMap.hpp"
using namespace vf;
using umpire::Allocator;
using umpire::ResourceManager;
using umpire::util::AllocationMap;
using umpire::util::AllocationRecord;

namespace {
u64 K, OPS;
void* P(u64 a) { return (void*)(uintptr_t)a; }

// ---- 0: AllocationMap
AllocationMap* am;
struct Th {
  int id;
  u64 base[8], size[8];
  int n;
};
Th th[2];
const u64 PRE = 0x700000;

// thread t registers ranges at addresses of its own
u64 slot(int t, int i) { return 0x100000 + (u64)(2 * i + t) * 0x1000; }
int findOwn(Th& me, u64 b)
{
  for (int i = me.n - 1; i >= 0; --i)
    if (me.base[i] == b) return i;
  return -1;
}
void mapThread(void* a)
{
  Th& me = *(Th*)a;
  for (u64 k = 0; k < K; ++k) {
    unsigned op = sym_choice(6, "op");
    ASSUME((OPS >> op) & 1);
    if (op == 0) {
      u64 b = slot(me.id, (int)k), sz = 16;
      am->insert(P(b), AllocationRecord{P(b), sz, nullptr});
      me.base[me.n] = b;
      me.size[me.n++] = sz;
      COVER("insert");
    } else if (op == 1) {
      ASSUME(me.n > 0);
      unsigned v = sym_choice((unsigned)me.n, "victim");
      AllocationRecord r = am->remove(P(me.base[v]));
      ASSERT(A(r.ptr) == me.base[v] && r.size == me.size[v], "remove gives the thread's own record");
      --me.n;
      me.base[v] = me.base[me.n];
      me.size[v] = me.size[me.n];
      COVER("remove");
    } else if (op == 2) {
      u64 b = slot(me.id, (int)sym_choice((unsigned)K, "probe"));
      int i = findOwn(me, b);
      const AllocationRecord* r = am->findRecord(P(b + 3));
      ASSERT((r != nullptr) == (i >= 0), "a thread sees the records it registered and no longer those it removed");
      if (r) ASSERT(A(r->ptr) == b && r->size == 16, "a thread's own record is intact");
      COVER("find");
    } else if (op == 3) {
      bool ok = true;
      try {
        am->find(P(PRE + 5));
      } catch (umpire::unknown_pointer_error&) {
        ok = false;
      }
      ASSERT(ok && am->contains(P(PRE)), "records registered before are always found");
    } else if (op == 4) {
      am->contains(P(slot(1 - me.id, 0)));
    } else {
      u64 s = am->size();
      ASSERT(s >= 1 + (u64)me.n && s <= 1 + (u64)me.n + K, "size counts at least the thread's own records");
      COVER("size");
    }
  }
}
void allocationMap()
{
  am = new AllocationMap;
  am->insert(P(PRE), AllocationRecord{P(PRE), 64, nullptr});
  int t[2];
  for (int i = 0; i < 2; ++i) {
    th[i].id = i;
    th[i].n = 0;
  }
  for (int i = 0; i < 2; ++i) t[i] = sym_thread_create(mapThread, &th[i]);
  for (int i = 0; i < 2; ++i) sym_thread_join(t[i]);
  ASSERT(am->size() == 1 + (u64)(th[0].n + th[1].n), "afterwards the map counts every record");
  u64 it = 0;
  for (const auto& r : *am) {
    (void)r;
    ++it;
  }
  ASSERT(it == am->size(), "afterwards iteration visits every record");
  for (int i = 0; i < 2; ++i)
    for (u64 k = 0; k < K; ++k) {
      u64 b = slot(i, (int)k);
      ASSERT(am->contains(P(b + 15)) == (findOwn(th[i], b) >= 0), "afterwards the map holds what was registered and not removed");
    }
  delete am;
  COVER("end");
}

// ---- 1, 2: ThreadSafeAllocator
struct Stub : Upstream {
  Stub(const char* n, int id) : Upstream(n, id)
  {
    layout = 1;
    origin = (u64)id << 50;
  }
};
struct User {
  Allocator* a;
  u64 p[8], n[8];
  int cnt;
};
User us[2];
void userThread(void* arg)
{
  User& u = *(User*)arg;
  auto& rm = ResourceManager::getInstance();
  for (u64 k = 0; k < K; ++k) {
    unsigned op = sym_choice(6, "op");
    ASSUME((OPS >> op) & 1);
    if (op <= 1 || op >= 4) {
      u64 sz = op == 1 || op == 5 ? 0 : 24;
      void* q = op >= 4 ? u.a->allocate("some", sz) : u.a->allocate(sz);
      ASSERT(q != nullptr, "allocate gives a block");
      ASSERT(rm.getSize(q) == sz, "the block is registered with its size");
      u.p[u.cnt] = A(q);
      u.n[u.cnt++] = sz;
      COVER(op == 1 ? "alloc-zero" : op >= 4 ? "alloc-named" : "alloc");
    } else {
      ASSUME(u.cnt > 0);
      unsigned v = sym_choice((unsigned)u.cnt, "victim");
      void* q = P(u.p[v]);
      if (op == 2)
        u.a->deallocate(q);
      else
        rm.deallocate(q);
      --u.cnt;
      u.p[v] = u.p[u.cnt];
      u.n[v] = u.n[u.cnt];
      COVER(op == 2 ? "dealloc" : "dealloc-rm");
    }
  }
}
void threadSafe(int napi)
{
  static Stub s0("S0", 101), s1("S1", 102);
  auto& rm = ResourceManager::getInstance();
  Stub* st[2] = {&s0, napi > 1 ? &s1 : &s0};
  umpire::strategy::QuickPool* pool[2];
  umpire::strategy::ThreadSafeAllocator* tsa[2];
  for (int i = 0; i < napi; ++i) {
    pool[i] = new umpire::strategy::QuickPool(i ? "pool1" : "pool0", 201 + i, Allocator(st[i]), 64, 32);
    tsa[i] = new umpire::strategy::ThreadSafeAllocator(i ? "tsa1" : "tsa0", 301 + i, Allocator(pool[i]));
  }
  const bool copy = sym_config("copy", 1);
  static Allocator a0(tsa[0]);
  static Allocator a1 = napi > 1 ? Allocator(tsa[1]) : a0;
  Allocator* al[2] = {&a0, (napi > 1 || copy) ? &a1 : &a0};
  int t[2];
  for (int i = 0; i < 2; ++i) {
    us[i].a = al[i];
    us[i].cnt = 0;
    t[i] = sym_thread_create(userThread, &us[i]);
  }
  for (int i = 0; i < 2; ++i) sym_thread_join(t[i]);
  u64 cur[2] = {0, 0}, cnt[2] = {0, 0}, ali[2] = {0, 0};
  int ok = 1;
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < us[i].cnt; ++j) {
      int w = napi > 1 ? i : 0;
      cur[w] += us[i].n[j];
      ali[w] += (us[i].n[j] + 15) & ~15ull;
      cnt[w]++;
      if (us[i].n[j]) ok = ok & st[w]->contains(us[i].p[j], us[i].n[j]);
      for (int x = 0; x < 2; ++x)
        for (int y = 0; y < us[x].cnt; ++y)
          if (x != i || y != j) {
            ok = ok & (us[x].p[y] != us[i].p[j]);
            if (us[x].n[y] && us[i].n[j]) ok = ok & disjoint(us[x].p[y], us[x].n[y], us[i].p[j], us[i].n[j]);
          }
      ASSERT(rm.getSize(P(us[i].p[j])) == us[i].n[j], "afterwards every block is registered with its size");
    }
  ASSERT(ok, "afterwards every block lies in upstream memory and overlaps no other");
  for (int w = 0; w < napi; ++w) {
    Allocator x(tsa[w]);
    ASSERT(x.getCurrentSize() == cur[w], "afterwards the current size is the sum of the live sizes");
    ASSERT(x.getAllocationCount() == cnt[w], "afterwards the allocation count is the number of live blocks");
    ASSERT(x.getHighWatermark() >= cur[w], "the high watermark is at least the current size");
    ASSERT(pool[w]->getAlignedSize() == ali[w], "afterwards the wrapped pool accounts for the live blocks");
  }
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < us[i].cnt; ++j) us[i].a->deallocate(P(us[i].p[j]));
  for (int w = 0; w < napi; ++w) {
    ASSERT(Allocator(tsa[w]).getCurrentSize() == 0, "after everything is deallocated the current size is zero");
    ASSERT(pool[w]->getAlignedSize() == 0, "after everything is deallocated the pool is empty");
  }
  COVER("end");
}

// ---- 4: pools of their own, or a pool and the allocator itself, over one ThreadSafeAllocator
void overThreadSafe()
{
  static Stub s0("S0", 101);
  auto& rm = ResourceManager::getInstance();
  auto* base = new umpire::strategy::QuickPool("base", 201, Allocator(&s0), 256, 64);
  auto* tsa = new umpire::strategy::ThreadSafeAllocator("tsa", 301, Allocator(base));
  umpire::strategy::QuickPool* pool[2];
  for (int i = 0; i < 2; ++i) pool[i] = new umpire::strategy::QuickPool(i ? "p1" : "p0", 401 + i, Allocator(tsa), 32, 32);
  const bool direct = sym_choice(2, "direct");
  static Allocator a0(pool[0]), a1 = direct ? Allocator(tsa) : Allocator(pool[1]);
  Allocator* al[2] = {&a0, &a1};
  int t[2];
  for (int i = 0; i < 2; ++i) {
    us[i].a = al[i];
    us[i].cnt = 0;
    t[i] = sym_thread_create(userThread, &us[i]);
  }
  for (int i = 0; i < 2; ++i) sym_thread_join(t[i]);
  int ok = 1;
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < us[i].cnt; ++j) {
      if (us[i].n[j]) ok = ok & s0.contains(us[i].p[j], us[i].n[j]);
      for (int x = 0; x < 2; ++x)
        for (int y = 0; y < us[x].cnt; ++y)
          if (x != i || y != j) {
            ok = ok & (us[x].p[y] != us[i].p[j]);
            if (us[x].n[y] && us[i].n[j]) ok = ok & disjoint(us[x].p[y], us[x].n[y], us[i].p[j], us[i].n[j]);
          }
      ASSERT(rm.getSize(P(us[i].p[j])) == us[i].n[j], "afterwards every block is registered with its size");
    }
  ASSERT(ok, "afterwards every block lies in upstream memory and overlaps no other");
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < us[i].cnt; ++j) us[i].a->deallocate(P(us[i].p[j]));
  pool[0]->release();
  pool[1]->release();
  ASSERT(Allocator(tsa).getCurrentSize() == 0 && Allocator(tsa).getAllocationCount() == 0 && base->getAlignedSize() == 0,
         "with everything given back the statistics of a shared ThreadSafeAllocator are zero");
  COVER("end");
}

// ---- 3: making allocators from several threads, over allocators made before
struct Maker {
  int id;
  Allocator* base;
  bool made[3];
  int ids[3];
};
Maker mk[2];
const char* const kNames[3] = {"both", "left", "right"};
void makerThread(void* arg)
{
  Maker& m = *(Maker*)arg;
  auto& rm = ResourceManager::getInstance();
  for (u64 k = 0; k < K; ++k) {
    unsigned c = sym_choice(3, "name");
    ASSUME(c != (unsigned)(2 - m.id));  // a name of one's own, or the one both threads try
    bool threw = false;
    const bool had = m.made[c];
    try {
      Allocator x = rm.makeAllocator<umpire::strategy::ThreadSafeAllocator>(kNames[c], *m.base);
      m.made[c] = true;
      m.ids[c] = x.getId();
      void* q = x.allocate(8);
      ASSERT(rm.getSize(q) == 8, "a block of a new allocator is registered");
      x.deallocate(q);
      COVER("made");
    } catch (umpire::runtime_error&) {
      threw = true;
      COVER("refused");
    }
    if (c) {
      ASSERT(threw == had, "a name nobody else uses can be taken exactly once");
    } else if (had)
      ASSERT(threw, "a name taken by the thread itself is refused");
  }
}
void makers()
{
  static Stub s0("S0", 1001), s1("S1", 1002);
  static Allocator b0(&s0), b1(&s1);
  auto& rm = ResourceManager::getInstance();
  int t[2];
  for (int i = 0; i < 2; ++i) {
    mk[i] = Maker{i, i ? &b1 : &b0, {false, false, false}, {-1, -1, -1}};
    t[i] = sym_thread_create(makerThread, &mk[i]);
  }
  for (int i = 0; i < 2; ++i) sym_thread_join(t[i]);
  for (int c = 0; c < 3; ++c) {
    ASSERT(!(mk[0].made[c] && mk[1].made[c]), "a name is given to one allocator only");
    int id = mk[0].made[c] ? mk[0].ids[c] : mk[1].made[c] ? mk[1].ids[c] : -1;
    ASSERT(rm.isAllocator(std::string(kNames[c])) == (id >= 0), "afterwards exactly the names given are known");
    if (id >= 0) {
      ASSERT(rm.getAllocator(kNames[c]).getId() == id, "afterwards a name leads to the allocator it was given to");
      ASSERT(rm.getAllocator(id).getName() == kNames[c], "afterwards an id leads to the allocator it was given to");
      for (int d = 0; d < 3; ++d)
        for (int i = 0; i < 2; ++i)
          if (d != c && mk[i].made[d]) ASSERT(mk[i].ids[d] != id, "every allocator gets an id of its own");
    }
  }
  COVER("end");
}
}  // namespace

extern "C" void harness_main()
{
  K = sym_config("k", 2);
  OPS = sym_config("ops", 63);
  switch (sym_config("which", 0)) {
    case 0: allocationMap(); break;
    case 1: threadSafe(1); break;
    case 2: threadSafe(2); break;
    case 3: makers(); break;
    case 4: overThreadSafe(); break;
  }
}
