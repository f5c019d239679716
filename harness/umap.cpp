// The address maps and the node pool under them: MemoryMap (Judy array), AllocationMap, FixedMallocPool.
// cfg: which 0 MemoryMap history, 1 AllocationMap history, 2 FixedMallocPool, 3 MemoryMap iterators, 4 MemoryMap value lifetimes, 5 AllocationMap::print
//      k operations, pat prefill pattern, win size of the symbolic key window (0: any address)
#include <sstream>
#include <string>
#include "../rt/verif.h"
#include "umpire/util/AllocationMap.hpp"
#include "umpire/util/FixedMallocPool.hpp"
#include "umpire/util/MemoryMap.hpp"
#include "umpire/util/error.hpp"
#include <cstring>
typedef uint64_t u64;
using umpire::util::AllocationMap;
using umpire::util::AllocationRecord;
using umpire::util::MemoryMap;

namespace {
u64 A(const void* p) { return (u64)(uintptr_t)p; }
void* P(u64 a) { return (void*)(uintptr_t)a; }
// prefill: keys of the pattern, ascending or descending insertion order
u64 base0 = 0x7f12345600ull << 8;
int prefillCount(u64 pat)
{
  switch (pat) {
    case 1: return 31;    // one short of a full linear node
    case 2: return 36;    // one radix level (the top byte), split node full
    case 3: return 62;    // 62 keys, 4 apart, in one 256-byte window: radix nodes down to the last byte
    case 4: return 40;    // 16 apart
    case 5: return 48;    // spread over three top bytes
    case 6: return 15;
    case 7: return 50;    // 64 apart, in one 64 KiB window: radix nodes down to the last two bytes
    default: return 0;
  }
}
u64 prefillKey(u64 pat, int i)
{
  switch (pat) {
    case 2:
    case 7: return base0 + (u64)i * 64 + 64;
    case 3: return base0 + (u64)i * 4 + 4;
    case 4: return base0 + (u64)i * 16 + 16;
    case 5: return base0 + ((u64)(i % 3) << 40) + (u64)(i / 3) * 64 + (i % 3 ? 0 : 64);
    default: return base0 + (u64)i * 32 + 32;
  }
}
u64 symKey(const char* nm)
{
  const u64 win = sym_config("win", 0);
  if (sym_config("kset", 0)) {  // addresses around the corners of the prefilled pattern
    static const u64 off[] = {0, 1, 64, 65, 0x100, 0xf8, 50 * 64, 0xffff, 1ull << 40, 68};
    return base0 + off[sym_choice((unsigned)sym_config("kset", 0), nm)];
  }
  if (!win) return sym_range(1, ~0ull, nm);
  u64 v = sym_range(0, win - 1, nm);
  if (sym_config("conc", 0)) v = sym_concretize(v);
  const u64 step = sym_config("step", 1);
  return base0 + v * step;
}

struct Model {
  enum { MAX = 128 };
  u64 k[MAX], v[MAX];
  bool live[MAX];
  int n = 0, nlive = 0;
  int find(u64 key)
  {
    for (int i = 0; i < n; ++i)
      if (live[i] && k[i] == key) return i;
    return -1;
  }
  int add(u64 key, u64 val)
  {
    k[n] = key, v[n] = val, live[n] = true;
    ++nlive;
    return n++;
  }
  void del(int i) { live[i] = false, --nlive; }
  int isEntry(u64 key, u64 val)
  {
    int r = 0;
    for (int i = 0; i < n; ++i)
      if (live[i]) r = r | ((k[i] == key) & (v[i] == val));
    return r;
  }
  int has(u64 key)
  {
    int r = 0;
    for (int i = 0; i < n; ++i)
      if (live[i]) r = r | (k[i] == key);
    return r;
  }
  int noneIn(u64 lo, u64 hi)  // no live key in (lo,hi]
  {
    int r = 1;
    for (int i = 0; i < n; ++i)
      if (live[i]) r = r & !((k[i] > lo) & (k[i] <= hi));
    return r;
  }
};
Model* md;

typedef MemoryMap<u64> MM;
template <class It>
void checkFloor(It it, u64 p)
{
  if (it->second) {
    u64 r = A(it->first);
    ASSERT(md->isEntry(r, *it->second), "findOrBefore names a key of the map with its value");
    ASSERT((r <= p) & md->noneIn(r, p), "findOrBefore gives the greatest key not above the address");
    COVER("floor-hit");
  } else {
    ASSERT(md->noneIn(0, p), "findOrBefore finds nothing only when no key is at or below the address");
    COVER("floor-miss");
  }
}
template <class M>
void checkIterate(M& m)
{
  int cnt = 0;
  u64 prev = 0;
  auto e = m.end();
  for (auto it = m.begin(); it != e; ++it) {
    if (++cnt > md->nlive) sym_fail("iteration visits each entry once");
    u64 key = A(it->first);
    ASSERT(md->isEntry(key, *it->second), "iteration visits only entries of the map, with their values");
    ASSERT(key > prev, "iteration is in ascending key order");
    prev = key;
  }
  ASSERT(cnt == md->nlive, "iteration visits every entry");
  ASSERT(m.size() == (u64)md->nlive, "size is the number of entries");
}
void checkFind(MM& m, u64 p)
{
  auto it = m.find(P(p));
  if (it != m.end()) {
    ASSERT(md->has(p), "find finds only keys of the map");
    ASSERT(A(it->first) == p, "find gives the key asked for");
    ASSERT(it->second && md->isEntry(p, *it->second), "find gives the value stored under the key");
    COVER("find-hit");
  } else {
    ASSERT(!md->has(p), "find finds every key of the map");
    COVER("find-miss");
  }
  const MM& c = m;
  auto ci = c.find(P(p));
  ASSERT((ci != c.end()) == !!sym_known(md->has(p)), "find on a const map agrees");
  if (ci != c.end()) ASSERT(md->isEntry(p, *ci->second), "find on a const map gives the value stored under the key");
}
void checkAll(MM& m)
{
  const u64 p = symKey("probe");
  switch (sym_choice(3, "final")) {
    case 0: checkFind(m, p); break;
    case 1:
      checkFloor(m.findOrBefore(P(p)), p);
      checkFloor(((const MM&)m).findOrBefore(P(p)), p);
      break;
    default:
      if (sym_choice(2, "constIteration"))
        checkIterate((const MM&)m);
      else
        checkIterate(m);
  }
}

void prefill(MM& m)
{
  const u64 pat = sym_config("pat", 0);
  const int n = prefillCount(pat);
  const u64 ord = sym_config("desc", 0);
  for (int j = 0; j < n; ++j) {
    const int i = ord ? n - 1 - j : j;
    const u64 key = prefillKey(pat, i);
    auto r = m.insert(P(key), (u64)(1000 + i));
    ASSERT(r.second && *r.first->second == (u64)(1000 + i), "insert adds a new key");
    md->add(key, 1000 + i);
  }
}

void memoryMap()
{
  const u64 K = sym_config("k", 3), ops = sym_config("ops", 31);
  MM m;
  prefill(m);
  for (u64 t = 0; t < K; ++t) {
    const unsigned op = sym_choice(5, "op");
    ASSUME((ops >> op) & 1);
    if (op == 0) {
      const u64 key = symKey("key"), val = 10 + t;
      const int i = md->find(key);
      const unsigned how = sym_config("how", 0) ? sym_choice(3, "how") : 0;
      bool added;
      u64 got;
      const std::pair<void*, u64> cp{P(key), val};
      const u64 cv = val;
      if (how == 0) {
        auto r = m.insert(P(key), (u64)val);
        added = r.second, got = *r.first->second;
        ASSERT(A(r.first->first) == key, "insert points at the key");
      } else if (how == 1) {
        auto r = m.insert(P(key), cv);
        added = r.second, got = *r.first->second;
      } else {
        auto r = m.insert(cp);
        added = r.second, got = *r.first->second;
      }
      ASSERT(added == (i < 0), "insert says whether the key was new");
      ASSERT(got == (i < 0 ? val : md->v[i]), "insert keeps the value of a key that was there");
      COVER(i < 0 ? "insert" : "insert-again");
      if (i < 0) md->add(key, val);
    } else if (op == 1) {
      const u64 key = symKey("key");
      const int i = md->find(key);
      bool ok = true;
      try {
        m.erase(P(key));
      } catch (umpire::runtime_error&) {
        ok = false;
      }
      ASSERT(ok == (i >= 0), "erase removes keys of the map and refuses others");
      COVER(ok ? "erase" : "erase-refused");
      if (i >= 0) md->del(i);
    } else if (op == 2) {
      const u64 p = symKey("probe");
      checkFloor(m.findOrBefore(P(p)), p);
    } else if (op == 3) {
      const u64 key = symKey("key");
      const int i = md->find(key);
      auto it = m.find(P(key));
      ASSERT((it != m.end()) == (i >= 0), "find tells whether the key is in the map");
      if (i >= 0) {
        ASSERT(*it->second == md->v[i], "find gives the value");
        *it->second = md->v[i] = 100 + t;
        if (sym_choice(2, "eraseFound")) {
          m.erase(it);
          md->del(i);
          COVER("erase-iter");
        }
      }
    } else {
      m.clear();
      for (int i = 0; i < md->n; ++i)
        if (md->live[i]) md->del(i);
      COVER("clear");
    }
    ASSERT(m.size() == (u64)md->nlive, "size is the number of entries");
  }
  checkAll(m);
  COVER("end");
}

// iterators: independent of each other, copyable, stable over insertions
void iterators()
{
  MM m;
  prefill(m);
  const int n0 = (int)sym_config("n", 3);
  for (int i = 0; i < n0; ++i) {
    u64 key = symKey("key");
    ASSUME(md->find(key) < 0);
    m.insert(P(key), (u64)(10 + i));
    md->add(key, 10 + i);
  }
  const unsigned NI = 2;
  MM::Iterator it[NI] = {m.begin(), m.begin()};
  u64 pos[NI];  // key each iterator stands at (0: end)
  for (unsigned i = 0; i < NI; ++i) pos[i] = A(it[i]->first);
  ASSERT(md->has(pos[0]) & md->noneIn(0, pos[0] - 1), "begin is the smallest key");
  const u64 K = sym_config("k", 3);
  for (u64 t = 0; t < K; ++t) {
    const unsigned op = sym_choice(6, "op"), a = sym_choice(NI, "iter");
    if (op == 0 || op == 1) {  // advance
      ASSUME(pos[a] != 0);
      const u64 was = pos[a];
      if (op == 0)
        ++it[a];
      else {
        auto old = it[a]++;
        ASSERT(A(old->first) == was && md->isEntry(was, *old->second), "post-increment gives the old position");
      }
      if (it[a] == m.end()) {
        pos[a] = 0;
        ASSERT(md->noneIn(was, ~0ull), "an iterator reaches the end after the greatest key");
        COVER("reach-end");
      } else {
        pos[a] = A(it[a]->first);
        ASSERT(md->isEntry(pos[a], *it[a]->second), "an iterator stands at an entry");
        ASSERT((pos[a] > was) & md->noneIn(was, pos[a] - 1), "an iterator advances to the next key");
        COVER("advance");
      }
    } else if (op == 2) {  // assignment
      it[a] = it[1 - a];
      pos[a] = pos[1 - a];
      COVER("assign");
    } else if (op == 3) {  // a lookup moves the shared cursor
      m.findOrBefore(P(symKey("probe")));
    } else if (op == 4) {
      u64 key = symKey("key");
      ASSUME(md->find(key) < 0);
      m.insert(P(key), (u64)(50 + t));
      md->add(key, 50 + t);
    } else {  // advance a copy that lives at the same place every time
      ASSUME(pos[a] != 0);
      for (int r = 0; r < 2; ++r) {
        MM::Iterator c = it[a];
        ++c;
        u64 q = c == m.end() ? 0 : A(c->first);
        if (q)
          ASSERT((q > pos[a]) & md->noneIn(pos[a], q - 1) & md->has(q), "a copy advances to the next key");
        else
          ASSERT(md->noneIn(pos[a], ~0ull), "a copy reaches the end after the greatest key");
      }
      COVER("copy");
    }
    ASSERT((it[0] == it[1]) == (pos[0] == pos[1]), "iterators are equal when they stand at the same key");
    for (unsigned i = 0; i < NI; ++i)
      if (pos[i]) ASSERT((A(it[i]->first) == pos[i]) & md->isEntry(pos[i], *it[i]->second), "an iterator stays where it is");
  }
  COVER("end");
}

// values: constructed once, destroyed once, at stable addresses
int nLive, nCtor, nDtor;
struct Val {
  u64 id;
  Val* self;
  explicit Val(u64 i) : id(i), self(this) { ++nLive, ++nCtor; }
  Val(const Val&) = delete;
  ~Val()
  {
    ASSERT(self == this, "only constructed values are destroyed");
    self = nullptr;
    --nLive, ++nDtor;
  }
};
void lifetimes()
{
  const u64 K = sym_config("k", 4);
  {
    MemoryMap<Val> m;
    Val* at[32];
    for (u64 t = 0; t < K; ++t) {
      const unsigned op = sym_choice(3, "op");
      if (op == 0) {
        const u64 key = symKey("key");
        const int i = md->find(key);
        auto r = m.insert(P(key), (u64)(10 + t));
        ASSERT(r.second == (i < 0), "insert says whether the key was new");
        if (i < 0) {
          int j = md->add(key, 10 + t);
          at[j] = r.first->second;
          for (int q = 0; q < j; ++q)
            if (md->live[q]) ASSERT(at[q] != at[j], "each value has memory of its own");
        } else
          ASSERT(r.first->second == at[i], "values do not move");
      } else if (op == 1) {
        const u64 key = symKey("key");
        const int i = md->find(key);
        try {
          m.erase(P(key));
          ASSERT(i >= 0, "erase refuses keys that are not in the map");
          md->del(i);
          COVER("erase");
        } catch (umpire::runtime_error&) {
          ASSERT(i < 0, "erase removes keys of the map");
        }
      } else {
        m.clear();
        for (int i = 0; i < md->n; ++i)
          if (md->live[i]) md->del(i);
        COVER("clear");
      }
      ASSERT(nLive == md->nlive, "every removed value is destroyed, once");
      for (int i = 0; i < md->n; ++i)
        if (md->live[i]) ASSERT(at[i]->self == at[i] && at[i]->id == md->v[i], "values stay intact until removed");
    }
  }
  ASSERT(nLive == 0 && nCtor == nDtor, "destroying the map destroys every value");
  COVER("end");
}

// ---- AllocationMap
struct Rec {
  u64 p, n, tag;
};
struct AModel {
  enum { MAX = 128 };
  Rec r[MAX];
  int n = 0;
  int top(u64 p)  // most recent record registered at p
  {
    for (int i = n; i-- > 0;)
      if (r[i].p == p) return i;
    return -1;
  }
  void pop(int i)
  {
    for (; i + 1 < n; ++i) r[i] = r[i + 1];
    --n;
  }
  int shadowed(int i)
  {
    int s = 0;
    for (int j = i + 1; j < n; ++j) s = s | (r[j].p == r[i].p);
    return s;
  }
  // record i is the one an address q belongs to
  int owns(int i, u64 q) { return (((q >= r[i].p) & (q - r[i].p < r[i].n)) | (q == r[i].p)) & !shadowed(i); }
  int owned(u64 q)
  {
    int s = 0;
    for (int i = 0; i < n; ++i) s = s | owns(i, q);
    return s;
  }
};
AModel* am;
void checkOwner(const AllocationRecord* r, u64 q)
{
  if (!r) {
    ASSERT(!am->owned(q), "every address inside a registered range is found");
    COVER("lookup-miss");
    return;
  }
  int ok = 0;
  for (int i = 0; i < am->n; ++i)
    ok = ok | (am->owns(i, q) & (A(r->ptr) == am->r[i].p) & (r->size == am->r[i].n) & (A(r->strategy) == am->r[i].tag));
  ASSERT(ok, "a lookup gives the most recent record of the range the address lies in, unchanged");
  COVER("lookup-hit");
}
void lookup(AllocationMap& m, u64 q)
{
  const AllocationMap& c = m;
  const unsigned how = sym_choice(5, "how");
  if (how == 0)
    checkOwner(m.findRecord(P(q)), q);
  else if (how == 1)
    checkOwner(c.findRecord(P(q)), q);
  else if (how == 2) {
    if (m.contains(P(q)))
      ASSERT(am->owned(q), "contains holds only for registered ranges");
    else
      ASSERT(!am->owned(q), "contains holds for registered ranges");
  } else {
    const AllocationRecord* r = nullptr;
    try {
      r = how == 3 ? m.find(P(q)) : c.find(P(q));
      ASSERT(r != nullptr, "find throws instead of giving nothing");
    } catch (umpire::unknown_pointer_error&) {
    }
    checkOwner(r, q);
  }
}
void insertRec(AllocationMap& m, u64 p, u64 n, u64 tag)
{
  AllocationRecord r{P(p), n, (umpire::strategy::AllocationStrategy*)P(tag)};
  m.insert(P(p), r);
  am->r[am->n++] = Rec{p, n, tag};
}
void allocationMap()
{
  const u64 K = sym_config("k", 3), ops = sym_config("ops", 15), pat = sym_config("pat", 0);
  AllocationMap m;
  const int pre = prefillCount(pat);
  for (int i = 0; i < pre; ++i) insertRec(m, prefillKey(pat, i), sym_config("presz", 3), 0x1000 + i);
  for (u64 t = 0; t < K; ++t) {
    const unsigned op = sym_choice(4, "op");
    ASSUME((ops >> op) & 1);
    if (op == 0) {
      const u64 p = symKey("ptr"), n = sym_range(0, sym_config("maxsz", 1ull << 40), "size");
      ASSUME(p <= (1ull << 62));
      int ok = 1;  // ranges at different bases do not overlap
      for (int i = 0; i < am->n; ++i) {
        const u64 e = am->r[i].p + am->r[i].n + (am->r[i].n == 0);
        ok = ok & ((p == am->r[i].p) | (p >= e) | (p + n + (n == 0) <= am->r[i].p));
      }
      ASSUME(ok);
      insertRec(m, p, n, 0x5000 + t);
      COVER("insert");
    } else if (op == 1) {
      const u64 p = symKey("ptr");
      const int i = am->top(p);
      bool done = false;
      try {
        AllocationRecord r = m.remove(P(p));
        done = true;
        ASSERT(i >= 0 && A(r.ptr) == p && r.size == am->r[i].n && A(r.strategy) == am->r[i].tag, "remove gives the most recent record at the address");
      } catch (umpire::runtime_error&) {
      }
      ASSERT(done == (i >= 0), "remove works for every registered base address and refuses others");
      if (i >= 0) am->pop(i);
      COVER(done ? "remove" : "remove-refused");
    } else if (op == 2)
      lookup(m, symKey("probe"));
    else {
      m.clear();
      am->n = 0;
      COVER("clear");
    }
    ASSERT(m.size() == (u64)am->n, "size is the number of records");
  }
  if (sym_choice(2, "final")) {
    lookup(m, symKey("probe"));
  } else {
    int seen[AModel::MAX] = {0}, cnt = 0;
    auto e = m.end();
    for (auto it = m.begin(); it != e; ++it) {
      if (++cnt > am->n) sym_fail("iteration visits each record once");
      const u64 tag = A(it->strategy);
      int hit = 0;
      for (int i = 0; i < am->n; ++i)
        if (am->r[i].tag == tag) {
          ASSERT(!seen[i] & (A(it->ptr) == am->r[i].p) & (it->size == am->r[i].n), "iteration gives each record once, unchanged");
          seen[i] = hit = 1;
        }
      ASSERT(hit, "iteration gives only records of the map");
    }
    ASSERT(cnt == am->n, "iteration gives every record");
    COVER("iterated");
  }
  COVER("end");
}

// ---- FixedMallocPool
void mallocPool()
{
  static const u64 objs[] = {1, 4, 8, 24};
  const u64 K = sym_config("k", 5);
  const u64 obj = objs[sym_choice(4, "obj")], per = 1 + sym_choice((unsigned)sym_config("maxper", 3), "per");
  unsigned char* p[64];
  u64 tag[64];
  bool live[64];
  int n = 0, nl = 0, peak = 0;
  {
    umpire::util::FixedMallocPool pool(obj, per);
    const int pre = (int)sym_config("pre", 0);
    for (u64 t = 0; t < K + pre; ++t) {
      const unsigned op = t < (u64)pre ? 0 : sym_choice(2, "op");
      if (op == 0) {
        auto* q = (unsigned char*)pool.allocate();
        ASSERT(q, "allocate gives memory");
        for (int i = 0; i < n; ++i)
          if (live[i]) ASSERT((p[i] + obj <= q) | (q + obj <= p[i]), "objects do not overlap");
        ASSERT(obj % 8 || A(q) % 8 == 0, "objects are aligned like malloc memory where their size allows it");
        u64 v = 0x1111111111111111ull * (t % 14 + 1);
        memset(q, (int)(v & 0xff), obj);
        p[n] = q, tag[n] = v & 0xff, live[n++] = true;
        if (++nl > peak) peak = nl;
      } else {
        ASSUME(nl > 0);
        unsigned c = sym_choice((unsigned)nl, "which");
        int i = 0;
        for (;; ++i)
          if (live[i] && c-- == 0) break;
        pool.deallocate(p[i]);
        live[i] = false;
        --nl;
        COVER("dealloc");
      }
      for (int i = 0; i < n; ++i)
        if (live[i])
          for (u64 j = 0; j < obj; ++j) ASSERT(p[i][j] == tag[i], "the pool never touches a live object");
      ASSERT(pool.numPools() == (u64)((peak + per - 1) / per) || (peak == 0 && pool.numPools() == 1), "freed objects are reused before memory is added");
      if (pool.numPools() > 1) COVER("grown");
    }
    bool refused = false;
    try {
      pool.deallocate(&refused);
    } catch (umpire::runtime_error&) {
      refused = true;
    }
    ASSERT(refused, "memory that is not of the pool is refused");
  }
  COVER("end");
}

// ---- printing the records that satisfy a predicate
void printRecords()
{
  const u64 K = sym_config("k", 4);
  static const u64 kBase[2] = {0x10000, 0x20000};
  struct {
    u64 p, tag;
    bool live;
    int asked;
  } r[8];
  int n = 0;
  AllocationMap m;
  for (u64 k = 0; k < K; ++k) {
    const u64 p = kBase[sym_choice(2, "base")];
    int top = -1;
    for (int i = 0; i < n; ++i)
      if (r[i].live && r[i].p == p) top = i;
    if (top >= 0 && sym_choice(2, "remove")) {
      m.remove(P(p));
      r[top].live = false;
      COVER("removed");
      continue;
    }
    const u64 tag = 0x1000 + sym_choice(2, "owner");
    m.insert(P(p), AllocationRecord{P(p), (std::size_t)(101 + n), (umpire::strategy::AllocationStrategy*)P(tag), std::string("name") + (char)('A' + n)});
    r[n].p = p;
    r[n].tag = tag;
    r[n].live = true;
    r[n++].asked = 0;
  }
  const u64 want = 0x1000 + sym_choice(2, "wanted");
  std::stringstream ss;
  m.print(
      [&](const AllocationRecord& x) {
        const int i = (int)x.size - 101;
        if (i >= 0 && i < n) ++r[i].asked;
        return A(x.strategy) == want;
      },
      ss);
  const std::string t = ss.str();
  auto count = [&](const std::string& x) {
    int c = 0;
    for (size_t i = 0; (i = t.find(x, i)) != std::string::npos; ++i) ++c;
    return c;
  };
  for (int i = 0; i < n; ++i) {
    ASSERT(r[i].asked == (r[i].live ? 1 : 0), "print asks about every live record once");
    const int shown = r[i].live && r[i].tag == want;
    ASSERT(count("size: " + std::to_string(101 + i) + ",") == shown && count(std::string("name") + (char)('A' + i)) == shown, "print shows exactly the records that satisfy the predicate");
    if (shown) COVER("shown");
    else
      COVER("not-shown");
  }
  COVER("end");
}
}  // namespace
extern "C" void harness_main()
{
  md = new Model;
  am = new AModel;
  switch (sym_config("which", 0)) {
    case 0: memoryMap(); break;
    case 1: allocationMap(); break;
    case 2: mallocPool(); break;
    case 3: iterators(); break;
    case 4: lifetimes(); break;
    case 5: printRecords(); break;
  }
}
