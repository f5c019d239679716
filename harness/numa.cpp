// NUMA placement (UMPIRE_ENABLE_NUMA).  libnuma and the mbind system call are modelled: a machine with up to 4 nodes, and the
// binding of one arbitrary byte followed through every mbind.
// cfg: which (0 allocate with NumaPolicy, 1 move, 2 node queries, 3 HOST of a NUMA build)
#include <errno.h>
#include <numa.h>
#include <numaif.h>
#include <stdlib.h>
#include <unistd.h>

#include "common.hpp"
#include "umpire/ResourceManager.hpp"
#include "umpire/resource/MemoryResource.hpp"
#include "umpire/strategy/NumaPolicy.hpp"
#include "umpire/strategy/QuickPool.hpp"
#include "umpire/util/numa.hpp"
using namespace vf;
using umpire::Allocator;
using umpire::ResourceManager;

// ---- the machine
static const u64 PAGE = 4096;
static unsigned maxNode = 3;
static int usable = 0;       // what numa_available answers
static unsigned present = 15, withCpus = 15, allowed = 15;
static bool cpusFail = false;
static int masks = 0;        // bit masks allocated and not freed
static int nbind = 0, nbindFailed = 0;
static bool bindMayFail = false;
static u64 probe = 0, bound = 0;  // a byte, and the nodes it was bound to (0: never)
static struct bitmask all0;
static unsigned long allBits;
extern "C" {
struct bitmask* numa_all_nodes_ptr = &all0;
struct bitmask* numa_nodes_ptr = &all0;
int numa_available(void) { return usable; }
int numa_max_node(void) { return (int)maxNode; }
int numa_max_possible_node(void) { return (int)maxNode; }
int numa_num_configured_nodes(void) { return (int)maxNode + 1; }
int numa_num_possible_nodes(void) { return (int)maxNode + 1; }
int numa_preferred(void) { return 1; }
struct bitmask* numa_bitmask_alloc(unsigned n)
{
  ASSERT(n > 0 && n <= 64, "node and cpu masks have as many bits as the machine has nodes or cpus");
  struct bitmask* m = (struct bitmask*)malloc(sizeof(struct bitmask));
  m->size = n;
  m->maskp = (unsigned long*)calloc(1, 8);
  ++masks;
  return m;
}
void numa_bitmask_free(struct bitmask* m)
{
  if (!m) return;
  free(m->maskp);
  free(m);
  --masks;
}
struct bitmask* numa_bitmask_clearall(struct bitmask* m)
{
  *m->maskp = 0;
  return m;
}
struct bitmask* numa_bitmask_setall(struct bitmask* m)
{
  *m->maskp = m->size == 64 ? ~0ul : (1ul << m->size) - 1;
  return m;
}
struct bitmask* numa_bitmask_setbit(struct bitmask* m, unsigned i)
{
  if (i < m->size) *m->maskp |= 1ul << i;
  return m;
}
struct bitmask* numa_bitmask_clearbit(struct bitmask* m, unsigned i)
{
  if (i < m->size) *m->maskp &= ~(1ul << i);
  return m;
}
int numa_bitmask_isbitset(const struct bitmask* m, unsigned i) { return i < m->size ? (int)((*m->maskp >> i) & 1) : 0; }
unsigned numa_bitmask_weight(const struct bitmask* m)
{
  unsigned w = 0;
  for (unsigned i = 0; i < m->size; ++i) w += (unsigned)((*m->maskp >> i) & 1);
  return w;
}
unsigned numa_bitmask_nbytes(struct bitmask*) { return 8; }
struct bitmask* numa_allocate_cpumask(void) { return numa_bitmask_alloc(8); }
struct bitmask* numa_allocate_nodemask(void) { return numa_bitmask_alloc(maxNode + 1); }
int numa_node_to_cpus(int node, struct bitmask* m)
{
  if (cpusFail || node < 0 || node > (int)maxNode) return -1;
  *m->maskp = (withCpus >> node) & 1 ? 3ul << (2 * node) : 0;  // two cpus on each node that has any
  return 0;
}
struct bitmask* numa_get_mems_allowed(void)
{
  struct bitmask* m = numa_bitmask_alloc(maxNode + 1);
  *m->maskp = allowed;
  return m;
}
long mbind(void* start, unsigned long len, int mode, const unsigned long* nmask, unsigned long maxnode, unsigned flags)
{
  ++nbind;
  u64 a = A(start);
  u64 nodes = maxnode > 1 ? *nmask & (maxnode > 64 ? ~0ull : (1ull << (maxnode - 1)) - 1) : 0;
  int bad = ((a & (PAGE - 1)) != 0) | (mode == MPOL_BIND && nodes == 0) | ((nodes & ~(u64)present) != 0);
  const bool stuck = !bad && bindMayFail && sym_choice(2, "mbind_fails");
  if (stuck && !(flags & MPOL_MF_STRICT)) return 0;  // pages that cannot be moved are only reported on request
  if (bad || stuck) {
    ++nbindFailed;
    errno = bad ? EINVAL : EIO;
    return -1;
  }
  u64 end = (a + len + PAGE - 1) & ~(PAGE - 1);
  // pages that exist already stay where they are unless moving is asked for
  if ((flags & (MPOL_MF_MOVE | MPOL_MF_MOVE_ALL)) && mode == MPOL_BIND)
    if ((probe >= a) & (probe < end)) bound = nodes;
  return 0;
}
long get_mempolicy(int* mode, unsigned long*, unsigned long, void* addr, unsigned flags)
{
  if (flags != (MPOL_F_NODE | MPOL_F_ADDR)) {
    errno = EINVAL;
    return -1;
  }
  if (sym_choice(2, "mempolicy_fails")) {
    errno = EFAULT;
    return -1;
  }
  *mode = (int)((A(addr) / PAGE) & 3);
  return 0;
}
long verif_sysconf(int n) { return n == _SC_PAGESIZE ? (long)PAGE : sysconf(n); }
int verif_getpagesize(void) { return (int)PAGE; }
}

namespace {
struct Stub : Upstream {
  Stub(const std::string& n, int id) : Upstream(n.c_str(), id)
  {
    layout = 1;
    align = PAGE;
    maxBytes = 1ull << 41;
  }
};
int node(const char* n) { return (int)sym_u32(n); }
// the last byte of the last page of a block, plus one
u64 pageEnd(u64 p, u64 n) { return (p + n + PAGE - 1) & ~(PAGE - 1); }

void makeMachine()
{
  maxNode = sym_choice(4, "max_node");
  present = (2u << maxNode) - 1;
}

void policy()
{
  auto& rm = ResourceManager::getInstance();
  Allocator up = rm.makeAllocator<Stub>("S");
  Stub* st = dynamic_cast<Stub*>(up.getAllocationStrategy());
  makeMachine();
  const int n = node("node");
  bool threw = false;
  Allocator al;
  try {
    al = rm.makeAllocator<umpire::strategy::NumaPolicy>("numa", up, n);
  } catch (umpire::runtime_error&) {
    threw = true;
  }
  ASSERT(threw == (n < 0), "a NumaPolicy is refused exactly when its node is negative");
  if (threw) {
    ASSERT(!rm.isAllocator("numa"), "a refused NumaPolicy is not registered");
    COVER("refused");
    return;
  }
  ASSERT(dynamic_cast<umpire::strategy::NumaPolicy*>(al.getAllocationStrategy())->getNode() == n, "getNode gives the node the policy was made for");
  ASSERT(al.getPlatform() == umpire::Platform::host, "memory of a host node is host memory");
  probe = sym_u64("probe");
  const int k = (int)sym_config("k", 2);
  u64 p[4], sz[4];
  u64 total = 0, hwm = 0;
  int live = 0;
  for (int i = 0; i < k; ++i) {
    p[i] = 0;
    sz[i] = sym_range(1, 1ull << 30, "size");
    usable = sym_choice(2, "numa_unusable") ? -1 : 0;
    bindMayFail = true;
    st->mayFail = (int)sym_config("fail", 1);
    const u64 before = bound;
    const int nf = st->nfailed, nb = nbindFailed;
    const int sl = st->live;
    try {
      p[i] = A(al.allocate(sz[i]));
    } catch (umpire::runtime_error&) {
    }
    st->mayFail = 0;
    ASSERT((p[i] == 0) == (st->nfailed > nf || nbindFailed > nb || usable < 0),
           "allocate fails exactly when the memory cannot be had or cannot be bound");
    if (p[i]) {
      COVER("allocated");
      total += sz[i];
      ++live;
      if (total > hwm) hwm = total;
      ASSERT(n <= (int)maxNode, "memory cannot be bound to a node that does not exist");
      ASSERT(st->contains(p[i], sz[i]), "the block lies in memory obtained from the underlying allocator");
      if ((probe >= p[i]) & (probe - p[i] < sz[i])) {
        ASSERT(bound == 1ull << n, "every byte of the block is bound to the policy's node and no other");
        COVER("probe-in");
      } else if ((probe < p[i]) | (probe >= pageEnd(p[i], sz[i])))
        ASSERT(bound == before, "pages outside the block keep their binding");
    } else {
      ASSERT(st->live == sl, "a failed allocate gives what it obtained back to the underlying allocator");
      COVER("failed");
    }
    ASSERT(masks == 0, "no node mask is left allocated");
    ASSERT(al.getCurrentSize() == total && al.getAllocationCount() == (u64)live && al.getHighWatermark() == hwm, "the policy counts exactly the blocks it gave out");
    ASSERT(up.getCurrentSize() == total && up.getAllocationCount() == (u64)live, "the underlying allocator counts exactly the blocks the policy holds");
  }
  for (int i = 0; i < k; ++i)
    if (p[i]) al.deallocate((void*)(uintptr_t)p[i]);
  ASSERT(st->live == 0 && up.getCurrentSize() == 0 && al.getCurrentSize() == 0, "deallocate gives the memory back to the underlying allocator");
  COVER("end");
}

void moving()
{
  auto& rm = ResourceManager::getInstance();
  Allocator up = rm.makeAllocator<Stub>("S");
  Stub* st = dynamic_cast<Stub*>(up.getAllocationStrategy());
  makeMachine();
  const int a = (int)sym_choice(maxNode + 1, "from"), b = (int)sym_choice(maxNode + 2, "to");
  Allocator from = rm.makeAllocator<umpire::strategy::NumaPolicy>("from", up, a);
  Allocator to = rm.makeAllocator<umpire::strategy::NumaPolicy>("to", up, b);
  const int src = (int)sym_choice(3, "source");  // the plain allocator, the first policy, the target itself
  Allocator& s = src == 0 ? up : src == 1 ? from : to;
  probe = sym_u64("probe");
  const u64 sz = sym_range(0, 1ull << 30, "size");
  if (src == 2) ASSUME((b <= (int)maxNode) | (sz == 0));
  const u64 other = 2 * PAGE;  // a neighbour, which must not be affected
  const u64 q = A(s.allocate(sz));
  const u64 r = A(up.allocate(other));
  usable = sym_choice(2, "numa_unusable") ? -1 : 0;
  bindMayFail = true;
  const u64 before = bound;
  const int nb = nbind, nf = nbindFailed, na = st->nalloc, nd = st->nfree;
  const u64 off = sym_u64("offset");
  ASSUME((off == 0) | (off < sz));
  void* res = nullptr;
  bool threw = false;
  try {
    res = rm.move((void*)(uintptr_t)(q + off), to);
  } catch (umpire::runtime_error&) {
    threw = true;
  }
  const bool failed = nbindFailed > nf;
  ASSERT(masks == 0, "no node mask is left allocated");
  ASSERT(st->nalloc == na && st->nfree == nd, "a move to a NUMA node neither allocates nor frees");
  ASSERT(rm.getAllocator((void*)(uintptr_t)q).getId() == s.getId() && rm.getSize((void*)(uintptr_t)q) == sz,
         "the allocation keeps its allocator and its size");
  if (src == 2) {
    if (off == 0) ASSERT(!threw && A(res) == q && bound == before, "memory that is on the node already stays as it is");
    COVER("same");
  } else if (off != 0) {
    ASSERT(threw, "an offset pointer is refused");
    ASSERT(bound == before, "a refused move binds nothing");
    COVER("offset");
  } else {
    ASSERT(threw == (sz != 0 && (failed || usable < 0)), "a move fails exactly when the memory cannot be bound");
    if (!threw) {
      ASSERT(A(res) == q, "the memory stays at its address");
      if (sz) ASSERT(b <= (int)maxNode, "memory cannot be moved to a node that does not exist");
    }
    if (!threw && (probe >= q) & (probe - q < sz)) {
      ASSERT(bound == 1ull << b, "every byte of the allocation is bound to the new node and no other");
      COVER("moved");
    } else if ((probe < q) | (probe >= pageEnd(q, sz)))
      ASSERT(bound == before, "pages outside the allocation keep their binding");
    if (threw) {
      ASSERT(bound == before, "a failed move leaves the binding as it was");
      COVER("move-failed");
    }
  }
  (void)nb;
  s.deallocate((void*)(uintptr_t)q);
  up.deallocate((void*)(uintptr_t)r);
  ASSERT(st->live == 0 && up.getCurrentSize() == 0 && from.getCurrentSize() == 0 && to.getCurrentSize() == 0,
         "afterwards the memory is given back through the allocator it came from");
  COVER("end");
}

template <typename F>
void nodes(F f, unsigned want, bool mayFailCpus, const char* msg)
{
  bool threw = false;
  std::vector<int> v;
  try {
    v = f();
  } catch (umpire::runtime_error&) {
    threw = true;
  }
  ASSERT(threw == (usable < 0 || (mayFailCpus && cpusFail && present != 0)), "a node query fails exactly when libnuma cannot answer");
  ASSERT(masks == 0, "no node mask is left allocated");
  if (threw) {
    COVER("query-failed");
    return;
  }
  COVER("query");
  unsigned got = 0;
  int last = -1;
  for (int x : v) {
    ASSERT(x > last && x <= (int)maxNode, "nodes are listed once each, in order");
    last = x;
    got |= 1u << x;
  }
  ASSERT(got == want, msg);
}

void queries()
{
  maxNode = sym_choice(4, "max_node");
  const unsigned lim = (2u << maxNode) - 1;
  present = sym_u32("present");
  withCpus = sym_u32("with_cpus");
  allowed = sym_u32("allowed");
  ASSUME((present <= lim) & (withCpus <= lim) & (allowed <= lim));
  cpusFail = sym_choice(2, "cpus_fail");
  usable = sym_choice(2, "numa_unusable") ? -1 : 0;
  all0.size = maxNode + 1;
  all0.maskp = &allBits;
  allBits = present;
  switch (sym_choice(5, "query")) {
    case 0:
      nodes([] { return umpire::numa::get_host_nodes(); }, present & withCpus, true, "the host nodes are the nodes with cpus");
      break;
    case 1:
      nodes([] { return umpire::numa::get_device_nodes(); }, present & ~withCpus, true, "the device nodes are the nodes without cpus");
      break;
    case 2:
      nodes([] { return umpire::numa::get_allocatable_nodes(); }, allowed, false, "the allocatable nodes are those this process may use");
      break;
    case 3: {
      bool threw = false;
      int n = -2;
      try {
        n = umpire::numa::preferred_node();
      } catch (umpire::runtime_error&) {
        threw = true;
      }
      ASSERT(threw == (usable < 0) && (threw || n == 1), "the preferred node is libnuma's");
      break;
    }
    case 4: {
      u64 x = sym_u64("address");
      bool threw = false;
      int n = -2;
      try {
        n = umpire::numa::get_location((void*)(uintptr_t)x);
      } catch (umpire::runtime_error&) {
        threw = true;
      }
      if (!threw) {
        ASSERT(n == (int)((x / PAGE) & 3), "get_location gives the node the kernel names for the address");
        COVER("location");
      } else
        COVER("location-failed");
      break;
    }
  }
  COVER("end");
}

void host()
{
  auto& rm = ResourceManager::getInstance();
  Allocator h = rm.getAllocator("HOST");
  const u64 szs[4] = {1, 4095, 4096, 10000};
  const u64 n = szs[sym_choice(4, "size")];
  unsigned char* p = (unsigned char*)h.allocate(n);
  ASSERT((A(p) & (PAGE - 1)) == 0, "HOST memory of a NUMA build starts on a page, so that it can be bound");
  const u64 at = sym_choice(2, "at") ? n - 1 : 0;
  const unsigned char c = sym_u8("byte");
  p[at] = c;
  Allocator a = rm.makeAllocator<umpire::strategy::NumaPolicy>("a", h, 1);
  probe = A(p) + at;
  unsigned char* q = (unsigned char*)rm.move(p, a);
  ASSERT(q == p && p[at] == c && bound == 2, "a move to a node keeps the contents");
  unsigned char* z = (unsigned char*)a.allocate(n);
  z[at] = c;
  unsigned char* back = (unsigned char*)rm.move(z, h);
  ASSERT(back[at] == c && back != z && rm.getAllocator(back).getId() == h.getId(), "a move to an allocator without a node copies");
  ASSERT(a.getCurrentSize() == 0 && h.getCurrentSize() == 2 * n, "accounts follow the moves");
  h.deallocate(back);
  h.deallocate(p);
  ASSERT(h.getCurrentSize() == 0, "accounts follow the moves");
  COVER("end");
}

// the HOST resource of a NUMA build by itself
void paged()
{
  const umpire::Platform kPlat[6] = {umpire::Platform::undefined, umpire::Platform::host, umpire::Platform::cuda,
                                     umpire::Platform::omp_target, umpire::Platform::hip, umpire::Platform::sycl};
  auto& rm = ResourceManager::getInstance();
  Allocator h = rm.getAllocator("HOST");
  auto* r = dynamic_cast<umpire::resource::MemoryResource*>(h.getAllocationStrategy());
  ASSERT(r != nullptr, "HOST is a memory resource");
  const unsigned pl = sym_choice(6, "plat");
  const bool acc = r->isAccessibleFrom(kPlat[pl]);
  if (pl == 1 || pl == 2 || pl == 4 || pl == 5) ASSERT(acc == (pl == 1), "host memory is accessible from the host only");
  const u64 live = sym_heap_live();
  unsigned char* p[3];
  u64 n[3];
  int c = 0;
  for (u64 k = 0; k < 3; ++k) {
    const unsigned s = sym_choice(4, "size");
    const u64 sz = s == 0 ? 1 : s == 1 ? 24 : s == 2 ? 5000 : ~0ull - 4096 + sym_range(0, 4096, "huge");
    bool threw = false;
    try {
      p[c] = (unsigned char*)r->allocate(sz);
    } catch (umpire::out_of_memory_error&) {
      threw = true;
    }
    ASSERT(threw == (s == 3), "allocating fails exactly when there is no memory");
    if (threw) {
      COVER("alloc-failed");
      continue;
    }
    n[c] = sz;
    memset(p[c], (int)(k + 1), sz);
    for (int i = 0; i < c; ++i) ASSERT(disjoint(A(p[i]), n[i], A(p[c]), sz), "blocks do not overlap");
    ++c;
    if (sym_choice(2, "free")) {
      r->deallocate(p[c - 1], sz);
      --c;
      COVER("dealloc");
    }
  }
  while (c) --c, r->deallocate(p[c], n[c]);
  ASSERT(sym_heap_live() == live, "memory given back is given back to the system");
  COVER("end");
}
}  // namespace

extern "C" void harness_main()
{
  switch (sym_config("which", 0)) {
    case 0: policy(); break;
    case 1: moving(); break;
    case 2: queries(); break;
    case 3: host(); break;
    case 4: paged(); break;
  }
}
