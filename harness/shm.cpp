// HostSharedMemoryResource: two handles ("processes") on one segment, each with a mapping of its own, over modelled system calls.
// The mappings are kept coherent by copying the segment when the acting process changes, so anything stored as a raw address of
// one mapping is stale in the other.
// which=1: two threads on one handle; which=2: two processes that open the same segment at the same time (as threads, one memory)
// cfg: k, size (segment size; 0: symbolic choice), names, procs, groups, maxsz
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "common.hpp"
#include "umpire/resource/HostSharedMemoryResource.hpp"
using namespace vf;
using umpire::resource::HostSharedMemoryResource;

namespace {
const u64 PAGE = 4096;
struct Os {
  bool exists = false;
  u64 size = 0;
  int nmap = 0, openFds = 0, actor = 0, last = -1;
  unsigned char* map[2] = {nullptr, nullptr};
  u64 mapLen[2] = {0, 0};
  bool failTruncate = false, failMap = false;
} os;
void act(int p)
{
  if (os.last >= 0 && os.last != p && os.map[p] && os.map[os.last]) memcpy(os.map[p], os.map[os.last], os.size);
  os.actor = p;
  if (os.map[p]) os.last = p;
}
}  // namespace

namespace {
// which=2: the state of the system is kept in relaxed atomics, so that the system calls order nothing between the processes, and
// every call is a point at which the other process may go on
bool both = false;
int seg;           // 0 no such segment 1 there
u64 segSize;
unsigned char* segMem;
int meOpen[2], meMap[2];
template <typename T>
T rd(T& x) { return __atomic_load_n(&x, __ATOMIC_RELAXED); }
template <typename T>
void wr(T& x, T v) { __atomic_store_n(&x, v, __ATOMIC_RELAXED); }
}  // namespace

extern "C" {
int verif_shm_open(const char* name, int flags, mode_t)
{
  if (both) {
    sched_yield();
    if (flags & O_CREAT) {
      if (rd(seg) && (flags & O_EXCL)) {
        errno = EEXIST;
        return -1;
      }
      wr(seg, 1);
    } else if (!rd(seg)) {
      errno = ENOENT;
      return -1;
    }
    return 60;
  }
  ASSERT(name && name[0] == '/', "segment names start with a slash");
  if (flags & O_CREAT) {
    if (os.exists && (flags & O_EXCL)) {
      errno = EEXIST;
      return -1;
    }
    os.exists = true;
    os.size = 0;
  } else if (!os.exists) {
    errno = ENOENT;
    return -1;
  }
  ++os.openFds;
  return 50 + os.actor;
}
int verif_fchmod(int, mode_t) { return 0; }
int verif_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
  if (both) sched_yield();
  return pthread_mutex_init(m, a);
}
int verif_ftruncate(int fd, off_t n)
{
  if (both) {
    sched_yield();
    wr(segSize, (u64)n);
    return 0;
  }
  ASSERT(fd == 50 + os.actor, "the segment's own descriptor is used");
  if (os.failTruncate || n < 0) {
    errno = EINVAL;
    return -1;
  }
  os.size = (u64)n;
  return 0;
}
int verif_fstat(int fd, struct stat* st)
{
  if (both) {
    sched_yield();
    st->st_size = (off_t)rd(segSize);
    return 0;
  }
  ASSERT(fd == 50 + os.actor, "the segment's own descriptor is used");
  st->st_size = (off_t)os.size;
  return 0;
}
void* verif_mmap(void*, size_t len, int, int, int fd, off_t off)
{
  if (both) {
    sched_yield();
    ASSERT(rd(segSize) != 0 && len == rd(segSize) && off == 0, "the whole segment is mapped, once it has its size");
    return segMem;
  }
  ASSERT(fd == 50 + os.actor && off == 0, "the segment's own descriptor is mapped from its start");
  if (os.failMap || len == 0) {
    errno = EINVAL;
    return MAP_FAILED;
  }
  const int p = os.actor;
  os.map[p] = (unsigned char*)malloc(len);
  os.mapLen[p] = len;
  if (os.last >= 0)
    memcpy(os.map[p], os.map[os.last], len);
  else
    memset(os.map[p], 0, len);
  os.last = p;
  ++os.nmap;
  return os.map[p];
}
int verif_munmap(void* a, size_t len)
{
  if (both) return 0;
  ASSERT(a == os.map[os.actor] && len == os.mapLen[os.actor], "the mapping made is the one unmapped");
  free(a);
  if (os.last == os.actor) os.last = -1;
  os.map[os.actor] = nullptr;
  --os.nmap;
  return 0;
}
int verif_shm_unlink(const char*)
{
  if (both) return 0;
  os.exists = false;
  return 0;
}
int verif_close(int fd)
{
  if (both) return 0;
  ASSERT(fd == 50 + os.actor, "the segment's own descriptor is closed");
  --os.openFds;
  return 0;
}
}

namespace {
struct Blk {
  int name;
  u64 off, n;
  int refs;
  int held[2];
  unsigned char fill;
} b[16];
int nb = 0, live = 0;
const char* const kName[6] = {"a", "b", "a_rather_long_name_of_a_block", "", "c", "d"};
u64 groups;

int byName(int c)
{
  for (int i = 0; i < nb; ++i)
    if (b[i].refs && b[i].name == c) return i;
  return -1;
}
}  // namespace

namespace {
// two threads of one process on one handle, each with names of its own
HostSharedMemoryResource* one;
u64 TK;
void shmThread(void* a)
{
  const int me = *(int*)a;
  const char* nm[2] = {me ? "b0" : "a0", me ? "b1" : "a1"};
  void* have[2] = {nullptr, nullptr};
  for (u64 k = 0; k < TK; ++k) {
    const unsigned c = sym_choice(2, "name"), op = sym_choice(3, "op");
    if (op == 0) {
      ASSUME(!have[c]);
      have[c] = one->allocate_named(nm[c], 16);
      memset(have[c], 0x30 + me * 2 + (int)c, 16);
      COVER("allocate");
    } else if (op == 1) {
      ASSUME(have[c]);
      one->deallocate(have[c], 16);
      have[c] = nullptr;
      COVER("free");
    } else {
      ASSERT(one->find_pointer_from_name(nm[c]) == have[c], "a thread finds exactly the names it holds");
      (void)one->getActualSize();
      COVER("find");
    }
    for (int i = 0; i < 2; ++i)
      for (int x = 0; x < 16 && have[i]; ++x)
        ASSERT(((unsigned char*)have[i])[x] == 0x30 + me * 2 + i, "the contents of a thread's block are left alone");
  }
  for (int i = 0; i < 2; ++i)
    if (have[i]) one->deallocate(have[i], 16);
}
void threads()
{
  TK = sym_config("k", 2);
  umpire::MemoryResourceTraits tr;
  tr.size = 1024;
  one = new HostSharedMemoryResource(umpire::Platform::host, "seg", 5, tr);
  const u64 empty = one->getActualSize();
  static int id[2] = {0, 1};
  int t[2];
  for (int i = 0; i < 2; ++i) t[i] = sym_thread_create(shmThread, &id[i]);
  for (int i = 0; i < 2; ++i) sym_thread_join(t[i]);
  ASSERT(one->getActualSize() == empty, "after everything is freed the segment is empty");
  delete one;
  COVER("end");
}
HostSharedMemoryResource* hb[2];
void* got[2];
u64 SZ;
void procThread(void* a)
{
  const int me = *(int*)a;
  umpire::MemoryResourceTraits tr;
  tr.size = SZ;
  hb[me] = new HostSharedMemoryResource(umpire::Platform::host, "seg", 5 + me, tr);
  const bool same = sym_choice(2, "same");
  const char* nm = same ? "x" : me ? "b" : "a";
  got[me] = hb[me]->allocate_named(nm, 32);
  ASSERT(inside(A(got[me]) - A(segMem), 32, 1, SZ - 1), "a block lies inside the segment, clear of its header");
  ASSERT(hb[me]->find_pointer_from_name(nm) == got[me], "a name leads to its memory in every process");
  COVER(same ? "shared" : "own");
  if (!same) {
    memset(got[me], 1 + me, 32);
    for (int i = 0; i < 32; ++i) ASSERT(((unsigned char*)got[me])[i] == 1 + me, "the contents of a process's own block are left alone");
  }
  hb[me]->deallocate(got[me], 32);
}
void opening()
{
  SZ = 1024;
  segMem = (unsigned char*)malloc(SZ);
  memset(segMem, 0, SZ);
  both = true;
  static int id[2] = {0, 1};
  int t[2];
  for (int i = 0; i < 2; ++i) t[i] = sym_thread_create(procThread, &id[i]);
  for (int i = 0; i < 2; ++i) sym_thread_join(t[i]);
  const u64 used = hb[0]->getActualSize();
  ASSERT(used == hb[1]->getActualSize(), "both processes see the one segment");
  void* q = hb[1]->allocate_named("all", SZ - 256);
  hb[0]->deallocate(q, SZ - 256);
  ASSERT(hb[0]->getActualSize() == used, "after everything is freed the segment is empty");
  for (int i = 0; i < 2; ++i) delete hb[i];
  COVER("end");
}
}  // namespace

extern "C" void harness_main()
{
  if (sym_config("which", 0) == 1) return threads();
  if (sym_config("which", 0) == 2) return opening();
  const u64 K = sym_config("k", 4);
  const unsigned names = (unsigned)sym_config("names", 3);
  const int procs = (int)sym_config("procs", 2);
  const u64 maxsz = sym_config("maxsz", 64);
  const u64 ops = sym_config("ops", 7);
  const u64 pre = sym_config("pre", 0);  // 6: four blocks are allocated and the first and third freed before the history begins
  u64 size = sym_config("size", 512);
  if (!size) size = 8 * sym_choice(64, "segment_size");
  umpire::MemoryResourceTraits tr;
  tr.size = size;
  HostSharedMemoryResource* h[2] = {nullptr, nullptr};
  const bool faults = sym_config("faults", 0);
  for (int p = 0; p < procs; ++p) {
    act(p);
    if (faults) {
      const unsigned f = sym_choice(3, "fault");
      os.failTruncate = f == 1;
      os.failMap = f == 2;
    }
    const bool existed = os.exists;
    const int fds = os.openFds, maps = os.nmap;
    try {
      h[p] = new HostSharedMemoryResource(umpire::Platform::host, "seg", 5 + p, tr);
    } catch (umpire::runtime_error&) {
      ASSERT(os.openFds == fds && os.nmap == maps, "a handle that cannot be made leaves nothing open or mapped");
      ASSERT(os.exists == existed, "a segment that cannot be made does not stay behind half-made");
      ASSERT(size < 512 || os.failTruncate || os.failMap, "a segment large enough for an allocation can be made");
      COVER(os.failTruncate ? "truncate-failed" : os.failMap ? "map-failed" : "too-small");
      return;
    }
  }
  os.failTruncate = os.failMap = false;
  const u64 empty = h[0]->getActualSize();
  ASSERT(empty <= size, "what an empty segment uses is not more than the segment");
  for (u64 k = 0; k < K; ++k) {
    const int p = procs > 1 ? (int)sym_choice((unsigned)procs, "process") : 0;
    const unsigned op = k < pre ? (k < 4 ? 0 : 1) : sym_choice(3, "op");
    ASSUME((ops >> op) & 1);
    act(p);
    if (op == 0) {
      const int c = k < pre ? (int)k : (int)sym_choice(names, "name");
      const int i = byName(c);
      u64 n;
      if (i >= 0)
        n = b[i].n;
      else if (pre)
        n = k < pre && (k & 1) ? 8 : (u64[]){8, 40, 72}[sym_choice(3, "size")];
      else if (sym_choice(2, "huge")) {
        n = sym_u64("huge_size");
        ASSUME(n > size);
      } else
        n = maxsz > 512 ? sym_range(1, maxsz, "size") : 1 + sym_choice((unsigned)maxsz / 8, "size") * 8;
      void* q = nullptr;
      bool threw = false;
      try {
        q = h[p]->allocate_named(kName[c], n);
      } catch (umpire::out_of_memory_error&) {
        threw = true;
      }
      if (threw) {
        ASSERT(i < 0, "attaching to an allocation that exists does not fail");
        // a first-fit search over 16-byte units: the request plus its name and at most 128 bytes of bookkeeping must not fit anywhere
        COVER("full");
        if (live == 0 && size >= 512) ASSERT(n > 256, "an empty segment can serve a request of half its size");
        continue;
      }
      const u64 off = A(q) - A(os.map[p]);
      ASSERT((off & 15) == 0, "blocks are aligned");
      if (i >= 0) {
        ASSERT(off == b[i].off, "allocating a name that exists gives the same memory in every process");
        b[i].refs++;
        b[i].held[p]++;
        COVER("attach");
      } else {
        ASSERT(inside(off, n, empty, size - empty), "a block lies inside the segment, clear of its header");
        for (int j = 0; j < nb; ++j)
          if (b[j].refs) ASSERT(disjoint(off, n, b[j].off, b[j].n), "blocks do not overlap");
        b[nb] = Blk{c, off, n, 1, {0, 0}, (unsigned char)(0x40 + nb)};
        b[nb].held[p] = 1;
        memset(q, b[nb].fill, n);
        ++nb;
        ++live;
        COVER("allocate");
      }
    } else if (op == 1) {
      int any = 0;
      for (int i = 0; i < nb; ++i) any += b[i].held[p] > 0;
      ASSUME(any > 0);
      int c = k < pre ? (k == 4 ? 0 : 1) : (int)sym_choice((unsigned)any, "victim"), i = 0;
      for (;; ++i)
        if (b[i].held[p] > 0 && c-- == 0) break;
      h[p]->deallocate(os.map[p] + b[i].off, b[i].n);
      b[i].held[p]--;
      if (--b[i].refs == 0) {
        --live;
        COVER("free");
      } else
        COVER("detach");
    } else {
      const int c = (int)sym_choice(names, "name");
      const int i = byName(c);
      void* q = h[p]->find_pointer_from_name(kName[c]);
      if (i < 0)
        ASSERT(q == nullptr, "a name that is not allocated is not found");
      else
        ASSERT(q == os.map[p] + b[i].off, "a name leads to its memory in every process");
      COVER("find");
    }
    for (int i = 0; i < nb; ++i)
      if (b[i].refs) {
        const unsigned char* q = os.map[p] + b[i].off;
        int same = 1;
        for (u64 x = 0; x < b[i].n; ++x) same = same & (q[x] == b[i].fill);
        ASSERT(same, "the contents of a block are left alone while any process holds it");
      }
    const u64 used = h[p]->getActualSize();
    u64 sum = 0;
    for (int i = 0; i < nb; ++i)
      if (b[i].refs) sum += b[i].n;
    ASSERT(used >= empty + sum && used <= size, "the actual size covers the live blocks and stays within the segment");
    if (!live) ASSERT(used == empty, "the actual size returns to that of an empty segment");
  }
  // give everything back: the whole segment is available again
  act(0);
  for (int i = 0; i < nb; ++i)
    for (int p = 0; p < procs; ++p)
      while (b[i].held[p] > 0) {
        act(p);
        h[p]->deallocate(os.map[p] + b[i].off, b[i].n);
        b[i].held[p]--;
        b[i].refs--;
      }
  act(0);
  ASSERT(h[0]->getActualSize() == empty, "after everything is freed the segment is empty");
  if (size >= 512) {
    bool threw = false;
    try {
      void* q = h[0]->allocate_named("all", size - 256);
      h[0]->deallocate(q, size - 256);
    } catch (umpire::out_of_memory_error&) {
      threw = true;
    }
    ASSERT(!threw, "after everything is freed the memory is in one piece again");
  }
  for (int p = procs - 1; p >= 0; --p) {
    act(p);
    delete h[p];
  }
  ASSERT(os.nmap == 0 && os.openFds == 0, "destroying a handle unmaps and closes what it opened");
  COVER("end");
}
