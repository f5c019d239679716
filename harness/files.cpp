// FileMemoryResource, NullMemoryResource, NoOpMemoryResource and the HOST resource over modelled system calls.
// cfg: which (0 file, 1 null, 2 no-op, 3 host), k, faults
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "common.hpp"
#include "umpire/alloc/MallocAllocator.hpp"
#include "umpire/resource/DefaultMemoryResource.hpp"
#include "umpire/resource/FileMemoryResource.hpp"
#include "umpire/resource/NoOpMemoryResource.hpp"
#include "umpire/resource/NullMemoryResource.hpp"
using namespace vf;
using umpire::Platform;

namespace {
const u64 PAGE = 4096, TOP = 1ull << 46;
struct File {
  char name[80];
  bool exists = false;
  u64 size = 0;
  int fd = -1;  // open descriptor
} file[16];
int nfile = 0, openFds = 0;
struct Map {
  bool live = false;
  u64 len = 0;
  int file = -1;
} map[16];
int nfault = 0;
bool removeFails = false;
int kind = 0;

bool fault(const char* what)
{
  if (nfault <= 0 || !sym_choice(2, what)) return false;
  --nfault;
  COVER(what);
  errno = ENOMEM;
  return true;
}
u64 pages(u64 n) { return (n + PAGE - 1) & ~(PAGE - 1); }
u64 mapAddr(int i) { return 0x7f0000000000ull - ((u64)(i + 1) << 60 >> 13); }
int fileOf(int fd)
{
  for (int i = 0; i < nfile; ++i)
    if (file[i].fd >= 0 && file[i].fd == fd) return i;
  return -1;
}
void* do_mmap(u64 len, int prot, int flags, int fd, off_t off)
{
  int f = -1;
  if (kind == 0) {
    f = fileOf(fd);
    ASSERT(f >= 0, "the file opened is the one mapped");
    ASSERT(off == 0 && (flags & MAP_SHARED) && (prot & PROT_READ) && (prot & PROT_WRITE), "the file is mapped for reading and writing");
  } else
    ASSERT(flags & MAP_ANONYMOUS, "memory without a file is mapped");
  if (len == 0 || len > TOP || off % PAGE) {
    errno = len ? ENOMEM : EINVAL;
    return MAP_FAILED;
  }
  if (fault("map-failed")) return MAP_FAILED;
  int i = 0;
  while (map[i].live) ++i;
  map[i].live = true;
  map[i].len = len;
  map[i].file = f;
  return (void*)mapAddr(i);
}
int do_remove(const char* n)
{
  for (int i = 0; i < nfile; ++i)
    if (file[i].exists && !strcmp(file[i].name, n)) {
      if (removeFails) {
        errno = EACCES;
        return -1;
      }
      file[i].exists = false;
      return 0;
    }
  errno = ENOENT;
  return -1;
}
}  // namespace

extern "C" {
int verif_open(const char* n, int flags, ...)
{
  ASSERT((flags & O_CREAT) && (flags & O_RDWR), "a file is created for reading and writing");
  if (fault("open-failed")) return -1;
  for (int i = 0; i < nfile; ++i)
    if (file[i].exists) ASSERT(strcmp(file[i].name, n) != 0, "every allocation has a file of its own");
  ASSERT(nfile < 16 && strlen(n) < 80, "a bounded number of files is opened");
  strcpy(file[nfile].name, n);
  file[nfile].exists = true;
  file[nfile].size = 0;
  file[nfile].fd = 30 + nfile;
  ++openFds;
  return file[nfile++].fd;
}
int verif_ftruncate(int fd, off_t n)
{
  const int f = fileOf(fd);
  ASSERT(f >= 0, "the file opened is the one sized");
  if (n < 0 || fault("truncate-failed")) {
    errno = EINVAL;
    return -1;
  }
  file[f].size = (u64)n;
  return 0;
}
int verif_ftruncate64(int fd, off_t n) { return verif_ftruncate(fd, n); }
void* verif_mmap(void*, size_t len, int prot, int flags, int fd, off_t off) { return do_mmap(len, prot, flags, fd, off); }
void* verif_mmap64(void*, size_t len, int prot, int flags, int fd, off_t off) { return do_mmap(len, prot, flags, fd, off); }
int verif_munmap(void* a, size_t len)
{
  for (int i = 0; i < 16; ++i)
    if (map[i].live && A(a) == mapAddr(i)) {
      ASSERT(pages(len) == pages(map[i].len), "a mapping is unmapped as a whole");
      map[i].live = false;
      return 0;
    }
  sym_fail("only live mappings are unmapped");
  return -1;
}
int verif_close(int fd)
{
  const int f = fileOf(fd);
  ASSERT(f >= 0, "an open descriptor is closed once");
  file[f].fd = -1;
  --openFds;
  return 0;
}
int verif_remove(const char* n) { return do_remove(n); }
int verif_unlink(const char* n) { return do_remove(n); }
long verif_sysconf(int) { return (long)PAGE; }
int verif_getpagesize() { return (int)PAGE; }
pid_t verif_getpid() { return 4242; }
}

namespace {
struct Blk {
  int m;
  u64 n;
};
int liveMaps()
{
  int c = 0;
  for (int i = 0; i < 16; ++i) c += map[i].live;
  return c;
}
int liveFiles()
{
  int c = 0;
  for (int i = 0; i < nfile; ++i) c += file[i].exists;
  return c;
}
int mapOf(void* p)
{
  for (int i = 0; i < 16; ++i)
    if (map[i].live && mapAddr(i) == A(p)) return i;
  return -1;
}

template <typename R>
void mapped(R* r, const char* dir)
{
  const u64 K = sym_config("k", 4);
  Blk b[8];
  int nb = 0, stray = 0;
  for (u64 k = 0; k < K; ++k) {
    if (sym_choice(2, "op") == 0) {
      const u64 sz = sym_u64("size");
      const int before = nfile;
      void* p = nullptr;
      bool threw = false;
      const int f0 = nfault;
      try {
        p = r->allocate(sz);
      } catch (umpire::runtime_error&) {
        threw = true;
      }
      if (threw) {
        ASSERT(nfault < f0 || sz == 0 || sz > TOP - PAGE, "allocating fails only when the system fails");
        COVER("alloc-failed");
      } else {
        const int m = mapOf(p);
        ASSERT(m >= 0, "an allocation is a live mapping");
        if (m < 0) return;
        for (int i = 0; i < nb; ++i) ASSERT(b[i].m != m, "allocations have mappings of their own");
        ASSERT(map[m].len >= sz, "the mapping has room for the bytes asked for");
        if (kind == 0) {
          ASSERT(nfile == before + 1 && map[m].file == before && file[before].exists, "an allocation maps a file of its own");
          ASSERT(file[before].size >= map[m].len, "the file is as large as its mapping");
          ASSERT(!strncmp(file[before].name, dir, strlen(dir)), "files lie in the directory configured");
        }
        b[nb].m = m;
        b[nb].n = sz;
        ++nb;
        COVER("alloc");
      }
    } else {
      ASSUME(nb > 0);
      const unsigned v = sym_choice((unsigned)nb, "victim");
      const int m = b[v].m, f = map[m].file;
      removeFails = kind == 0 && nfault > 0 && sym_choice(2, "remove-fails");
      bool threw = false;
      try {
        r->deallocate((void*)mapAddr(m), b[v].n);
      } catch (umpire::runtime_error&) {
        threw = true;
      }
      ASSERT(!map[m].live, "a deallocated mapping is unmapped");
      if (removeFails) {
        --nfault;
        ++stray;
        ASSERT(threw, "a file that cannot be removed is reported");
        COVER("remove-failed");
      } else {
        ASSERT(!threw, "deallocating succeeds");
        if (kind == 0) ASSERT(!file[f].exists, "the file of a deallocated allocation is removed");
      }
      removeFails = false;
      b[v] = b[--nb];
      COVER("dealloc");
    }
    ASSERT(liveMaps() == nb, "exactly the live allocations are mapped");
    if (kind == 0) {
      ASSERT(liveFiles() == nb + stray, "exactly the live allocations have files");
      ASSERT(openFds == 0, "no descriptor is left open");
    }
  }
  ASSERT(r->isAccessibleFrom(Platform::host) == (kind == 0) && !r->isAccessibleFrom(Platform::cuda) && r->getPlatform() == Platform::host, "file memory is accessible from the host, null memory is not");
  nfault = 0;
  if (kind == 0) {
    delete r;
    ASSERT(liveMaps() == 0 && liveFiles() == stray, "what is still allocated goes with the resource");
  }
  COVER("end");
}

void noop()
{
  umpire::resource::NoOpMemoryResource r(Platform::host, "NO", 5, umpire::MemoryResourceTraits{});
  u64 p[4], n[4];
  int c = 0;
  for (u64 k = 0; k < sym_config("k", 3); ++k) {
    const u64 sz = sym_range(1, 1ull << 40, "size");
    p[c] = A(r.allocate(sz));
    n[c] = sz;
    ASSERT(p[c] != 0 && p[c] + sz > p[c], "a range is handed out");
    for (int i = 0; i < c; ++i) ASSERT(disjoint(p[i], n[i], p[c], sz), "ranges handed out do not overlap");
    if (sym_choice(2, "free")) {
      r.deallocate((void*)p[c], sz);
      COVER("dealloc");
    } else
      ++c;
  }
  COVER("end");
}

void host()
{
  const Platform kPlat[6] = {Platform::undefined, Platform::host, Platform::cuda, Platform::omp_target, Platform::hip, Platform::sycl};
  umpire::resource::DefaultMemoryResource<umpire::alloc::MallocAllocator> r(Platform::host, "H", 5, umpire::MemoryResourceTraits{});
  const unsigned pl = sym_choice(6, "plat");
  ASSERT(r.getPlatform() == Platform::host, "a resource is of its platform");
  const bool acc = r.isAccessibleFrom(kPlat[pl]);
  if (pl == 1 || pl == 2 || pl == 4 || pl == 5) ASSERT(acc == (pl == 1), "host memory is accessible from the host only");
  const u64 live = sym_heap_live();
  unsigned char* p[3];
  u64 n[3];
  int c = 0;
  for (u64 k = 0; k < 3; ++k) {
    const unsigned s = sym_choice(4, "size");
    const u64 sz = s == 0 ? 1 : s == 1 ? 24 : s == 2 ? 200 : ~0ull - 4096 + sym_range(0, 4096, "huge");
    bool threw = false;
    try {
      p[c] = (unsigned char*)r.allocate(sz);
    } catch (umpire::out_of_memory_error&) {
      threw = true;
    }
    ASSERT(threw == (s == 3), "allocating fails exactly when there is no memory");
    if (threw) {
      COVER("alloc-failed");
      continue;
    }
    n[c] = sz;
    memset(p[c], (int)(k + 1), sz);
    for (int i = 0; i < c; ++i) ASSERT(disjoint(A(p[i]), n[i], A(p[c]), sz), "blocks do not overlap");
    ++c;
    if (sym_choice(2, "free")) {
      r.deallocate(p[c - 1], sz);
      --c;
      COVER("dealloc");
    }
  }
  while (c) --c, r.deallocate(p[c], n[c]);
  ASSERT(sym_heap_live() == live, "memory given back is given back to the system");
  COVER("end");
}
}  // namespace

extern "C" void harness_main()
{
  const u64 w = sym_config("which", 0);
  kind = (int)w;
  nfault = (int)sym_config("faults", 1);
  if (w == 0) {
    const char* dir = "./";
    if (sym_choice(2, "dir")) {
      dir = "/some/dir/";
      setenv("UMPIRE_MEMORY_FILE_DIR", dir, 1);
    } else
      unsetenv("UMPIRE_MEMORY_FILE_DIR");
    mapped(new umpire::resource::FileMemoryResource(Platform::host, "F", 5, umpire::MemoryResourceTraits{}), dir);
  } else if (w == 1)
    mapped(new umpire::resource::NullMemoryResource(Platform::host, "N", 5, umpire::MemoryResourceTraits{}), "");
  else if (w == 2)
    noop();
  else
    host();
}
