// Native implementation of the harness API: replays one assignment of the symbolic inputs against the real code.
//   $VERIF_REPLAY  file with lines "name#k width 0xvalue"   (inputs that are missing read as 0)
//   $VERIF_CFG     "name=value,..."
// Exit codes: 0 completed, 1 assertion failed, 3 assumption not satisfied, 4 other end of path.
#include "verif.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <pthread.h>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" void harness_main();

namespace {
// plain arrays and hand-written loops: nothing here may look like an access of shared memory to ThreadSanitizer
struct Input {
  char name[128];
  uint64_t v;
}* in = nullptr;
int nin = 0;
struct Counter {
  char name[128];
  int n;
} ctr[512];
int nctr = 0;
bool same(const char* a, const char* b)
{
  while (*a && *a == *b) ++a, ++b;
  return *a == *b;
}
void loadInputs()
{
  if (in) return;
  in = (Input*)calloc(1 << 16, sizeof(Input));
  const char* f = getenv("VERIF_REPLAY");
  if (FILE* fp = f ? fopen(f, "r") : nullptr) {
    char name[256];
    unsigned w;
    unsigned long long v;
    char line[512];
    while (nin < (1 << 16) && fgets(line, sizeof line, fp))
      if (sscanf(line, "%255s %u %llx", name, &w, &v) == 3) {
        strncpy(in[nin].name, name, 127);
        in[nin++].v = v;
      }
    fclose(fp);
  }
}
uint64_t get(const char* name)
{
  loadInputs();
  int c = 0;
  while (c < nctr && !same(ctr[c].name, name)) ++c;
  if (c == nctr) {
    if (nctr == 512) _exit(5);
    int i = 0;
    for (; name[i] && i < 127; ++i) ctr[c].name[i] = name[i];
    ++nctr;
  }
  int k = ctr[c].n++;
  char key[160];
  int n = 0;
  for (const char* p = name; *p && n < 127; ++p) key[n++] = *p;
  key[n++] = '#';
  char d[16];
  int m = 0;
  do d[m++] = (char)('0' + k % 10), k /= 10;
  while (k);
  while (m) key[n++] = d[--m];
  key[n] = 0;
  uint64_t v = 0;
  for (int i = 0; i < nin; ++i)
    if (same(in[i].name, key)) {
      v = in[i].v;
      break;
    }
  static const char* verbose = getenv("VERIF_VERBOSE");
  if (verbose) fprintf(stderr, "input %s = 0x%llx\n", key, (unsigned long long)v);
  return v;
}
}  // namespace
extern "C" {
uint64_t sym_u64(const char* n) { return get(n); }
uint32_t sym_u32(const char* n) { return (uint32_t)get(n); }
uint8_t sym_u8(const char* n) { return (uint8_t)get(n); }
void sym_assume(int c)
{
  if (!c) {
    fprintf(stderr, "REPLAY: assumption not satisfied\n");
    _exit(3);
  }
}
void sym_assert(int c, const char* msg)
{
  if (!c) {
    fprintf(stderr, "REPLAY: ASSERTION FAILED: %s\n", msg);
    _exit(1);
  }
}
void sym_fail(const char* msg) { sym_assert(0, msg); }
void sym_cover(const char* n)
{
  if (getenv("VERIF_VERBOSE")) fprintf(stderr, "cover %s\n", n);
}
void sym_trace(const char* n, uint64_t v) { printf("trace %s 0x%llx\n", n, (unsigned long long)v); }
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_known(int c) { return c; }
int sym_is_native(void) { return 1; }
uint64_t sym_config(const char* name, uint64_t d)
{
  static const char* e = getenv("VERIF_CFG");
  for (const char* p = e; p && *p;) {
    const char* q = name;
    while (*q && *p == *q) ++p, ++q;
    if (!*q && *p == '=') {
      uint64_t v = 0;
      for (++p; *p >= '0' && *p <= '9'; ++p) v = v * 10 + (uint64_t)(*p - '0');
      return v;
    }
    while (*p && *p != ',') ++p;
    if (*p) ++p;
  }
  return d;
}
void sym_end_path(void)
{
  fprintf(stderr, "REPLAY: end of path (bound)\n");
  _exit(4);
}
uint64_t sym_heap_live(void) { return 0; }
void sym_malloc_cap(uint64_t) {}
int sym_valid(const void*, uint64_t) { return 1; }
}
// ---- deterministic scheduler: the same choice points as the engine (lock, trylock, static-initialisation guards, join, thread end),
// answered from the counterexample's "sched" inputs.  Hand-over is by spinning on a plain variable, so that ThreadSanitizer sees no
// synchronisation but the program's own.
namespace {
enum { NT = 8 };
struct Thr {
  pthread_t h;
  void (*fn)(void*);
  void* arg;
  int status = 0;  // 0 run 1 mutex 2 join 3 guard 4 done
  uint64_t on = 0;
  bool schedDone = false;
  int yields = 0;
} thr[NT];
volatile int nthr = 1, curThr = 0, preempts = 0;
thread_local int self = 0;
struct Mx {
  uint64_t a;
  int owner, depth;
} mx[256];
int nmx = 0;
Mx* mxOf(uint64_t a)
{
  for (int i = 0; i < nmx; ++i)
    if (mx[i].a == a) return &mx[i];
  if (nmx == 256) _exit(5);
  mx[nmx].a = a;
  mx[nmx].owner = -1;
  return &mx[nmx++];
}
bool canRun(int i)
{
  switch (thr[i].status) {
    case 0: return true;
    case 1: return mxOf(thr[i].on)->owner < 0;
    case 2: return thr[thr[i].on].status == 4;
    case 3: return ((volatile unsigned char*)thr[i].on)[1] == 0;
  }
  return false;
}
void waitTurn()
{
  while (curThr != self) syscall(SYS_sched_yield);
}
void pick(bool preemptible, bool yield = false)
{
  int r[NT], n = 0;
  if (yield) {
    bool other = false;
    for (int i = 0; i < nthr; ++i) other = other || (i != self && canRun(i));
    if (other && thr[self].yields >= (int)sym_config("yields", 1))
      preemptible = false;
    else
      thr[self].yields++;
    if (thr[self].yields > 50) {
      fprintf(stderr, "REPLAY: deadlock (a thread waits forever)\n");
      _exit(1);
    }
  }
  if (preemptible) r[n++] = self;
  if (!preemptible || yield || preempts < (int)sym_config("preempt", 2))
    for (int i = 0; i < nthr; ++i)
      if (!((preemptible || yield) && i == self) && canRun(i)) r[n++] = i;
  if (!n) {
    fprintf(stderr, "REPLAY: deadlock\n");
    _exit(1);
  }
  int c = r[0];
  if (n > 1) {
    c = (int)get("sched");
    bool ok = false;
    for (int i = 0; i < n; ++i) ok = ok || r[i] == c;
    if (!ok) c = r[0];
    if (preemptible && !yield && c != self) preempts = preempts + 1;
  }
  if (c != self)
    for (int i = 0; i < nthr; ++i) thr[i].yields = 0;
  thr[self].schedDone = false;
  thr[c].status = 0;
  thr[c].schedDone = true;
  curThr = c;
}
void schedPoint()
{
  if (nthr < 2) return;
  if (thr[self].schedDone) {
    thr[self].schedDone = false;
    return;
  }
  pick(true);
  waitTurn();
  thr[self].schedDone = false;
}
void block(int st, uint64_t on)
{
  thr[self].status = st;
  thr[self].on = on;
  pick(false);
  waitTurn();
  thr[self].schedDone = false;
}
void* start(void* a)
{
  self = (int)(intptr_t)a;
  waitTurn();
  thr[self].fn(thr[self].arg);
  thr[self].status = 4;
  pick(false);
  return nullptr;
}
}  // namespace
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real___cxa_guard_acquire(uint64_t*);
int sym_thread_create(void (*fn)(void*), void* arg)
{
  int id = nthr;
  thr[id].fn = fn;
  thr[id].arg = arg;
  pthread_create(&thr[id].h, nullptr, start, (void*)(intptr_t)id);
  nthr = nthr + 1;
  thr[self].schedDone = false;
  return id;
}
void sym_thread_join(int t)
{
  if (thr[t].status != 4) block(2, t);
  thr[self].schedDone = false;
  pthread_join(thr[t].h, nullptr);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
  schedPoint();
  Mx* x = mxOf((uint64_t)m);
  if (x->owner == self && x->depth) {
    if (m->__data.__kind == 1) {
      ++x->depth;
      return 0;
    }
    fprintf(stderr, "REPLAY: self-deadlock\n");
    _exit(1);
  }
  while (x->owner >= 0) block(1, (uint64_t)m);
  x->owner = self;
  x->depth = 1;
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
  schedPoint();
  Mx* x = mxOf((uint64_t)m);
  if (x->owner >= 0) return 16;
  x->owner = self;
  x->depth = 1;
  return __real_pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
  Mx* x = mxOf((uint64_t)m);
  if (x->owner != self || !x->depth) {
    fprintf(stderr, "REPLAY: unlock of a mutex not held by this thread\n");
    _exit(1);
  }
  if (--x->depth) return 0;
  x->owner = -1;
  return __real_pthread_mutex_unlock(m);
}
int __wrap_sched_yield(void)
{
  if (nthr > 1 && !thr[self].schedDone) {
    pick(true, true);
    waitTurn();
  }
  thr[self].schedDone = false;
  return 0;
}
int __wrap___cxa_guard_acquire(uint64_t* g)
{
  schedPoint();
  while (!((volatile unsigned char*)g)[0] && ((volatile unsigned char*)g)[1]) block(3, (uint64_t)g);
  return __real___cxa_guard_acquire(g);
}
}
int main()
{
  std::set_terminate([] {
    fprintf(stderr, "REPLAY: std::terminate\n");
    _exit(1);
  });
  loadInputs();
  get("start");
  sym_config("preempt", 2);
  harness_main();
  fprintf(stderr, "REPLAY: completed\n");
  fflush(stdout);
  return 0;
}

extern "C" void sym_run_exit(void) {}  // the real end of the program follows
