// Harness API.  In the engine these are symbolic primitives; natively (replay) they read the
// counterexample file named by $VERIF_REPLAY.
#ifndef VERIF_H
#define VERIF_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t sym_u64(const char* name);
uint32_t sym_u32(const char* name);
uint8_t sym_u8(const char* name);
void sym_assume(int c);
void sym_assert(int c, const char* msg);
void sym_fail(const char* msg);
void sym_cover(const char* name);
void sym_trace(const char* name, uint64_t v);
uint64_t sym_concretize(uint64_t v);
int sym_known(int c);
int sym_is_native(void);
uint64_t sym_config(const char* name, uint64_t dflt);
void sym_end_path(void);
uint64_t sym_heap_live(void);
void sym_malloc_cap(uint64_t n);
int sym_valid(const void* p, uint64_t n);
int sym_thread_create(void (*fn)(void*), void* arg);
void sym_thread_join(int t);
#ifdef __cplusplus
}
// symbolic value in [0,n), enumerated by the solver into one path per feasible value
static inline unsigned sym_choice(unsigned n, const char* name)
{
  uint32_t v = sym_u32(name);
  sym_assume(v < n);
  return (unsigned)sym_concretize(v);
}
static inline uint64_t sym_range(uint64_t lo, uint64_t hi, const char* name)
{
  uint64_t v = sym_u64(name);
  sym_assume((v >= lo) & (v <= hi));
  return v;
}
#endif
#define ASSERT(c, msg) sym_assert(!!(c), msg)
#define ASSUME(c) sym_assume(!!(c))
#define COVER(n) sym_cover(n)
#endif
