// For C40: the two calls the pools make are followed by the harness instead of the sanitizer's run time.
#ifdef VERIF_POISON_SHIM
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void verif_poison(void const volatile*, size_t);
void verif_unpoison(void const volatile*, size_t);
#ifdef __cplusplus
}
#endif
#define __asan_poison_memory_region verif_poison
#define __asan_unpoison_memory_region verif_unpoison
#define ASAN_POISON_MEMORY_REGION(addr, size) verif_poison((addr), (size))
#define ASAN_UNPOISON_MEMORY_REGION(addr, size) verif_unpoison((addr), (size))
#else
#include_next <sanitizer/asan_interface.h>
#endif
