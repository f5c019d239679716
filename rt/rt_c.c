#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
void abort(void);
/* libc string routines for the engine */
size_t strlen(const char* s)
{
  size_t n = 0;
  while (s[n]) ++n;
  return n;
}
int memcmp(const void* a, const void* b, size_t n)
{
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  for (size_t i = 0; i < n; ++i)
    if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
void* memchr(const void* a, int c, size_t n)
{
  const unsigned char* x = (const unsigned char*)a;
  for (size_t i = 0; i < n; ++i)
    if (x[i] == (unsigned char)c) return (void*)(x + i);
  return 0;
}
int strcmp(const char* a, const char* b)
{
  while (*a && *a == *b) ++a, ++b;
  return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char* a, const char* b, size_t n)
{
  for (; n; --n, ++a, ++b) {
    if (*a != *b) return (unsigned char)*a - (unsigned char)*b;
    if (!*a) return 0;
  }
  return 0;
}
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
char* strrchr(const char* s, int c)
{
  char* r = 0;
  for (;; ++s) {
    if (*s == (char)c) r = (char*)s;
    if (!*s) return r;
  }
}
char* strcat(char* d, const char* s)
{
  char* r = d;
  while (*d) ++d;
  while ((*d++ = *s++)) {
  }
  return r;
}
int strncasecmp(const char* a, const char* b, size_t n)
{
  for (; n; --n, ++a, ++b) {
    const int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
    if (x != y) return x - y;
    if (!x) return 0;
  }
  return 0;
}
int strcasecmp(const char* a, const char* b)
{
  while (*a && tolower(*a) == tolower(*b)) ++a, ++b;
  return tolower((unsigned char)*a) - tolower((unsigned char)*b);
}
char* strcpy(char* d, const char* s)
{
  char* r = d;
  while ((*d++ = *s++)) {
  }
  return r;
}
char* strncpy(char* d, const char* s, size_t n)
{
  size_t i = 0;
  for (; i < n && s[i]; ++i) d[i] = s[i];
  for (; i < n; ++i) d[i] = 0;
  return d;
}
char* strchr(const char* s, int c)
{
  for (;; ++s) {
    if (*s == (char)c) return (char*)s;
    if (!*s) return 0;
  }
}
char* strstr(const char* h, const char* n)
{
  for (;; ++h) {
    const char *a = h, *b = n;
    while (*b && *a == *b) ++a, ++b;
    if (!*b) return (char*)h;
    if (!*h) return 0;
  }
}
int ffs(int x)
{
  for (int i = 0; i < 32; ++i)
    if (((unsigned)x >> i) & 1u) return i + 1;
  return 0;
}
int ffsll(long long x)
{
  for (int i = 0; i < 64; ++i)
    if (((unsigned long long)x >> i) & 1ull) return i + 1;
  return 0;
}
int ffsl(long x) { return ffsll(x); }

/* anonymous mappings; harnesses that check mapping calls redirect them instead */
void* aligned_alloc(size_t, size_t);
void free(void*);
void* mmap(void* addr, size_t len, int prot, int flags, int fd, long off)
{
  static unsigned long next = 0x7e0000000000ul;
  if (!(flags & 0x20) || len == 0 || len > (1ul << 40) || off % 4096) return (void*)-1;
  if (prot == 0) { /* PROT_NONE: address space only, any access is invalid */
    void* p = (void*)next;
    next += (len + 0x1ffful) & ~0xffful;
    return p;
  }
  return aligned_alloc(4096, len);
}
int munmap(void* p, size_t len)
{
  if ((unsigned long)p < 0x7e0000000000ul) free(p);
  return 0;
}
char* strerror(int e)
{
  (void)e;
  return (char*)"error";
}

/* environment: what the harness sets, and UMPIRE_EVENTS where a run is configured so */
extern unsigned long sym_config(const char* name, unsigned long dflt);
static struct {
  const char *k, *v;
} verif_env[8];
int setenv(const char* k, const char* v, int over)
{
  int i;
  (void)over;
  for (i = 0; i < 8; ++i)
    if (!verif_env[i].k || !strcmp(verif_env[i].k, k)) {
      verif_env[i].k = k;
      verif_env[i].v = v;
      return 0;
    }
  return -1;
}
int unsetenv(const char* k)
{
  int i;
  for (i = 0; i < 8 && verif_env[i].k; ++i)
    if (!strcmp(verif_env[i].k, k)) verif_env[i].v = 0;
  return 0;
}
char* getenv(const char* k)
{
  int i;
  for (i = 0; i < 8 && verif_env[i].k; ++i)
    if (!strcmp(verif_env[i].k, k)) return (char*)verif_env[i].v;
  if (!strcmp(k, "UMPIRE_EVENTS") && sym_config("events", 0)) return (char*)"1";
  return 0;
}

/* the usual conversions: optional 0 and - flags, width, precision, l/z, and d i u x X s c p % */
int vsnprintf(char* out, size_t cap, const char* f, va_list ap)
{
  size_t n = 0;
  for (; *f; ++f) {
    char b[32];
    int i = 32;
    const char* t = b;
    size_t len = 0;
    if (*f != '%') {
      t = f;
      len = 1;
    } else {
      ++f;
      int zero = 0, width = 0, prec = -1, l = 0;
      int left = 0;
      while (*f == '0' || *f == '-') {
        if (*f == '0') zero = 1;
        if (*f == '-') left = 1;
        ++f;
      }
      while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
      if (*f == '.') {
        prec = 0;
        ++f;
        while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0';
      }
      while (*f == 'l' || *f == 'z' || *f == 'j') ++l, ++f;
      uint64_t v = 0;
      int neg = 0;
      switch (*f) {
        case '%': b[--i] = '%'; break;
        case 'c': b[--i] = (char)va_arg(ap, int); break;
        case 's':
          t = va_arg(ap, const char*);
          len = strlen(t);
          if (prec >= 0 && len > (size_t)prec) len = (size_t)prec;
          break;
        case 'd':
        case 'i': {
          int64_t w = l ? va_arg(ap, int64_t) : va_arg(ap, int);
          neg = w < 0;
          v = neg ? 0 - (uint64_t)w : (uint64_t)w;
          break;
        }
        case 'u':
        case 'x':
        case 'X': v = l ? va_arg(ap, uint64_t) : va_arg(ap, unsigned); break;
        case 'p': v = (uint64_t)va_arg(ap, void*); break;
        default: abort();
      }
      if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'p') {
        const unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : 10;
        const char* dig = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
        int least = prec >= 0 ? prec : zero ? width : 1;
        do b[--i] = dig[v % base], v /= base;
        while (v);
        while (32 - i < least) b[--i] = '0';
        if (*f == 'p') b[--i] = 'x', b[--i] = '0';
        if (neg) b[--i] = '-';
      }
      if (*f != 's') {
        t = b + i;
        len = (size_t)(32 - i);
      }
      if (!left)
        for (size_t k = len; k < (size_t)width; ++k, ++n)
          if (n + 1 < cap) out[n] = ' ';
      for (size_t k = 0; k < len; ++k, ++n)
        if (n + 1 < cap) out[n] = t[k];
      if (left)
        for (size_t k = len; k < (size_t)width; ++k, ++n)
          if (n + 1 < cap) out[n] = ' ';
      len = 0;
    }
    for (size_t k = 0; k < len; ++k, ++n)
      if (n + 1 < cap) out[n] = t[k];
  }
  if (cap) out[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
int snprintf(char* out, size_t cap, const char* f, ...)
{
  va_list ap;
  va_start(ap, f);
  int r = vsnprintf(out, cap, f, ap);
  va_end(ap);
  return r;
}
int sprintf(char* out, const char* f, ...)
{
  va_list ap;
  va_start(ap, f);
  int r = vsnprintf(out, (size_t)1 << 40, f, ap);
  va_end(ap);
  return r;
}

void* malloc(size_t);
void* memcpy(void*, const void*, size_t);
char* strdup(const char* t)
{
  const size_t n = strlen(t) + 1;
  return (char*)memcpy(malloc(n), t, n);
}
static unsigned long verif_number(const char* t, char** end, int base, int* neg)
{
  const char* b = t;
  unsigned long v = 0;
  int any = 0;
  while (isspace((unsigned char)*t)) ++t;
  *neg = *t == '-';
  if (*t == '-' || *t == '+') ++t;
  if ((base == 0 || base == 16) && t[0] == '0' && (t[1] == 'x' || t[1] == 'X') && isxdigit((unsigned char)t[2])) t += 2, base = 16;
  if (base == 0) base = *t == '0' ? 8 : 10;
  for (;; ++t, any = 1) {
    const int c = tolower((unsigned char)*t);
    const int d = isdigit(c) ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : 99;
    if (d >= base) break;
    v = v * (unsigned)base + (unsigned)d;
  }
  if (end) *end = (char*)(any ? t : b);
  return v;
}
long strtol(const char* t, char** end, int base)
{
  int neg;
  const unsigned long v = verif_number(t, end, base, &neg);
  return (long)(neg ? 0 - v : v);
}
unsigned long strtoul(const char* t, char** end, int base)
{
  int neg;
  const unsigned long v = verif_number(t, end, base, &neg);
  return neg ? 0 - v : v;
}
long __isoc23_strtol(const char* t, char** end, int base) { return strtol(t, end, base); }
unsigned long __isoc23_strtoul(const char* t, char** end, int base) { return strtoul(t, end, base); }
int atoi(const char* t) { return (int)strtol(t, 0, 10); }
long atol(const char* t) { return strtol(t, 0, 10); }

/* what runs at the end of the program, for the runs that are about it */
static struct {
  void (*f)(void*);
  void* a;
} verif_exit[128];
static int verif_nexit;
int __cxa_atexit(void (*f)(void*), void* a, void* d)
{
  (void)d;
  if (verif_nexit == 128) __builtin_trap();
  verif_exit[verif_nexit].f = f;
  verif_exit[verif_nexit++].a = a;
  return 0;
}
static void verif_plain(void* f) { ((void (*)(void))f)(); }
int atexit(void (*f)(void)) { return __cxa_atexit(verif_plain, (void*)f, 0); }
void sym_run_exit(void)
{
  while (verif_nexit) {
    --verif_nexit;
    verif_exit[verif_nexit].f(verif_exit[verif_nexit].a);
  }
}
