// Engine-side stdio files (not linked natively): files live in memory, a stream reads or writes at a position of its own.
#include <errno.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <locale.h>
#undef stdin
#undef stdout
#undef stderr
struct _IO_FILE;
typedef struct _IO_FILE FILE;
struct Vf {
  char name[64];
  char* data;
  size_t n, cap;
};
struct Vs {
  Vf* f;
  size_t at;
  int write;
};
static Vf vfiles[8];
static int nvfiles;
extern "C" {
struct lconv* localeconv(void)
{
  static struct lconv l;
  static char dot[2] = ".", none[1] = "";
  l.decimal_point = dot;
  l.thousands_sep = none;
  return &l;
}
unsigned long long __isoc23_strtoull(const char* t, char** end, int base)
{
  const int neg = *t == '-';
  if (neg || *t == '+') ++t;
  if (base != 10) abort();
  uint64_t v = 0;
  int over = 0;
  for (; *t >= '0' && *t <= '9'; ++t) {
    const uint64_t d = (uint64_t)(*t - '0');
    if (v > (~(uint64_t)0 - d) / 10) over = 1;
    v = v * 10 + d;
  }
  if (end) *end = (char*)t;
  if (over) {
    errno = ERANGE;
    return ~0ull;
  }
  return neg ? 0 - v : v;
}
long long __isoc23_strtoll(const char* t, char** end, int base)
{
  const int neg = *t == '-';
  const int e0 = errno;
  errno = 0;
  uint64_t v = __isoc23_strtoull(neg ? t + 1 : t, end, base);
  const int over = errno == ERANGE;
  errno = e0;
  if (over || v > (uint64_t)INT64_MAX + (neg ? 1 : 0)) {
    errno = ERANGE;
    return neg ? INT64_MIN : INT64_MAX;
  }
  return (long long)(neg ? 0 - v : v);
}
FILE* fopen(const char* name, const char* mode)
{
  Vf* f = nullptr;
  for (int i = 0; i < nvfiles; ++i)
    if (!strcmp(vfiles[i].name, name)) f = &vfiles[i];
  if (mode[0] == 'r' && !f) return nullptr;
  if (!f) {
    if (nvfiles == 8) return nullptr;
    f = &vfiles[nvfiles++];
    strcpy(f->name, name);
  }
  if (mode[0] == 'w') f->n = 0;
  Vs* s = (Vs*)malloc(sizeof(Vs));
  s->f = f;
  s->at = 0;
  s->write = mode[0] != 'r';
  return (FILE*)s;
}
int fclose(FILE* p)
{
  free(p);
  return 0;
}
int fflush(FILE*) { return 0; }
static void vput(Vs* s, const char* t, size_t n)
{
  Vf* f = s->f;
  if (f->n + n > f->cap) {
    size_t c = (f->n + n) * 2;
    char* d = (char*)malloc(c);
    if (f->n) memcpy(d, f->data, f->n);
    free(f->data);
    f->data = d;
    f->cap = c;
  }
  memcpy(f->data + f->n, t, n);
  f->n += n;
}
size_t fwrite(const void* p, size_t z, size_t n, FILE* s)
{
  vput((Vs*)s, (const char*)p, z * n);
  return n;
}
int fputs(const char* t, FILE* s)
{
  vput((Vs*)s, t, strlen(t));
  return 1;
}
int fputc(int c, FILE* s)
{
  char x = (char)c;
  vput((Vs*)s, &x, 1);
  return c;
}
static void vnum(Vs* s, uint64_t v, int neg, unsigned base)
{
  char b[24];
  int i = 24;
  do b[--i] = "0123456789abcdef"[v % base], v /= base;
  while (v);
  if (neg) b[--i] = '-';
  vput(s, b + i, (size_t)(24 - i));
}
int vfprintf(FILE* p, const char* f, va_list ap)
{
  Vs* s = (Vs*)p;
  for (; *f; ++f) {
    if (*f != '%') {
      size_t n = 0;
      while (f[n] && f[n] != '%') ++n;
      vput(s, f, n);
      f += n - 1;
      continue;
    }
    ++f;
    int l = 0;
    while (*f == 'l' || *f == 'z' || *f == 'j') ++l, ++f;
    switch (*f) {
      case '%': vput(s, "%", 1); break;
      case 's': {
        const char* t = va_arg(ap, const char*);
        vput(s, t, strlen(t));
        break;
      }
      case 'p': {
        void* t = va_arg(ap, void*);
        if (!t)
          vput(s, "(nil)", 5);
        else {
          vput(s, "0x", 2);
          vnum(s, (uint64_t)(uintptr_t)t, 0, 16);
        }
        break;
      }
      case 'd':
      case 'i': {
        int64_t v = l ? va_arg(ap, int64_t) : va_arg(ap, int);
        vnum(s, v < 0 ? 0 - (uint64_t)v : (uint64_t)v, v < 0, 10);
        break;
      }
      case 'u': vnum(s, l ? va_arg(ap, uint64_t) : va_arg(ap, unsigned), 0, 10); break;
      default: abort();
    }
  }
  return 1;
}
int fprintf(FILE* p, const char* f, ...)
{
  va_list ap;
  va_start(ap, f);
  int r = vfprintf(p, f, ap);
  va_end(ap);
  return r;
}
int fgetc(FILE* p)
{
  Vs* s = (Vs*)p;
  return s->at < s->f->n ? (unsigned char)s->f->data[s->at++] : -1;
}
ssize_t __getdelim(char** line, size_t* len, int delim, FILE* p)
{
  Vs* s = (Vs*)p;
  if (s->at >= s->f->n) return -1;
  size_t n = 0;
  while (s->at + n < s->f->n) {
    ++n;
    if (s->f->data[s->at + n - 1] == (char)delim) break;
  }
  if (!*line || *len < n + 1) {
    free(*line);
    *line = (char*)malloc(n + 1);
    *len = n + 1;
  }
  memcpy(*line, s->f->data + s->at, n);
  (*line)[n] = 0;
  s->at += n;
  return (ssize_t)n;
}
ssize_t getdelim(char** line, size_t* len, int delim, FILE* p) { return __getdelim(line, len, delim, p); }
ssize_t getline(char** line, size_t* len, FILE* p) { return __getdelim(line, len, '\n', p); }
}
