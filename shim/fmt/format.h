// Stand-in for fmt: "{}" and simple specs for text, integers and pointers.  Under the engine values that are symbolic are shown as
// '?', so that texts of error messages cost nothing.
#ifndef VERIF_FMT_FORMAT_H
#define VERIF_FMT_FORMAT_H
#include <cerrno>
#include <cstring>
#include <string>
#include <type_traits>
#ifdef VERIF_BC
extern "C" int sym_is_concrete(unsigned long);
#else
static inline int sym_is_concrete(unsigned long) { return 1; }
#endif
namespace fmt {
namespace verif_detail {
inline void number(std::string& o, unsigned long v, bool neg, unsigned base, unsigned width, bool zero)
{
  if (!sym_is_concrete(v)) {
    o += '?';
    return;
  }
  char b[68];
  unsigned i = 68;
  do b[--i] = "0123456789abcdef"[v % base], v /= base;
  while (v);
  if (neg && !zero) b[--i] = '-';
  unsigned n = 68 - i + (neg && zero ? 1 : 0);
  if (neg && zero) o += '-';
  for (; n < width; ++n) o += zero ? '0' : ' ';
  o.append(b + i, 68 - i);
}
struct arg {
  int kind;  // 0 text 1 unsigned 2 signed 3 pointer 4 char 5 bool 6 other
  unsigned long v;
  const char* s;
  std::size_t n;
};
inline arg make(const std::string& s) { return arg{0, 0, s.data(), s.size()}; }
inline arg make(const char* s) { return arg{0, 0, s, std::strlen(s)}; }
inline arg make(char* s) { return arg{0, 0, s, std::strlen(s)}; }
inline arg make(char c) { return arg{4, (unsigned char)c, nullptr, 0}; }
inline arg make(bool b) { return arg{5, b, nullptr, 0}; }
inline arg make(void* p) { return arg{3, (unsigned long)p, nullptr, 0}; }
inline arg make(const void* p) { return arg{3, (unsigned long)p, nullptr, 0}; }
template <typename T>
inline typename std::enable_if<std::is_integral<T>::value && std::is_unsigned<T>::value, arg>::type make(T v)
{
  return arg{1, (unsigned long)v, nullptr, 0};
}
template <typename T>
inline typename std::enable_if<std::is_integral<T>::value && std::is_signed<T>::value, arg>::type make(T v)
{
  return arg{2, (unsigned long)(long)v, nullptr, 0};
}
template <typename T>
inline typename std::enable_if<std::is_enum<T>::value, arg>::type make(T v)
{
  return arg{2, (unsigned long)v, nullptr, 0};
}
template <typename T>
inline typename std::enable_if<!std::is_integral<T>::value && !std::is_enum<T>::value, arg>::type make(const T&)
{
  return arg{6, 0, nullptr, 0};
}
inline std::string vformat(const char* f, const arg* a, unsigned na)
{
  std::string o;
  unsigned next = 0;
  for (; *f; ++f) {
    if ((*f == '{' || *f == '}') && f[1] == *f) {
      o += *f++;
      continue;
    }
    if (*f != '{') {
      o += *f;
      continue;
    }
    ++f;
    unsigned idx = next;
    if (*f >= '0' && *f <= '9') {
      idx = 0;
      while (*f >= '0' && *f <= '9') idx = idx * 10 + (unsigned)(*f++ - '0');
    } else
      ++next;
    bool zero = false;
    unsigned width = 0;
    char conv = 0;
    if (*f == ':') {
      ++f;
      if (*f == '0') zero = true, ++f;
      while (*f >= '0' && *f <= '9') width = width * 10 + (unsigned)(*f++ - '0');
      while (*f && *f != '}') conv = *f++;
    }
    while (*f && *f != '}') ++f;
    if (idx >= na) continue;
    const arg& x = a[idx];
    switch (x.kind) {
      case 0: o.append(x.s, x.n); break;
      case 1: number(o, x.v, false, conv == 'x' ? 16 : 10, width, zero); break;
      case 2:
        if (!sym_is_concrete(x.v))
          o += '?';
        else if ((long)x.v < 0)
          number(o, 0ul - x.v, true, conv == 'x' ? 16 : 10, width, zero);
        else
          number(o, x.v, false, conv == 'x' ? 16 : 10, width, zero);
        break;
      case 3:
        o += "0x";
        number(o, x.v, false, 16, 0, false);
        break;
      case 4: o += (char)x.v; break;
      case 5:
        if (!sym_is_concrete(x.v))
          o += '?';
        else
          o += x.v ? "true" : "false";
        break;
      default: o += '?';
    }
    if (!*f) break;
  }
  return o;
}
inline const char* text(const char* s) { return s; }
inline const char* text(const std::string& s) { return s.c_str(); }
}  // namespace verif_detail
template <typename S, typename... A>
inline std::string format(const S& f, const A&... a)
{
  const verif_detail::arg v[sizeof...(A) + 1] = {verif_detail::make(a)..., verif_detail::arg{6, 0, nullptr, 0}};
  return verif_detail::vformat(verif_detail::text(f), v, sizeof...(A));
}
template <typename T>
inline std::string to_string(const T& v)
{
  return format("{}", v);
}
template <typename T>
inline const void* ptr(T* p)
{
  return p;
}
}  // namespace fmt
#endif
