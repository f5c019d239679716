// Engine-side definitions of the parts of iostreams the io harness executes (not linked natively): the templates are instantiated
// from libstdc++'s own headers, locale-dependent parts are the "C" locale.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <fstream>
#include <iomanip>
#include <istream>
#include <locale>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <string>

namespace std {
locale::locale() throw() : _M_impl(nullptr) {}
locale::locale(const locale&) throw() : _M_impl(nullptr) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale&) throw() { return *this; }
ios_base::ios_base() throw()
    : _M_precision(6), _M_width(0), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(8),
      _M_word(_M_local_word), _M_ios_locale()
{
}
ios_base::~ios_base() {}
void ios_base::_M_init() throw()
{
  _M_precision = 6;
  _M_width = 0;
  _M_flags = skipws | dec;
}
template <>
void basic_ios<char>::_M_cache_locale(const locale&)
{
}
template <>
basic_ios<char>::char_type basic_ios<char>::widen(char c) const
{
  return c;
}
static ostream& put_text(ostream& os, const char* s, long n) { return __ostream_insert(os, s, n); }
static ostream& put_unsigned(ostream& os, unsigned long v, bool neg)
{
  char b[32];
  int i = 32;
  const ios_base::fmtflags f = os.flags() & ios_base::basefield;
  if (f == ios_base::hex || f == ios_base::oct) {
    const unsigned sh = f == ios_base::hex ? 4 : 3;
    const bool up = (os.flags() & ios_base::uppercase) != 0, base = (os.flags() & ios_base::showbase) && v;
    do b[--i] = (up ? "0123456789ABCDEF" : "0123456789abcdef")[v & ((1u << sh) - 1)], v >>= sh;
    while (v);
    if (base && sh == 4) b[--i] = up ? 'X' : 'x';
    if (base) b[--i] = '0';
  } else {
    do b[--i] = (char)('0' + v % 10), v /= 10;
    while (v);
    if (neg)
      b[--i] = '-';
  }
  return put_text(os, b + i, 32 - i);
}
template <>
template <>
ostream& ostream::_M_insert(long v)
{
  if (v < 0 && !(flags() & (ios_base::hex | ios_base::oct))) return put_unsigned(*this, 0ul - (unsigned long)v, true);
  return put_unsigned(*this, (unsigned long)v, false);
}
template <>
template <>
ostream& ostream::_M_insert(bool v)
{
  if (flags() & ios_base::boolalpha) return put_text(*this, v ? "true" : "false", v ? 4 : 5);
  return put_text(*this, v ? "1" : "0", 1);
}
template <>
template <>
ostream& ostream::_M_insert(const void* v)
{
  const ios_base::fmtflags f = flags();
  flags((f & ~(ios_base::basefield | ios_base::uppercase)) | ios_base::hex | ios_base::showbase);
  put_unsigned(*this, (unsigned long)v, false);
  flags(f);
  return *this;
}
template <>
template <>
ostream& ostream::_M_insert(unsigned long v)
{
  return put_unsigned(*this, v, false);
}
template <>
template <>
ostream& ostream::_M_insert(long long v)
{
  return _M_insert((long)v);
}
template <>
template <>
ostream& ostream::_M_insert(unsigned long long v)
{
  return _M_insert((unsigned long)v);
}
// input: unsigned and signed decimal numbers and words
static bool skip_white(istream& is)
{
  int c = is.rdbuf()->sgetc();
  while (c == ' ' || c == '\n' || c == '\t') c = is.rdbuf()->snextc();
  if (c == EOF) is.setstate(ios_base::eofbit | ios_base::failbit);
  return c != EOF;
}
template <typename T>
static istream& get_number(istream& is, T& out)
{
  out = 0;
  if (!is.good()) {
    is.setstate(ios_base::failbit);
    return is;
  }
  if (!skip_white(is)) return is;
  int c = is.rdbuf()->sgetc();
  const bool neg = c == '-';
  if (neg || c == '+') c = is.rdbuf()->snextc();
  bool any = false;
  T v = 0;
  for (; c >= '0' && c <= '9'; c = is.rdbuf()->snextc()) v = (T)(v * 10 + (T)(c - '0')), any = true;
  if (c == EOF) is.setstate(ios_base::eofbit);
  if (!any)
    is.setstate(ios_base::failbit);
  else
    out = neg ? (T)(0 - v) : v;
  return is;
}
template <>
istream& istream::operator>>(int& v)
{
  return get_number(*this, v);
}
template <>
template <>
istream& istream::_M_extract(long& v)
{
  return get_number(*this, v);
}
template <>
template <>
istream& istream::_M_extract(unsigned int& v)
{
  return get_number(*this, v);
}
template <>
template <>
istream& istream::_M_extract(unsigned long& v)
{
  return get_number(*this, v);
}
template <>
istream& operator>>(istream& is, string& s)
{
  s.clear();
  if (!is.good()) {
    is.setstate(ios_base::failbit);
    return is;
  }
  if (!skip_white(is)) return is;
  int c = is.rdbuf()->sgetc();
  for (; c != EOF && c != ' ' && c != '\n' && c != '\t'; c = is.rdbuf()->snextc()) s.push_back((char)c);
  if (c == EOF) is.setstate(ios_base::eofbit);
  return is;
}
bool uncaught_exception() throw() { return false; }
void __throw_ios_failure(const char*) { __builtin_trap(); }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
// files: whether one exists is asked of the harness, and what is written goes to it when it wants it
extern "C" int verif_file_exists(const char*);
extern "C" __attribute__((weak)) int verif_file_create(const char*) { return 1; }  // 0: refused, else a handle
extern "C" __attribute__((weak)) void verif_file_write(int, const char*, long) {}
// characters are written as they are
typedef codecvt<char, char, mbstate_t> CC;
locale::facet::~facet() {}
CC::codecvt(size_t r) : __codecvt_abstract_base<char, char, mbstate_t>(r) {}
CC::~codecvt() {}
codecvt_base::result CC::do_out(mbstate_t&, const char* f, const char*, const char*& n, char* t, char*, char*& m) const
{
  n = f, m = t;
  return noconv;
}
codecvt_base::result CC::do_in(mbstate_t&, const char* f, const char*, const char*& n, char* t, char*, char*& m) const
{
  n = f, m = t;
  return noconv;
}
codecvt_base::result CC::do_unshift(mbstate_t&, char* t, char*, char*& m) const
{
  m = t;
  return noconv;
}
int CC::do_encoding() const throw() { return 1; }
bool CC::do_always_noconv() const throw() { return true; }
int CC::do_length(mbstate_t&, const char* f, const char* e, size_t n) const { return (int)((size_t)(e - f) < n ? (size_t)(e - f) : n); }
int CC::do_max_length() const throw() { return 1; }
template <>
const CC* __try_use_facet<CC>(const locale&) noexcept
{
  static CC* const c = new CC(1);
  return c;
}
void __throw_ios_failure(const char*, int) { __builtin_trap(); }
typedef __basic_file<char> BF;
BF::__basic_file(__c_lock*) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
BF::~__basic_file() {}
BF* BF::open(const char* n, ios_base::openmode m, int)
{
  int h = 0;
  if (m & ios_base::out) {
    h = verif_file_create(n);
    _M_cfile_created = h != 0;
  } else
    _M_cfile_created = verif_file_exists(n);
  _M_cfile = (__c_file*)(unsigned long)(unsigned)h;
  return _M_cfile_created ? this : nullptr;
}
BF* BF::close()
{
  BF* r = _M_cfile_created ? this : nullptr;
  _M_cfile_created = false;
  return r;
}
bool BF::is_open() const throw() { return _M_cfile_created; }
streamsize BF::xsputn(const char* t, streamsize n)
{
  if (n > 0) verif_file_write((int)(unsigned long)_M_cfile, t, n);
  return n;
}
streamsize BF::xsputn_2(const char* s, streamsize a, const char* t, streamsize b)
{
  if (a > 0) verif_file_write((int)(unsigned long)_M_cfile, s, a);
  if (b > 0) verif_file_write((int)(unsigned long)_M_cfile, t, b);
  return a + b;
}
streamsize BF::xsgetn(char*, streamsize) { return 0; }
streamoff BF::seekoff(streamoff, ios_base::seekdir) throw() { return -1; }
int BF::sync() { return 0; }
streamsize BF::showmanyc() { return 0; }
template class basic_filebuf<char>;
template class basic_ifstream<char>;
template class basic_ofstream<char>;
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class __cxx11::basic_stringbuf<char>;
template class __cxx11::basic_stringstream<char>;
template class __cxx11::basic_ostringstream<char>;
template class __cxx11::basic_istringstream<char>;
template ostream& operator<<(ostream&, char);
template istream& getline(istream&, string&, char);
template istream& getline(istream&, string&);
template ostream& ends(ostream&);
template ostream& __ostream_insert(ostream&, const char*, streamsize);
template ostream& operator<< <char_traits<char>>(ostream&, const char*);
template ostream& operator<<(ostream&, const __cxx11::basic_string<char>&);
template ostream& endl(ostream&);
template ostream& operator<<(ostream&, _Setw);
template ostream& operator<<(ostream&, _Setfill<char>);
template ostream& flush(ostream&);
ostream cout(nullptr), cerr(nullptr);
}  // namespace std
