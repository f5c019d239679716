// Engine-side runtime: the compiled parts of libstdc++/libc that the code under test needs,
// written out so the engine can execute them.  Not linked natively.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <ios>
#include <list>
#include <map>
#include <mutex>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>

template class std::basic_string<char>;

// ---- operator new/delete
void* operator new(std::size_t n)
{
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }

namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

static const char* copy_text(const char* s)
{
  std::size_t n = strlen(s) + 1;
  char* r = (char*)malloc(n);
  memcpy(r, s, n);
  return r;
}
#define VERIF_EXC(T)                                                                                             \
  T::T(const string& s) : _M_msg() { _M_msg._M_p = copy_text(s.c_str()); }                                       \
  T::T(const char* s) : _M_msg() { _M_msg._M_p = copy_text(s); }                                                 \
  T::T(const T& o) noexcept : exception(o), _M_msg() { _M_msg._M_p = copy_text(o._M_msg._M_p); }                 \
  T& T::operator=(const T& o) noexcept                                                                           \
  {                                                                                                              \
    if (this != &o) {                                                                                            \
      free((void*)_M_msg._M_p);                                                                                  \
      _M_msg._M_p = copy_text(o._M_msg._M_p);                                                                    \
    }                                                                                                            \
    return *this;                                                                                                \
  }                                                                                                              \
  T::~T() noexcept { free((void*)_M_msg._M_p); }                                                                 \
  const char* T::what() const noexcept { return _M_msg._M_p; }
VERIF_EXC(runtime_error)
VERIF_EXC(logic_error)
#define VERIF_EXC2(T, B)          \
  T::T(const string& s) : B(s) {} \
  T::T(const char* s) : B(s) {}   \
  T::~T() noexcept {}
VERIF_EXC2(out_of_range, logic_error)
VERIF_EXC2(length_error, logic_error)
VERIF_EXC2(invalid_argument, logic_error)
VERIF_EXC2(domain_error, logic_error)
VERIF_EXC2(range_error, runtime_error)
VERIF_EXC2(overflow_error, runtime_error)
VERIF_EXC2(underflow_error, runtime_error)

__cow_string::__cow_string() { _M_p = nullptr; }
__cow_string::__cow_string(const __cow_string&) noexcept { _M_p = nullptr; }
__cow_string& __cow_string::operator=(const __cow_string&) noexcept { return *this; }
__cow_string::~__cow_string() {}

void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

// ---- red-black tree primitives (std::map/std::set/std::multimap), as an unbalanced search tree:
// ordering semantics are identical, only the depth differs.
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept
{
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) {
    x = y;
    y = y->_M_parent;
  }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept
{
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;  // header
  if (x->_M_left) {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept
{
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& header) noexcept
{
  x->_M_parent = p;
  x->_M_left = 0;
  x->_M_right = 0;
  x->_M_color = _S_black;  // every real node is black; only the header is red
  if (left) {
    p->_M_left = x;
    if (p == &header) {
      header._M_parent = x;
      header._M_right = x;
    } else if (p == header._M_left)
      header._M_left = x;
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) noexcept
{
  _Rb_tree_node_base*& root = header._M_parent;
  _Rb_tree_node_base*& leftmost = header._M_left;
  _Rb_tree_node_base*& rightmost = header._M_right;
  if (leftmost == z || rightmost == z) {
    _Rb_tree_node_base* nx = _Rb_tree_increment(z);
    _Rb_tree_node_base* pv = leftmost == z ? 0 : _Rb_tree_decrement(z);
    if (leftmost == z) leftmost = nx;             // header if z was the only node
    if (rightmost == z) rightmost = pv ? pv : &header;
  }
  _Rb_tree_node_base* y;
  if (!z->_M_left || !z->_M_right) {
    y = z->_M_left ? z->_M_left : z->_M_right;
  } else {
    y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      y->_M_parent->_M_left = y->_M_right;
      if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    }
    y->_M_left = z->_M_left;
    z->_M_left->_M_parent = y;
  }
  if (y) y->_M_parent = z->_M_parent;
  if (root == z)
    root = y;
  else if (z->_M_parent->_M_left == z)
    z->_M_parent->_M_left = y;
  else
    z->_M_parent->_M_right = y;
  return z;
}

namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const pos) noexcept
{
  this->_M_next = pos;
  this->_M_prev = pos->_M_prev;
  pos->_M_prev->_M_next = this;
  pos->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
  _List_node_base* const n = this->_M_next;
  _List_node_base* const p = this->_M_prev;
  p->_M_next = n;
  n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
  if (this != last) {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base* const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
  }
}
void _List_node_base::_M_reverse() noexcept
{
  _List_node_base* t = this;
  do {
    _List_node_base* n = t->_M_next;
    t->_M_next = t->_M_prev;
    t->_M_prev = n;
    t = n;
  } while (t != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next);
      std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next;
      y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next;
    x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}
// one bucket, never rehash: iteration order of unordered containers is unspecified anyway
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t) const { return 1; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t, std::size_t, std::size_t) const
{
  return std::make_pair(false, (std::size_t)0);
}
}  // namespace __detail

size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
  const unsigned char* c = (const unsigned char*)p;
  size_t h = seed;
  for (size_t i = 0; i < n; ++i) h = h * 31 + c[i];
  return h;
}
}  // namespace std

extern "C" { void* __dso_handle = 0; }

namespace std {
__thread void* __once_callable;
__thread void (*__once_call)();
}  // namespace std
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" int pthread_once(pthread_once_t* o, void (*f)())
{
  static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
  pthread_mutex_lock(&m);
  if (*o != 2) {
    f();
    *o = 2;
  }
  pthread_mutex_unlock(&m);
  return 0;
}
