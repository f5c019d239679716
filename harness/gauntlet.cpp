#include "common.hpp"
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cstring>
#include <deque>
#include <forward_list>
#include <functional>
#include <iomanip>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <strings.h>
#include <ctype.h>
#include <stdio.h>
#include <stdlib.h>
#include <queue>
#include <shared_mutex>
#include <bitset>
using namespace vf;
static unsigned W;
#define T(n) if (W == n)
extern "C" void harness_main()
{
  W = (unsigned)sym_config("t", 0);
  u64 x = sym_range(1, 100, "x"), y = sym_range(1, 100, "y");
  T(0) { std::vector<u64> v{3, x, y}; std::sort(v.begin(), v.end()); ASSERT(v[0] <= v[1] && v[1] <= v[2], "s"); }
  T(1) { std::deque<u64> d; for (int i = 0; i < 70; ++i) d.push_back(i); d.pop_front(); ASSERT(d.front() == 1, "d"); }
  T(2) { std::set<u64> s; s.insert(x); s.insert(y); ASSERT(s.count(x), "s"); s.erase(x); ASSERT(!s.count(x), "e"); }
  T(3) { std::unordered_set<u64> s; s.insert(x); s.insert(y); ASSERT(s.count(x), "s"); s.erase(x); ASSERT(!s.count(x), "e"); }
  T(4) { std::string s = std::to_string(123) + "a"; ASSERT(s == "123a", "s"); s.insert(0, "q"); ASSERT(s.find("23") == 2, "f"); ASSERT(s.substr(1, 2) == "12", "sub"); s.erase(0, 1); s.resize(2); ASSERT(s.compare("12") == 0, "c"); ASSERT(s.rfind('2') == 1, "r"); }
  T(5) { std::ostringstream o; o << "a" << 12 << std::string("b") << 'c' << true; ASSERT(o.str() == "a12bc1", "o"); }
  T(6) { std::stringstream o; o << "a" << std::hex << 255; ASSERT(o.str() == "aff", "o"); }
  T(7) { std::shared_ptr<u64> p = std::make_shared<u64>(x); auto q = p; ASSERT(*q == x && p.use_count() == 2, "sp"); }
  T(8) { std::atomic<u64> a{0}; a += x; a.fetch_add(1); ASSERT(a.load() == x + 1, "at"); u64 e = x + 1; ASSERT(a.compare_exchange_strong(e, 5), "cas"); ASSERT(a.exchange(2) == 5, "x"); }
  T(9) { std::mutex m; std::unique_lock<std::mutex> l(m); l.unlock(); l.lock(); ASSERT(l.owns_lock(), "o"); }
  T(10) { std::recursive_mutex m; std::lock_guard<std::recursive_mutex> l(m); std::lock_guard<std::recursive_mutex> l2(m); }
  T(11) { u64 s = 0; std::vector<u64> v{x, y}; s = std::accumulate(v.begin(), v.end(), (u64)0); ASSERT(s == x + y, "acc"); ASSERT(std::any_of(v.begin(), v.end(), [&](u64 e) { return e == x; }), "any"); ASSERT(*std::max_element(v.begin(), v.end()) >= x, "max"); auto it = std::find_if(v.begin(), v.end(), [&](u64 e) { return e == y; }); ASSERT(it != v.end(), "find"); v.erase(std::remove_if(v.begin(), v.end(), [&](u64 e) { return e == x; }), v.end()); ASSERT(v.size() <= 1, "rem"); }
  T(12) { u64 r; bool o = __builtin_add_overflow(x, ~0ull - y, &r); ASSERT(o == (x > y), "ov"); bool m = __builtin_mul_overflow(x, ~0ull / 50, &r); ASSERT(m == (x > 50), "mul"); bool s = __builtin_sub_overflow(x, y, &r); ASSERT(s == (x < y), "sub"); }
  T(13) { ASSERT(__builtin_ctzll(x) < 7, "ctz"); ASSERT(__builtin_clzll(x) >= 57, "clz"); ASSERT(__builtin_popcountll(x) <= 7, "pc"); ASSERT(ffs((int)x) >= 1, "ffs"); }
  T(14) { char b[32]; snprintf(b, sizeof b, "%d-%s-%lu-%x", 5, "ab", 7ul, 255); ASSERT(!strcmp(b, "5-ab-7-ff"), "snprintf"); }
  T(15) { char b[8] = "abc"; char c[8]; memcpy(c, b, 8); memmove(c + 1, c, 4); memset(c, 'z', 1); ASSERT(!memcmp(c, "zabc", 4), "mm"); ASSERT(strchr(b, 'c') == b + 2, "sc"); ASSERT(strlen(b) == 3, "sl"); ASSERT(!strncmp(b, "abx", 2), "snc"); ASSERT(!strcasecmp("ABC", b), "scc"); ASSERT(strstr(b, "bc") == b + 1, "ss"); strncpy(c, "qq", 4); ASSERT(!strcmp(c, "qq"), "sn"); ASSERT(strrchr(b, 'a') == b, "rr"); ASSERT(memchr(b, 'b', 3) == b + 1, "mc"); char* d = strdup(b); ASSERT(!strcmp(d, b), "dup"); free(d); }
  T(16) { std::list<u64> l{1, 2, 3}; l.remove(2); l.push_front(x); l.splice(l.end(), std::list<u64>{9}); ASSERT(l.back() == 9, "l"); l.sort(); l.reverse(); ASSERT(l.size() == 4, "n"); }
  T(17) { std::map<std::string, u64> m; m["a"] = x; m.emplace("b", y); ASSERT(m.at("a") == x, "m"); auto r = m.insert({"a", 7}); ASSERT(!r.second, "i"); ASSERT(m.lower_bound("aa")->second == y, "lb"); m.erase("a"); ASSERT(m.find("a") == m.end(), "f"); ASSERT(std::next(m.begin()) == m.end() && std::prev(m.end()) == m.begin(), "np"); }
  T(18) { std::multimap<u64, u64> m; m.insert({x, 1}); m.insert({x, 2}); ASSERT(m.count(x) == 2, "c"); auto r = m.equal_range(x); ASSERT(std::distance(r.first, r.second) == 2, "er"); ASSERT(m.upper_bound(x) == m.end(), "ub"); }
  T(19) { std::function<u64(u64)> f = [&](u64 a) { return a + x; }; ASSERT(f(1) == x + 1, "f"); auto g = std::bind(f, std::placeholders::_1); ASSERT(g(2) == x + 2, "b"); }
  T(20) { try { std::vector<u64> v; v.at(3); ASSERT(false, "x"); } catch (const std::out_of_range& e) {} try { throw std::runtime_error("a"); } catch (std::exception& e) { ASSERT(!strcmp(e.what(), "a"), "w"); } try { try { throw std::invalid_argument(std::string("b")); } catch (...) { throw; } } catch (const std::logic_error& e) {} try { std::string("a").substr(5); ASSERT(0, ""); } catch (std::out_of_range&) {} }
  T(21) { std::bitset<70> b; b.set(x % 70); ASSERT(b.count() == 1, "b"); }
  T(22) { std::array<u64, 3> a{{1, 2, x}}; std::fill(a.begin(), a.end(), y); ASSERT(a[2] == y, "a"); std::swap(a[0], a[1]); std::copy(a.begin(), a.end(), a.begin()); }
  T(23) { std::priority_queue<u64> q; q.push(x); q.push(y); ASSERT(q.top() >= x, "q"); std::stack<u64> s; s.push(1); s.pop(); }
  T(24) { std::unique_ptr<u64[]> p(new u64[4]()); ASSERT(p[2] == 0, "p"); auto q = std::unique_ptr<u64, void (*)(u64*)>(new u64(1), [](u64* z) { delete z; }); }
  T(25) { std::tuple<u64, std::string> t{x, "a"}; u64 a; std::string b; std::tie(a, b) = t; ASSERT(a == x, "t"); }
  T(26) { std::call_once(*new std::once_flag, [] {}); }
  T(27) { std::string s = "AbC"; std::transform(s.begin(), s.end(), s.begin(), [](unsigned char c) { return (char)std::tolower(c); }); ASSERT(s == "abc", "tl"); ASSERT(toupper('a') == 'A' && isdigit('4') && isalpha('a') && isspace(' '), "ct"); ASSERT(atoi("12") == 12 && strtol("13", 0, 10) == 13, "at"); ASSERT(std::stoi("14") == 14 && std::stoul("15") == 15, "st"); }
  T(28) { std::unordered_map<std::string, u64> m; m["a"] = x; m["b"] = y; ASSERT(m.at("a") == x && m.count("b"), "um"); for (auto& e : m) e.second++; ASSERT(m["b"] == y + 1, "e"); m.erase("a"); }
  T(29) { double d = 3.0; d = d / 2; ASSERT((int)d == 1, "d"); float f = 0.5f; ASSERT(f < d, "fd"); ASSERT((u64)(100.0 * 0.5) == 50, "c"); ASSERT(std::min<double>(1, 2) == 1, "m"); }
  T(30) { std::shared_timed_mutex m; { std::shared_lock<std::shared_timed_mutex> l(m); } std::unique_lock<std::shared_timed_mutex> k(m); }
  T(31) { auto t = std::chrono::steady_clock::now(); auto u = std::chrono::system_clock::now(); (void)t; (void)u; }
  T(32) { std::forward_list<u64> l; l.push_front(x); l.push_front(y); ASSERT(l.front() == y, "f"); }
  T(33) { std::vector<bool> v(70); v[67] = true; ASSERT(std::count(v.begin(), v.end(), true) == 1, "vb"); }
  T(34) { std::weak_ptr<u64> w; { auto p = std::make_shared<u64>(1); w = p; ASSERT(!w.expired(), "w"); } ASSERT(w.expired(), "we"); }
  T(35) { std::ostringstream o; o << std::setw(5) << std::setfill('0') << 42; ASSERT(o.str() == "00042", "o"); }
  T(36) { std::istringstream i("12 ab"); int n; std::string s; i >> n >> s; ASSERT(n == 12 && s == "ab", "i"); }
  T(37) { std::string a = "x", b = a + "/" + std::string(3, 'c'); b += '.'; b.append("log", 2); b.push_back('q'); b.pop_back(); ASSERT(b == "x/ccc.lo", "b"); ASSERT(b.find_last_of('/') == 1 && b.find_first_of("./") == 1 && b.find_first_not_of("x") == 1, "ff"); std::swap(a, b); a.clear(); ASSERT(a.empty(), "e"); b = std::move(a); a.assign("zz"); ASSERT(a < "zzz" && a != b, "lt"); a.replace(0, 1, "yy"); ASSERT(a == "yyz", "rep"); std::string c(a.begin(), a.end()); c.reserve(100); c.shrink_to_fit(); ASSERT(c == a, "c"); }
  T(38) { void* p = realloc(malloc(8), 16); memset(p, 1, 16); free(p); p = calloc(2, 8); ASSERT(((u64*)p)[1] == 0, "c"); free(p); void* q = nullptr; ASSERT(posix_memalign(&q, 64, 128) == 0 && (uintptr_t)q % 64 == 0, "pm"); free(q); q = aligned_alloc(64, 128); free(q); }
  T(39) { std::vector<u64> v(3, x); v.insert(v.begin() + 1, y); v.emplace_back(4); v.erase(v.begin()); v.resize(10); v.assign(2, 1); std::vector<u64> w = std::move(v); ASSERT(w.size() == 2, "v"); std::reverse(w.begin(), w.end()); auto it = std::lower_bound(w.begin(), w.end(), 1); ASSERT(it == w.begin(), "lb"); std::for_each(w.begin(), w.end(), [](u64& e) { e++; }); std::partition(w.begin(), w.end(), [](u64 e) { return e > 1; }); std::stable_sort(w.begin(), w.end()); std::unique(w.begin(), w.end()); std::iota(w.begin(), w.end(), 0); std::rotate(w.begin(), w.begin() + 1, w.end()); }
  T(40) { std::mutex a, b; std::lock(a, b); a.unlock(); b.unlock(); ASSERT(a.try_lock(), "tl"); a.unlock(); std::unique_lock<std::mutex> l(a, std::defer_lock); l.lock(); std::unique_lock<std::mutex> t(b, std::try_to_lock); ASSERT(t.owns_lock(), "ow"); }
  T(41) { thread_local static u64 z = 4; z += x; ASSERT(z == x + 4, "tls"); static std::string s("abc"); ASSERT(s.size() == 3, "st"); }
  T(42) { __uint128_t m = (__uint128_t)x * y; ASSERT((u64)m == x * y, "128"); ASSERT(x * y / y == x, "div"); ASSERT((x ^ y ^ y) == x, "xor"); ASSERT(((x << 3) >> 3) == x, "sh"); ASSERT((long)-x < 0, "neg"); ASSERT(std::numeric_limits<u64>::max() - x > y, "lim"); ASSERT((x & (~x + 1)) <= x, "lb"); }
  COVER("end");

}
