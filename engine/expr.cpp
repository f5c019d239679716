#include "expr.h"

#include <algorithm>
#include <chrono>
#include <cmath>
#include <map>
#include <set>
#include <unordered_set>
#include <unistd.h>

std::vector<std::string> g_varNames;
std::vector<unsigned> g_varW;
static std::unordered_map<std::string, E> g_varTab;

struct HS {
  size_t operator()(E e) const
  {
    uint64_t h = (uint64_t)e->k * 1000003u + e->w;
    auto mix = [&](uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
    mix((uint64_t)e->c);
    mix((uint64_t)(e->c >> 64));
    mix(e->off);
    mix(e->a ? e->a->id + 1 : 0);
    mix(e->b ? e->b->id + 1 : 0);
    mix(e->d ? e->d->id + 1 : 0);
    return h;
  }
};
struct EQ {
  bool operator()(E x, E y) const
  {
    return x->k == y->k && x->w == y->w && x->c == y->c && x->off == y->off && x->a == y->a && x->b == y->b &&
           x->d == y->d;
  }
};
static std::unordered_set<E, HS, EQ> g_tab;
static uint32_t g_nextId = 1;

static E intern(K k, unsigned w, u128 c, uint32_t off, E a, E b, E d)
{
  Expr t;
  t.k = k;
  t.w = w;
  t.c = c;
  t.off = off;
  t.a = a;
  t.b = b;
  t.d = d;
  t.id = 0;
  auto it = g_tab.find(&t);
  if (it != g_tab.end()) return *it;
  Expr* n = new Expr(t);
  n->id = g_nextId++;
  g_tab.insert(n);
  return n;
}

E mkConst(u128 v, unsigned w) { return intern(K::Const, w, v & maskw(w), 0, 0, 0, 0); }
E mkVar(const std::string& name, unsigned w)
{
  std::string key = name + "/" + std::to_string(w);
  auto it = g_varTab.find(key);
  if (it != g_varTab.end()) return it->second;
  uint32_t idx = g_varNames.size();
  g_varNames.push_back(name);
  g_varW.push_back(w);
  E e = intern(K::Var, w, 0, idx, 0, 0, 0);
  g_varTab[key] = e;
  return e;
}

// ---- linear normalisation -------------------------------------------------
typedef std::vector<std::pair<E, u128>> Lin;  // sorted by id
static bool lin(E e, u128 coef, std::map<uint32_t, std::pair<E, u128>>& m, u128& c, int& budget)
{
  if (--budget < 0) return false;
  unsigned w = e->w;
  if (e->k == K::Const) {
    c = (c + coef * e->c) & maskw(w);
    return true;
  }
  if (e->k == K::Add) return lin(e->a, coef, m, c, budget) && lin(e->b, coef, m, c, budget);
  if (e->k == K::Mul && e->b->k == K::Const) return lin(e->a, (coef * e->b->c) & maskw(w), m, c, budget);
  auto& p = m[e->id];
  p.first = e;
  p.second = (p.second + coef) & maskw(w);
  return true;
}
static E unlin(std::map<uint32_t, std::pair<E, u128>>& m, u128 c, unsigned w)
{
  E r = nullptr;
  for (auto& kv : m) {
    u128 co = kv.second.second & maskw(w);
    if (co == 0) continue;
    E t = kv.second.first;
    if (co != 1) t = intern(K::Mul, w, 0, 0, t, mkConst(co, w), 0);
    r = r ? intern(K::Add, w, 0, 0, r, t, 0) : t;
  }
  c &= maskw(w);
  if (!r) return mkConst(c, w);
  if (c) r = intern(K::Add, w, 0, 0, r, mkConst(c, w), 0);
  return r;
}
static E linComb(E a, u128 ca, E b, u128 cb)
{
  std::map<uint32_t, std::pair<E, u128>> m;
  u128 c = 0;
  int budget = 64;
  if (lin(a, ca, m, c, budget) && (!b || lin(b, cb, m, c, budget))) return unlin(m, c, a->w);
  E ta = a, tb = b;
  auto mulc = [&](E x, u128 k) -> E {
    k &= maskw(x->w);
    if (k == 1) return x;
    if (x->k == K::Const) return mkConst(x->c * k, x->w);
    return intern(K::Mul, x->w, 0, 0, x, mkConst(k, x->w), 0);
  };
  ta = mulc(a, ca);
  if (!b) return ta;
  tb = mulc(b, cb);
  if (ta->k == K::Const && tb->k == K::Const) return mkConst(ta->c + tb->c, a->w);
  if (ta->k == K::Const) std::swap(ta, tb);
  return intern(K::Add, a->w, 0, 0, ta, tb, 0);
}
E mkAdd(E a, E b)
{
  if (isC(a) && isC(b)) return mkConst(a->c + b->c, a->w);
  if (a->w == 1) return mkBin(K::Xor, a, b);
  return linComb(a, 1, b, 1);
}
E mkSub(E a, E b)
{
  if (isC(a) && isC(b)) return mkConst(a->c - b->c, a->w);
  if (a == b) return mkConst(0, a->w);
  if (a->w == 1) return mkBin(K::Xor, a, b);
  return linComb(a, 1, b, maskw(a->w));
}
static E mkNot0(E a)
{
  switch (a->k) {
    case K::Eq:
      if (a->a->w == 1 && isC(a->b) && a->b->c == 0) return a->a;
      break;
    case K::Ult: return mkBin(K::Ule, a->b, a->a);
    case K::Ule: return mkBin(K::Ult, a->b, a->a);
    case K::Slt: return mkBin(K::Sle, a->b, a->a);
    case K::Sle: return mkBin(K::Slt, a->b, a->a);
    case K::Ite: return mkIte(a->a, mkNot(a->b), mkNot(a->d));
    case K::Or: return mkBin(K::And, mkNot(a->a), mkNot(a->b));
    case K::And: return mkBin(K::Or, mkNot(a->a), mkNot(a->b));
    default: break;
  }
  return intern(K::Eq, 1, 0, 0, a, mkConst(0, 1), 0);
}
E mkNot(E a)
{
  if (isC(a)) return mkConst(!a->c, 1);
  if (!a->neg) {
    E n = mkNot0(a);
    a->neg = n;
    if (!n->neg && !isC(n)) n->neg = a;
  }
  return a->neg;
}
static u128 foldBin(K k, u128 a, u128 b, unsigned w, bool& ok)
{
  ok = true;
  u128 m = maskw(w);
  switch (k) {
    case K::Mul: return (a * b) & m;
    case K::UDiv: return b ? a / b : m;
    case K::URem: return b ? a % b : a;
    case K::SDiv: {
      s128 x = sx(a, w), y = sx(b, w);
      if (y == 0) return (x < 0 ? 1 : m);
      return (u128)(x / y) & m;
    }
    case K::SRem: {
      s128 x = sx(a, w), y = sx(b, w);
      if (y == 0) return a;
      return (u128)(x % y) & m;
    }
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K::LShr: return b >= w ? 0 : a >> (unsigned)b;
    case K::AShr: {
      s128 x = sx(a, w);
      unsigned s = b >= w ? w - 1 : (unsigned)b;
      return (u128)(x >> s) & m;
    }
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return sx(a, w) < sx(b, w);
    case K::Sle: return sx(a, w) <= sx(b, w);
    case K::Eq: return a == b;
    default: ok = false; return 0;
  }
}
static bool isCmp(K k) { return k == K::Eq || k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle; }

E mkEq(E a, E b)
{
  if (a == b) return mkConst(1, 1);
  if (isC(a) && isC(b)) return mkConst(a->c == b->c, 1);
  if (isC(a)) std::swap(a, b);
  unsigned w = a->w;
  if (w == 1) {
    if (isC(b)) return b->c ? a : mkNot(a);
  }
  if (isC(b)) {
    if (a->k == K::ZExt) {
      if (b->c > maskw(a->a->w)) return mkConst(0, 1);
      return mkEq(a->a, mkConst(b->c, a->a->w));
    }
    if (a->k == K::SExt) {
      E t = mkExtract(b, 0, a->a->w);
      if (mkSExt(t, w) != b) return mkConst(0, 1);
      return mkEq(a->a, t);
    }
    if (a->k == K::Ite) {
      if (isC(a->b) && isC(a->d)) {
        bool x = a->b->c == b->c, y = a->d->c == b->c;
        if (x && y) return mkConst(1, 1);
        if (x) return a->a;
        if (y) return mkNot(a->a);
        return mkConst(0, 1);
      }
      if (isC(a->b) || isC(a->d)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->d, b));
    }
    if (a->k == K::Add && isC(a->b)) return mkEq(a->a, mkConst(b->c - a->b->c, w));
    if (a->k == K::Concat) {
      unsigned lw = a->b->w;
      return mkAnd1(mkEq(a->a, mkConst(b->c >> lw, a->a->w)), mkEq(a->b, mkConst(b->c, lw)));
    }
    if (a->k == K::Xor && isC(a->b)) return mkEq(a->a, mkConst(b->c ^ a->b->c, w));
    if (a->k == K::And && isC(a->b) && (b->c & ~a->b->c)) return mkConst(0, 1);
    return intern(K::Eq, 1, 0, 0, a, b, 0);
  }
  if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
  if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
  if (w > 1 && (a->k == K::Add || b->k == K::Add || a->k == K::Mul || b->k == K::Mul)) {
    E d = mkSub(a, b);
    if (isC(d)) return mkConst(d->c == 0, 1);
    if (d->k == K::Add && isC(d->b)) {
      // keep single-variable form x == c
      if (d->a->k != K::Add && d->a->k != K::Mul) return intern(K::Eq, 1, 0, 0, d->a, mkConst(-d->b->c, w), 0);
    }
  }
  if (a->id > b->id) std::swap(a, b);
  return intern(K::Eq, 1, 0, 0, a, b, 0);
}
E mkAnd1(E a, E b) { return mkBin(K::And, a, b); }
E mkOr1(E a, E b) { return mkBin(K::Or, a, b); }

static unsigned log2of(u128 v)
{
  unsigned n = 0;
  while (v > 1) {
    v >>= 1;
    n++;
  }
  return n;
}
// number of leading bits known zero
static unsigned knownZeroHigh(E e)
{
  switch (e->k) {
    case K::Const: {
      unsigned n = 0;
      for (int i = e->w - 1; i >= 0 && !((e->c >> i) & 1); --i) n++;
      return n;
    }
    case K::ZExt: return e->w - e->a->w + knownZeroHigh(e->a);
    case K::Concat: {
      unsigned h = knownZeroHigh(e->a);
      return h == e->a->w ? h + knownZeroHigh(e->b) : h;
    }
    case K::And: return std::max(knownZeroHigh(e->a), knownZeroHigh(e->b));
    case K::LShr:
      if (isC(e->b) && e->b->c < e->w) return std::min<unsigned>(e->w, knownZeroHigh(e->a) + (unsigned)e->b->c);
      return knownZeroHigh(e->a);
    case K::Ite: return std::min(knownZeroHigh(e->b), knownZeroHigh(e->d));
    default: return 0;
  }
}

E mkBin(K k, E a, E b)
{
  unsigned w = a->w;
  if (a->w != b->w) {
    fprintf(stderr, "width mismatch in mkBin %d: %u %u\n", (int)k, a->w, b->w);
    abort();
  }
  if (k == K::Add) return mkAdd(a, b);
  if (k == K::Eq) return mkEq(a, b);
  if (isC(a) && isC(b)) {
    bool ok;
    u128 r = foldBin(k, a->c, b->c, w, ok);
    if (ok) return mkConst(r, isCmp(k) ? 1 : w);
  }
  u128 M = maskw(w);
  if ((k == K::And || k == K::Or || k == K::Xor) && a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w)
    return mkZExt(mkBin(k, a->a, b->a), w);
  switch (k) {
    case K::Mul:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        return linComb(a, b->c, nullptr, 0);
      }
      if (a->id > b->id) std::swap(a, b);
      break;
    case K::UDiv:
      if (isC(b)) {
        if (b->c == 1) return a;
        if (b->c && !(b->c & (b->c - 1))) return mkBin(K::LShr, a, mkConst(log2of(b->c), w));
      }
      break;
    case K::URem:
      if (isC(b) && b->c && !(b->c & (b->c - 1))) return mkBin(K::And, a, mkConst(b->c - 1, w));
      break;
    case K::And:
      if (isC(a)) std::swap(a, b);
      if (a == b) return a;
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == M) return a;
        if (a->k == K::And && isC(a->b)) return mkBin(K::And, a->a, mkConst(a->b->c & b->c, w));
        if (a->k == K::ZExt && (b->c & maskw(a->a->w)) == maskw(a->a->w)) return a;
        if (a->k == K::ZExt)
          return mkZExt(mkBin(K::And, a->a, mkConst(b->c & maskw(a->a->w), a->a->w)), w);
        // low mask -> zext(extract)
        if (w > 1 && (b->c & (b->c + 1)) == 0) {
          unsigned n = log2of(b->c + 1);
          return mkZExt(mkExtract(a, 0, n), w);
        }
        // high mask -> a - low part
        u128 lowm = M & ~b->c;
        if (w > 1 && lowm && (lowm & (lowm + 1)) == 0 && a->k != K::Ite) {
          unsigned n = log2of(lowm + 1);
          return mkSub(a, mkZExt(mkExtract(a, 0, n), w));
        }
      }
      if (w == 1) {
        if (mkNot(a) == b) return mkConst(0, 1);
        if (a->id > b->id && !isC(b)) std::swap(a, b);
      }
      break;
    case K::Or:
      if (isC(a)) std::swap(a, b);
      if (a == b) return a;
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c == M) return b;
      }
      if (w == 1) {
        if (mkNot(a) == b) return mkConst(1, 1);
        if (a->id > b->id && !isC(b)) std::swap(a, b);
      }
      break;
    case K::Xor:
      if (isC(a)) std::swap(a, b);
      if (a == b) return mkConst(0, w);
      if (isC(b)) {
        if (b->c == 0) return a;
        if (w == 1) return mkNot(a);
        if (a->k == K::Xor && isC(a->b)) return mkBin(K::Xor, a->a, mkConst(a->b->c ^ b->c, w));
        if (b->c == M) return linComb(a, M, mkConst(M, w), 1);  // ~a = -a - 1
      }
      break;
    case K::Shl:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(0, w);
        return linComb(a, (u128)1 << (unsigned)b->c, nullptr, 0);
      }
      break;
    case K::LShr:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->c;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      if (isC(a) && a->c == 0) return a;
      break;
    case K::AShr:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c < w) {
          unsigned s = (unsigned)b->c;
          return mkSExt(mkExtract(a, s, w - s), w);
        }
      }
      break;
    case K::Ult:
      if (a == b) return mkConst(0, 1);
      if (isC(b) && b->c == 0) return mkConst(0, 1);
      if (isC(a) && a->c == M) return mkConst(0, 1);
      if (isC(b) && b->c == 1) return mkEq(a, mkConst(0, w));
      if (isC(a) && a->c == 0) return mkNot(mkEq(b, a));
      if (w == 1) return mkAnd1(mkNot(a), b);
      if (isC(b) && knownZeroHigh(a) && (b->c >> (w - knownZeroHigh(a))) != 0) return mkConst(1, 1);
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Ult, a->a, b->a);
      if (a->k == K::ZExt && isC(b)) return mkBin(K::Ult, a->a, mkConst(b->c, a->a->w));
      if (b->k == K::ZExt && isC(a)) {
        if (a->c >= maskw(b->a->w)) return mkConst(0, 1);
        return mkBin(K::Ult, mkConst(a->c, b->a->w), b->a);
      }
      break;
    case K::Ule:
      if (a == b) return mkConst(1, 1);
      if (isC(a) && a->c == 0) return mkConst(1, 1);
      if (isC(b) && b->c == M) return mkConst(1, 1);
      if (isC(b) && b->c == 0) return mkEq(a, b);
      if (isC(b)) return mkBin(K::Ult, a, mkConst(b->c + 1, w));
      if (isC(a)) return mkBin(K::Ult, mkConst(a->c - 1, w), b);
      if (w == 1) return mkOr1(mkNot(a), b);
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Ule, a->a, b->a);
      break;
    case K::Slt:
      if (a == b) return mkConst(0, 1);
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Ult, a->a, b->a);
      if (knownZeroHigh(a) && knownZeroHigh(b)) return mkBin(K::Ult, a, b);
      break;
    case K::Sle:
      if (a == b) return mkConst(1, 1);
      if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Ule, a->a, b->a);
      if (knownZeroHigh(a) && knownZeroHigh(b)) return mkBin(K::Ule, a, b);
      break;
    default: break;
  }
  // comparisons of ite(c, const, const) with a const
  if (isCmp(k)) {
    if (a->k == K::Ite && isC(b) && isC(a->b) && isC(a->d))
      return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->d, b));
    if (b->k == K::Ite && isC(a) && isC(b->b) && isC(b->d))
      return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->d));
  }
  return intern(k, isCmp(k) ? 1 : w, 0, 0, a, b, 0);
}

E mkExtract(E a, unsigned off, unsigned w)
{
  if (off == 0 && w == a->w) return a;
  switch (a->k) {
    case K::Const: return mkConst(a->c >> off, w);
    case K::Extract: return mkExtract(a->a, a->off + off, w);
    case K::Concat: {
      unsigned lw = a->b->w;
      if (off >= lw) return mkExtract(a->a, off - lw, w);
      if (off + w <= lw) return mkExtract(a->b, off, w);
      return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
    }
    case K::ZExt: {
      unsigned iw = a->a->w;
      if (off >= iw) return mkConst(0, w);
      if (off + w <= iw) return mkExtract(a->a, off, w);
      return mkZExt(mkExtract(a->a, off, iw - off), w);
    }
    case K::SExt: {
      unsigned iw = a->a->w;
      if (off + w <= iw) return mkExtract(a->a, off, w);
      break;
    }
    case K::And:
    case K::Or:
    case K::Xor:
      if (isC(a->b)) return mkBin(a->k, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
      break;
    case K::Ite:
      if (isC(a->b) || isC(a->d)) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->d, off, w));
      break;
    case K::Add:
    case K::Mul:
      if (off == 0 && w > 1) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    default: break;
  }
  return intern(K::Extract, w, 0, off, a, 0, 0);
}
E mkConcat(E hi, E lo)
{
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->off == lo->off + lo->w)
    return mkExtract(hi->a, lo->off, w);
  if (hi->k == K::Extract && lo->k == K::Concat && lo->a->k == K::Extract && lo->a->a == hi->a &&
      hi->off == lo->a->off + lo->a->w)
    return mkConcat(mkExtract(hi->a, lo->a->off, hi->w + lo->a->w), lo->b);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
  // extract(x, n..) with lo == x truncated (x being narrower stored whole)
  if (hi->k == K::Extract && lo == mkExtract(hi->a, 0, hi->off) && hi->off == lo->w)
    return mkExtract(hi->a, 0, w);
  return intern(K::Concat, w, 0, 0, hi, lo, 0);
}
E mkZExt(E a, unsigned w)
{
  if (w == a->w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->k == K::ZExt) return mkZExt(a->a, w);
  if (a->k == K::Ite && isC(a->b) && isC(a->d)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->d, w));
  return intern(K::ZExt, w, 0, 0, a, 0, 0);
}
E mkSExt(E a, unsigned w)
{
  if (w == a->w) return a;
  if (isC(a)) return mkConst((u128)sx(a->c, a->w), w);
  if (a->k == K::ZExt) return mkZExt(a->a, w);
  if (a->k == K::SExt) return mkSExt(a->a, w);
  if (a->k == K::Ite && isC(a->b) && isC(a->d)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->d, w));
  return intern(K::SExt, w, 0, 0, a, 0, 0);
}
E mkIte(E c, E a, E b)
{
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == K::Eq && c->a->w == 1 && isC(c->b) && c->b->c == 0) {
    c = c->a;
    std::swap(a, b);
  }
  if (a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mkOr1(c, b);
    if (isFalse(a)) return mkAnd1(mkNot(c), b);
    if (isTrue(b)) return mkOr1(mkNot(c), a);
    if (isFalse(b)) return mkAnd1(c, a);
  }
  if (a->k == K::Ite && a->a == c) a = a->b;
  if (b->k == K::Ite && b->a == c) b = b->d;
  if (a == b) return a;
  return intern(K::Ite, a->w, 0, 0, c, a, b);
}

static double bitsToD(u128 v, unsigned w)
{
  if (w == 32) {
    uint32_t x = (uint32_t)v;
    float f;
    memcpy(&f, &x, 4);
    return f;
  }
  uint64_t x = (uint64_t)v;
  double d;
  memcpy(&d, &x, 8);
  return d;
}
static u128 dToBits(double d, unsigned w)
{
  if (w == 32) {
    float f = (float)d;
    uint32_t x;
    memcpy(&x, &f, 4);
    return x;
  }
  uint64_t x;
  memcpy(&x, &d, 8);
  return x;
}
static u128 foldFP(K k, u128 a, unsigned aw, u128 b, unsigned w)
{
  auto f32 = [](u128 v) {
    uint32_t x = (uint32_t)v;
    float f;
    memcpy(&f, &x, 4);
    return f;
  };
  auto tb = [](float f) {
    uint32_t x;
    memcpy(&x, &f, 4);
    return (u128)x;
  };
  switch (k) {
    case K::FAdd: return aw == 32 ? tb(f32(a) + f32(b)) : dToBits(bitsToD(a, 64) + bitsToD(b, 64), 64);
    case K::FSub: return aw == 32 ? tb(f32(a) - f32(b)) : dToBits(bitsToD(a, 64) - bitsToD(b, 64), 64);
    case K::FMul: return aw == 32 ? tb(f32(a) * f32(b)) : dToBits(bitsToD(a, 64) * bitsToD(b, 64), 64);
    case K::FDiv: return aw == 32 ? tb(f32(a) / f32(b)) : dToBits(bitsToD(a, 64) / bitsToD(b, 64), 64);
    case K::FOeq: return bitsToD(a, aw) == bitsToD(b, aw);
    case K::FOlt: return bitsToD(a, aw) < bitsToD(b, aw);
    case K::FOle: return bitsToD(a, aw) <= bitsToD(b, aw);
    case K::FUno: return std::isnan(bitsToD(a, aw)) || std::isnan(bitsToD(b, aw));
    case K::UIToFP: {
      uint64_t v = (uint64_t)a;
      return w == 32 ? tb((float)v) : dToBits((double)v, 64);
    }
    case K::SIToFP: {
      int64_t v = (int64_t)sx(a, aw);
      return w == 32 ? tb((float)v) : dToBits((double)v, 64);
    }
    case K::FPToUI: {
      double d = bitsToD(a, aw);
      if (!(d > -1.0) || d >= ldexp(1.0, w)) return 0;
      return (u128)(uint64_t)d & maskw(w);
    }
    case K::FPToSI: {
      double d = bitsToD(a, aw);
      if (std::isnan(d) || d >= ldexp(1.0, w - 1) || d < -ldexp(1.0, w - 1)) return 0;
      return (u128)(s128)(int64_t)d & maskw(w);
    }
    case K::FPConv: return dToBits(bitsToD(a, aw), w);
    default: abort();
  }
}
E mkFP(K k, E a, E b, unsigned w)
{
  if (isC(a) && (!b || isC(b))) return mkConst(foldFP(k, a->c, a->w, b ? b->c : 0, w), w);
  return intern(k, w, 0, 0, a, b, 0);
}

// ---- evaluation -------------------------------------------------------------
static uint64_t g_gen = 1;
uint64_t newModelGen() { return ++g_gen; }

static u128 evalNode(E e, const Model& m)
{
  switch (e->k) {
    case K::Const: return e->c;
    case K::Var: {
      auto it = m.v.find(e->off);
      return it == m.v.end() ? 0 : it->second;
    }
    case K::Add: return (e->a->evVal + e->b->evVal) & maskw(e->w);
    case K::Concat: return (e->a->evVal << e->b->w) | e->b->evVal;
    case K::Extract: return (e->a->evVal >> e->off) & maskw(e->w);
    case K::ZExt: return e->a->evVal;
    case K::SExt: return (u128)sx(e->a->evVal, e->a->w) & maskw(e->w);
    case K::Ite: return e->a->evVal ? e->b->evVal : e->d->evVal;
    default: {
      if (e->k >= K::FAdd) return foldFP(e->k, e->a->evVal, e->a->w, e->b ? e->b->evVal : 0, e->w);
      bool ok;
      return foldBin(e->k, e->a->evVal, e->b->evVal, e->a->w, ok);
    }
  }
}
u128 evalE(E root, const Model& m)
{
  if (root->k == K::Const) return root->c;
  if (root->evGen == m.gen) return root->evVal;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (e->evGen == m.gen) {
      st.pop_back();
      continue;
    }
    bool ready = true;
    for (E c : {e->a, e->b, e->d})
      if (c && c->evGen != m.gen) {
        st.push_back(c);
        ready = false;
      }
    if (!ready) continue;
    e->evVal = evalNode(e, m);
    e->evGen = m.gen;
    st.pop_back();
  }
  return root->evVal;
}

static const std::vector<uint32_t> g_noVars;
const std::vector<uint32_t>& varsOf(E root)
{
  if (root->vs) return *root->vs;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (e->vs) {
      st.pop_back();
      continue;
    }
    bool ready = true;
    for (E c : {e->a, e->b, e->d})
      if (c && !c->vs) {
        st.push_back(c);
        ready = false;
      }
    if (!ready) continue;
    st.pop_back();
    if (e->k == K::Var) {
      e->vs = new std::vector<uint32_t>{e->off};
      continue;
    }
    const std::vector<uint32_t>* best = &g_noVars;
    std::vector<uint32_t> u;
    bool own = false;
    for (E c : {e->a, e->b, e->d}) {
      if (!c || c->vs->empty() || c->vs == best) continue;
      if (best->empty()) {
        best = c->vs;
        continue;
      }
      const std::vector<uint32_t>& cur = own ? u : *best;
      if (std::includes(cur.begin(), cur.end(), c->vs->begin(), c->vs->end())) continue;
      std::vector<uint32_t> t;
      std::set_union(cur.begin(), cur.end(), c->vs->begin(), c->vs->end(), std::back_inserter(t));
      u.swap(t);
      own = true;
    }
    e->vs = own ? new std::vector<uint32_t>(u) : best;
  }
  return *root->vs;
}

static const char* kname(K k)
{
  static const char* n[] = {"const", "var",  "add",  "mul",  "udiv", "sdiv", "urem",   "srem",    "and",  "or",
                            "xor",   "shl",  "lshr", "ashr", "eq",   "ult",  "ule",    "slt",     "sle",  "concat",
                            "ext",   "zext", "sext", "ite",  "fadd", "fsub", "fmul",   "fdiv",    "foeq", "folt",
                            "fole",  "funo", "uitofp", "sitofp", "fptoui", "fptosi", "fpconv"};
  return n[(int)k];
}
std::string exprStr(E e, int depth)
{
  if (e->k == K::Const) {
    char b[64];
    snprintf(b, 64, "0x%llx", (unsigned long long)e->c);
    return b;
  }
  if (e->k == K::Var) return g_varNames[e->off];
  if (depth == 0) return "..";
  std::string s = std::string("(") + kname(e->k);
  if (e->k == K::Extract) s += "[" + std::to_string(e->off) + "+" + std::to_string(e->w) + "]";
  for (E c : {e->a, e->b, e->d})
    if (c) s += " " + exprStr(c, depth - 1);
  return s + ")";
}

// ---- z3 ---------------------------------------------------------------------
static Z3_context g_z;
static Z3_solver g_inc;
static Z3_solver g_heavy;
static Z3_solver g_lia;
static Z3_sort g_int;
SolverStats g_ss;
std::string g_dumpDir;

void solverInit()
{
  Z3_config cfg = Z3_mk_config();
  g_z = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  g_inc = Z3_mk_simple_solver(g_z);
  Z3_solver_inc_ref(g_z, g_inc);
  Z3_params p = Z3_mk_params(g_z);
  Z3_params_inc_ref(g_z, p);
  Z3_params_set_uint(g_z, p, Z3_mk_string_symbol(g_z, "rlimit"), 20000000);
  Z3_solver_set_params(g_z, g_inc, p);
  g_heavy = nullptr;
  g_int = Z3_mk_int_sort(g_z);
  g_lia = Z3_mk_solver_for_logic(g_z, Z3_mk_string_symbol(g_z, "QF_LIA"));
  Z3_solver_inc_ref(g_z, g_lia);
  Z3_params_set_uint(g_z, p, Z3_mk_string_symbol(g_z, "rlimit"), 10000000);
  Z3_solver_set_params(g_z, g_lia, p);
}
static Z3_ast zbv(E e);
static Z3_ast zbool(E e);  // e has width 1
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(g_z, w); }
static Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(g_z) : Z3_mk_fpa_sort_64(g_z); }
static Z3_ast zfp(E e) { return Z3_mk_fpa_to_fp_bv(g_z, zbv(e), fps(e->w)); }
static std::unordered_map<uint32_t, Z3_ast> g_boolCache;

static Z3_ast zconst(u128 v, unsigned w)
{
  if (w <= 64) return Z3_mk_unsigned_int64(g_z, (uint64_t)v, bvs(w));
  Z3_ast hi = Z3_mk_unsigned_int64(g_z, (uint64_t)(v >> 64), bvs(w - 64));
  Z3_ast lo = Z3_mk_unsigned_int64(g_z, (uint64_t)v, bvs(64));
  return Z3_mk_concat(g_z, hi, lo);
}
static Z3_ast keep(E e, Z3_ast z)
{
  Z3_inc_ref(g_z, z);
  e->z = z;
  return z;
}
static Z3_ast b2bv(Z3_ast b)
{
  return Z3_mk_ite(g_z, b, Z3_mk_unsigned_int64(g_z, 1, bvs(1)), Z3_mk_unsigned_int64(g_z, 0, bvs(1)));
}
static Z3_ast zbool(E e)
{
  auto it = g_boolCache.find(e->id);
  if (it != g_boolCache.end()) return it->second;
  Z3_ast r;
  switch (e->k) {
    case K::Const: r = e->c ? Z3_mk_true(g_z) : Z3_mk_false(g_z); break;
    case K::Eq:
      if (e->a->w == 1) {
        if (isC(e->b))
          r = e->b->c ? zbool(e->a) : Z3_mk_not(g_z, zbool(e->a));
        else
          r = Z3_mk_iff(g_z, zbool(e->a), zbool(e->b));
      } else
        r = Z3_mk_eq(g_z, zbv(e->a), zbv(e->b));
      break;
    case K::Ult: r = Z3_mk_bvult(g_z, zbv(e->a), zbv(e->b)); break;
    case K::Ule: r = Z3_mk_bvule(g_z, zbv(e->a), zbv(e->b)); break;
    case K::Slt: r = Z3_mk_bvslt(g_z, zbv(e->a), zbv(e->b)); break;
    case K::Sle: r = Z3_mk_bvsle(g_z, zbv(e->a), zbv(e->b)); break;
    case K::FOeq: r = Z3_mk_fpa_eq(g_z, zfp(e->a), zfp(e->b)); break;
    case K::FOlt: r = Z3_mk_fpa_lt(g_z, zfp(e->a), zfp(e->b)); break;
    case K::FOle: r = Z3_mk_fpa_leq(g_z, zfp(e->a), zfp(e->b)); break;
    case K::FUno: {
      Z3_ast x[2] = {Z3_mk_fpa_is_nan(g_z, zfp(e->a)), Z3_mk_fpa_is_nan(g_z, zfp(e->b))};
      r = Z3_mk_or(g_z, 2, x);
      break;
    }
    case K::And: {
      Z3_ast x[2] = {zbool(e->a), zbool(e->b)};
      r = Z3_mk_and(g_z, 2, x);
      break;
    }
    case K::Or: {
      Z3_ast x[2] = {zbool(e->a), zbool(e->b)};
      r = Z3_mk_or(g_z, 2, x);
      break;
    }
    case K::Xor: r = Z3_mk_xor(g_z, zbool(e->a), zbool(e->b)); break;
    case K::Ite: r = Z3_mk_ite(g_z, zbool(e->a), zbool(e->b), zbool(e->d)); break;
    default: r = Z3_mk_eq(g_z, zbv(e), Z3_mk_unsigned_int64(g_z, 1, bvs(1)));
  }
  Z3_inc_ref(g_z, r);
  g_boolCache[e->id] = r;
  return r;
}
static Z3_ast zbv(E e)
{
  if (e->z) return e->z;
  if (e->w == 1) switch (e->k) {
      case K::Var:
      case K::Extract:
      case K::Const:
      case K::Mul:
      case K::UDiv:
      case K::SDiv:
      case K::URem:
      case K::SRem:
      case K::Shl:
      case K::LShr:
      case K::AShr:
      case K::FPToUI:
      case K::FPToSI: break;
      default: return keep(e, b2bv(zbool(e)));
    }
  Z3_ast r;
  switch (e->k) {
    case K::Const: r = zconst(e->c, e->w); break;
    case K::Var: {
      std::string n = g_varNames[e->off] + "!" + std::to_string(e->off);
      r = Z3_mk_const(g_z, Z3_mk_string_symbol(g_z, n.c_str()), bvs(e->w));
      break;
    }
    case K::Add: r = Z3_mk_bvadd(g_z, zbv(e->a), zbv(e->b)); break;
    case K::Mul: r = Z3_mk_bvmul(g_z, zbv(e->a), zbv(e->b)); break;
    case K::UDiv: r = Z3_mk_bvudiv(g_z, zbv(e->a), zbv(e->b)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(g_z, zbv(e->a), zbv(e->b)); break;
    case K::URem: r = Z3_mk_bvurem(g_z, zbv(e->a), zbv(e->b)); break;
    case K::SRem: r = Z3_mk_bvsrem(g_z, zbv(e->a), zbv(e->b)); break;
    case K::And: r = Z3_mk_bvand(g_z, zbv(e->a), zbv(e->b)); break;
    case K::Or: r = Z3_mk_bvor(g_z, zbv(e->a), zbv(e->b)); break;
    case K::Xor: r = Z3_mk_bvxor(g_z, zbv(e->a), zbv(e->b)); break;
    case K::Shl: r = Z3_mk_bvshl(g_z, zbv(e->a), zbv(e->b)); break;
    case K::LShr: r = Z3_mk_bvlshr(g_z, zbv(e->a), zbv(e->b)); break;
    case K::AShr: r = Z3_mk_bvashr(g_z, zbv(e->a), zbv(e->b)); break;
    case K::Concat: r = Z3_mk_concat(g_z, zbv(e->a), zbv(e->b)); break;
    case K::Extract: r = Z3_mk_extract(g_z, e->off + e->w - 1, e->off, zbv(e->a)); break;
    case K::ZExt: r = Z3_mk_zero_ext(g_z, e->w - e->a->w, zbv(e->a)); break;
    case K::SExt: r = Z3_mk_sign_ext(g_z, e->w - e->a->w, zbv(e->a)); break;
    case K::Ite: r = Z3_mk_ite(g_z, zbool(e->a), zbv(e->b), zbv(e->d)); break;
    case K::FAdd: r = Z3_mk_fpa_to_ieee_bv(g_z, Z3_mk_fpa_add(g_z, Z3_mk_fpa_rne(g_z), zfp(e->a), zfp(e->b))); break;
    case K::FSub: r = Z3_mk_fpa_to_ieee_bv(g_z, Z3_mk_fpa_sub(g_z, Z3_mk_fpa_rne(g_z), zfp(e->a), zfp(e->b))); break;
    case K::FMul: r = Z3_mk_fpa_to_ieee_bv(g_z, Z3_mk_fpa_mul(g_z, Z3_mk_fpa_rne(g_z), zfp(e->a), zfp(e->b))); break;
    case K::FDiv: r = Z3_mk_fpa_to_ieee_bv(g_z, Z3_mk_fpa_div(g_z, Z3_mk_fpa_rne(g_z), zfp(e->a), zfp(e->b))); break;
    case K::UIToFP: r = Z3_mk_fpa_to_ieee_bv(g_z, Z3_mk_fpa_to_fp_unsigned(g_z, Z3_mk_fpa_rne(g_z), zbv(e->a), fps(e->w))); break;
    case K::SIToFP: r = Z3_mk_fpa_to_ieee_bv(g_z, Z3_mk_fpa_to_fp_signed(g_z, Z3_mk_fpa_rne(g_z), zbv(e->a), fps(e->w))); break;
    case K::FPToUI: r = Z3_mk_fpa_to_ubv(g_z, Z3_mk_fpa_rtz(g_z), zfp(e->a), e->w); break;
    case K::FPToSI: r = Z3_mk_fpa_to_sbv(g_z, Z3_mk_fpa_rtz(g_z), zfp(e->a), e->w); break;
    case K::FPConv: r = Z3_mk_fpa_to_ieee_bv(g_z, Z3_mk_fpa_to_fp_float(g_z, Z3_mk_fpa_rne(g_z), zfp(e->a), fps(e->w))); break;
    default: abort();
  }
  return keep(e, r);
}


// ---- bit-vectors as bounded integers ------------------------------------------
// Every term is translated to an integer term denoting exactly its unsigned value; wrap-around of an n-bit sum is
// expressed with an integer quotient that is fixed to a constant when the interval of the sum allows only one.
struct LI {
  Z3_ast t;
  s128 lo, hi;
};
struct LiaFail {};
struct Lia {
  std::unordered_map<uint32_t, LI> memo;
  std::unordered_map<uint32_t, Z3_ast> bmemo;
  std::unordered_map<uint32_t, std::pair<s128, s128>> bnd;  // variable -> interval
  std::vector<Z3_ast> side;
  std::vector<std::pair<uint32_t, Z3_ast>> vars;
  static std::string str(s128 v)
  {
    bool n = v < 0;
    u128 u = n ? -(u128)v : (u128)v;
    std::string r;
    do {
      r += char('0' + (int)(u % 10));
      u /= 10;
    } while (u);
    if (n) r += '-';
    std::reverse(r.begin(), r.end());
    return r;
  }
  Z3_ast num(s128 v) { return Z3_mk_numeral(g_z, str(v).c_str(), g_int); }
  Z3_ast add(Z3_ast a, Z3_ast b)
  {
    Z3_ast x[2] = {a, b};
    return Z3_mk_add(g_z, 2, x);
  }
  Z3_ast mulc(Z3_ast a, s128 c)
  {
    if (c == 1) return a;
    Z3_ast x[2] = {num(c), a};
    return Z3_mk_mul(g_z, 2, x);
  }
  Z3_ast fresh() { return Z3_mk_fresh_const(g_z, "k", g_int); }
  static s128 fdiv(s128 a, s128 b)
  {
    s128 q = a / b;
    if (a % b && ((a < 0) != (b < 0))) --q;
    return q;
  }
  // quotient (floor) of t in [lo,hi] by d > 0
  LI quot(Z3_ast t, s128 lo, s128 hi, s128 d)
  {
    s128 q0 = fdiv(lo, d), q1 = fdiv(hi, d);
    if (q0 == q1) return LI{num(q0), q0, q0};
    Z3_ast q = fresh();
    Z3_ast qd = mulc(q, d);
    side.push_back(Z3_mk_ge(g_z, q, num(q0)));
    side.push_back(Z3_mk_le(g_z, q, num(q1)));
    side.push_back(Z3_mk_le(g_z, qd, t));
    side.push_back(Z3_mk_lt(g_z, t, add(qd, num(d))));
    return LI{q, q0, q1};
  }
  std::map<std::pair<uint32_t, unsigned>, LI> qmemo;
  LI quotE(E e, unsigned sh)
  {
    auto key = std::make_pair(e->id, sh);
    auto it = qmemo.find(key);
    if (it != qmemo.end()) return it->second;
    LI x = tr(e);
    LI q = quot(x.t, x.lo, x.hi, (s128)1 << sh);
    qmemo.insert({key, q});
    return q;
  }
  LI mod(Z3_ast t, s128 lo, s128 hi, s128 d)
  {
    s128 q0 = fdiv(lo, d), q1 = fdiv(hi, d);
    if (q0 == q1) {
      if (q0 == 0) return LI{t, lo, hi};
      return LI{add(t, num(-q0 * d)), lo - q0 * d, hi - q0 * d};
    }
    LI q = quot(t, lo, hi, d);
    return LI{add(t, mulc(q.t, -d)), 0, d - 1};
  }
  LI extr(E e, unsigned off, unsigned w)
  {
    unsigned W = e->w;
    LI x = off ? quotE(e, off) : tr(e);
    if (off + w >= W || x.hi <= (s128)maskw(w)) return x;
    if (off) {
      LI q2 = quotE(e, off + w);
      return LI{add(x.t, mulc(q2.t, -((s128)1 << w))), 0, (s128)maskw(w)};
    }
    LI q = quotE(e, w);
    return LI{add(x.t, mulc(q.t, -((s128)1 << w))), 0, (s128)maskw(w)};
  }
  void flat(E e, u128 coef, std::vector<std::pair<E, s128>>& ts, u128& c)
  {
    unsigned w = e->w;
    if (e->k == K::Const) {
      c = (c + coef * e->c) & maskw(w);
      return;
    }
    if (e->k == K::Add) {
      flat(e->a, coef, ts, c);
      flat(e->b, coef, ts, c);
      return;
    }
    if (e->k == K::Mul && isC(e->b)) {
      flat(e->a, (coef * e->b->c) & maskw(w), ts, c);
      return;
    }
    ts.push_back({e, sx(coef, w)});
  }
  LI tr(E e)
  {
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    LI r = tr0(e);
    memo.insert({e->id, r});
    return r;
  }
  LI tr0(E e)
  {
    if (e->w > 64) throw LiaFail{};
    unsigned w = e->w;
    s128 M = (s128)maskw(w);
    switch (e->k) {
      case K::Const: return LI{num((s128)e->c), (s128)e->c, (s128)e->c};
      case K::Var: {
        s128 lo = 0, hi = M;
        auto b = bnd.find(e->off);
        if (b != bnd.end()) {
          lo = std::max(lo, b->second.first);
          hi = std::min(hi, b->second.second);
          if (lo > hi) lo = 0, hi = M;  // contradiction: left to the solver
        }
        std::string n = "i" + std::to_string(e->off);
        Z3_ast v = Z3_mk_const(g_z, Z3_mk_string_symbol(g_z, n.c_str()), g_int);
        vars.push_back({e->off, v});
        side.push_back(Z3_mk_ge(g_z, v, num(lo)));
        side.push_back(Z3_mk_le(g_z, v, num(hi)));
        return LI{v, lo, hi};
      }
      case K::Add:
      case K::Mul: {
        std::vector<std::pair<E, s128>> ts;
        u128 c = 0;
        if (e->k == K::Mul && !isC(e->b)) throw LiaFail{};
        flat(e, 1, ts, c);
        s128 L = sx(c, w), H = L;
        std::vector<Z3_ast> parts{num(L)};
        for (auto& p : ts) {
          if (p.first == e || (p.first->k == K::Mul)) throw LiaFail{};
          LI x = tr(p.first);
          s128 co = p.second;
          s128 mag = co < 0 ? -co : co;
          if (mag && x.hi > (((s128)1 << 124) / mag)) throw LiaFail{};
          parts.push_back(mulc(x.t, co));
          if (co >= 0) {
            L += co * x.lo;
            H += co * x.hi;
          } else {
            L += co * x.hi;
            H += co * x.lo;
          }
          s128 B = (s128)1 << 125;
          if (L > B || L < -B || H > B || H < -B) throw LiaFail{};
        }
        if (!ts.size()) return mod(parts[0], L, H, M + 1);
        return mod(Z3_mk_add(g_z, parts.size(), parts.data()), L, H, M + 1);
      }
      case K::ZExt: return tr(e->a);
      case K::SExt: {
        LI x = tr(e->a);
        s128 h = (s128)1 << (e->a->w - 1);
        if (x.hi < h) return x;
        s128 d = (M + 1) - 2 * h;
        Z3_ast c = Z3_mk_ge(g_z, x.t, num(h));
        return LI{Z3_mk_ite(g_z, c, add(x.t, num(d)), x.t), x.lo, x.hi + d};
      }
      case K::Extract: return extr(e->a, e->off, w);
      case K::Concat: {
        LI a = tr(e->a), b = tr(e->b);
        s128 f = (s128)1 << e->b->w;
        return LI{add(mulc(a.t, f), b.t), a.lo * f + b.lo, a.hi * f + b.hi};
      }
      case K::UDiv: {
        if (!isC(e->b) || e->b->c == 0) throw LiaFail{};
        LI x = tr(e->a);
        return quot(x.t, x.lo, x.hi, (s128)e->b->c);
      }
      case K::URem: {
        if (!isC(e->b) || e->b->c == 0) throw LiaFail{};
        LI x = tr(e->a);
        return mod(x.t, x.lo, x.hi, (s128)e->b->c);
      }
      case K::Ite: {
        LI a = tr(e->b), b = tr(e->d);
        return LI{Z3_mk_ite(g_z, tb(e->a), a.t, b.t), std::min(a.lo, b.lo), std::max(a.hi, b.hi)};
      }
      case K::And:
        if (w > 1 && isC(e->b)) {
          u128 m = e->b->c;
          // contiguous ones 2^n-1 << s
          unsigned s = 0;
          while (!((m >> s) & 1)) ++s;
          u128 mm = m >> s;
          if ((mm & (mm + 1)) == 0) {
            unsigned n = log2of(mm + 1);
            LI x = extr(e->a, s, n);
            s128 f = (s128)1 << s;
            return LI{mulc(x.t, f), x.lo * f, x.hi * f};
          }
        }
        if (w > 1) throw LiaFail{};
        // fallthrough
      default:
        if (w == 1) {
          switch (e->k) {
            case K::Shl: case K::LShr: case K::AShr: case K::FPToUI: case K::FPToSI: case K::SDiv: case K::SRem: throw LiaFail{};
            default: break;
          }
          return LI{Z3_mk_ite(g_z, tb(e), num(1), num(0)), 0, 1};
        }
        throw LiaFail{};
    }
  }
  Z3_ast sgn(E e)
  {
    LI x = tr(e);
    s128 h = (s128)1 << (e->w - 1);
    if (x.hi < h) return x.t;
    if (x.lo >= h) return add(x.t, num(-2 * h));
    return Z3_mk_ite(g_z, Z3_mk_ge(g_z, x.t, num(h)), add(x.t, num(-2 * h)), x.t);
  }
  Z3_ast tb(E e)
  {
    auto it = bmemo.find(e->id);
    if (it != bmemo.end()) return it->second;
    Z3_ast r = tb0(e);
    bmemo[e->id] = r;
    return r;
  }
  Z3_ast tb0(E e)
  {
    switch (e->k) {
      case K::Const: return e->c ? Z3_mk_true(g_z) : Z3_mk_false(g_z);
      case K::Eq:
        if (e->a->w == 1) {
          if (isC(e->b)) return e->b->c ? tb(e->a) : Z3_mk_not(g_z, tb(e->a));
          return Z3_mk_iff(g_z, tb(e->a), tb(e->b));
        }
        return Z3_mk_eq(g_z, tr(e->a).t, tr(e->b).t);
      case K::Ult: return Z3_mk_lt(g_z, tr(e->a).t, tr(e->b).t);
      case K::Ule: return Z3_mk_le(g_z, tr(e->a).t, tr(e->b).t);
      case K::Slt: return Z3_mk_lt(g_z, sgn(e->a), sgn(e->b));
      case K::Sle: return Z3_mk_le(g_z, sgn(e->a), sgn(e->b));
      case K::And: {
        Z3_ast x[2] = {tb(e->a), tb(e->b)};
        return Z3_mk_and(g_z, 2, x);
      }
      case K::Or: {
        Z3_ast x[2] = {tb(e->a), tb(e->b)};
        return Z3_mk_or(g_z, 2, x);
      }
      case K::Xor: return Z3_mk_xor(g_z, tb(e->a), tb(e->b));
      case K::Ite: return Z3_mk_ite(g_z, tb(e->a), tb(e->b), tb(e->d));
      case K::Var:
      case K::Extract:
      case K::Add:
      case K::Mul:
      case K::URem:
      case K::UDiv: return Z3_mk_eq(g_z, tr(e).t, num(1));
      default: throw LiaFail{};
    }
  }
  void bound(E e)
  {
    auto upd = [&](E v, s128 lo, s128 hi) {
      if (v->k != K::Var) return;
      auto it = bnd.find(v->off);
      if (it == bnd.end())
        bnd[v->off] = {lo, hi};
      else {
        it->second.first = std::max(it->second.first, lo);
        it->second.second = std::min(it->second.second, hi);
      }
    };
    s128 big = (s128)maskw(64);
    if (e->k == K::And && e->w == 1) {
      bound(e->a);
      bound(e->b);
    } else if (e->k == K::Ult) {
      if (isC(e->b) && e->b->c > 0) upd(e->a, 0, (s128)e->b->c - 1);
      if (isC(e->a)) upd(e->b, (s128)e->a->c + 1, big);
    } else if (e->k == K::Ule) {
      if (isC(e->b)) upd(e->a, 0, (s128)e->b->c);
      if (isC(e->a)) upd(e->b, (s128)e->a->c, big);
    } else if (e->k == K::Eq && isC(e->b) && e->b->w > 1)
      upd(e->a, (s128)e->b->c, (s128)e->b->c);
  }
};
bool g_useLia = true;
bool g_xcheck = false;

struct CacheEnt {
  Res r;
  std::vector<std::pair<uint32_t, u128>> vals;
};
struct VH {
  size_t operator()(const std::vector<uint32_t>& v) const
  {
    uint64_t h = 1469598103934665603ull;
    for (auto x : v) h = (h ^ x) * 1099511628211ull;
    return h;
  }
};
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> g_cache;

static u128 getVal(Z3_model m, E var)
{
  Z3_ast r;
  if (!Z3_model_eval(g_z, m, zbv(var), true, &r)) return 0;
  unsigned w = var->w;
  uint64_t lo = 0;
  if (w <= 64) {
    if (Z3_get_numeral_uint64(g_z, r, &lo)) return lo;
    return 0;
  }
  const char* s = Z3_get_numeral_string(g_z, r);
  u128 v = 0;
  for (; *s; ++s) v = v * 10 + (*s - '0');
  return v;
}
static std::vector<E> g_varExpr;
static E varE(uint32_t idx)
{
  while (g_varExpr.size() <= idx) g_varExpr.push_back(nullptr);
  if (!g_varExpr[idx]) g_varExpr[idx] = intern(K::Var, g_varW[idx], 0, idx, 0, 0, 0);
  return g_varExpr[idx];
}

Res solve(const std::vector<E>& pc, E q, const ModelP& base, ModelP& out)
{
  if (isFalse(q)) return Res::Unsat;
  if (isTrue(q) && base) {
    out = base;
    return Res::Sat;
  }
  // slice
  std::vector<E> cs{q};
  std::unordered_set<uint32_t> vs(varsOf(q).begin(), varsOf(q).end());
  std::vector<char> used(pc.size(), 0);
  bool all = !base;
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); ++i) {
      if (used[i]) continue;
      bool hit = all;
      if (!hit)
        for (auto v : varsOf(pc[i]))
          if (vs.count(v)) {
            hit = true;
            break;
          }
      if (hit) {
        used[i] = 1;
        ch = true;
        cs.push_back(pc[i]);
        for (auto v : varsOf(pc[i])) vs.insert(v);
      }
    }
  }
  std::vector<uint32_t> key;
  for (E e : cs) key.push_back(e->id);
  std::sort(key.begin(), key.end());
  auto mk = [&](const std::vector<std::pair<uint32_t, u128>>& vals) {
    auto m = std::make_shared<Model>();
    if (base) m->v = base->v;
    m->gen = newModelGen();
    for (auto& p : vals) m->v[p.first] = p.second;
    out = m;
  };
  auto it = g_cache.find(key);
  if (it != g_cache.end()) {
    g_ss.cacheHits++;
    if (it->second.r == Res::Sat) mk(it->second.vals);
    return it->second.r;
  }
  if (!g_dumpDir.empty()) {
    std::string fn = g_dumpDir + "/q" + std::to_string((long)getpid()) + "_" + std::to_string(g_ss.queries) + ".smt2";
    Z3_solver ds = Z3_mk_simple_solver(g_z);
    Z3_solver_inc_ref(g_z, ds);
    for (E e : cs) Z3_solver_assert(g_z, ds, zbool(e));
    if (FILE* f = fopen(fn.c_str(), "w")) {
      fprintf(f, "(set-logic ALL)\n%s\n(check-sat)\n", Z3_solver_to_string(g_z, ds));
      fclose(f);
    }
    Z3_solver_dec_ref(g_z, ds);
  }
  auto t0 = std::chrono::steady_clock::now();
  CacheEnt ce;
  Z3_lbool r = Z3_L_UNDEF;
  bool viaLia = false;
  if (g_useLia) {
    try {
      Lia L;
      for (E e : cs) L.bound(e);
      Z3_solver_push(g_z, g_lia);
      struct Pop {
        ~Pop() { Z3_solver_pop(g_z, g_lia, 1); }
      } pop;
      for (E e : cs) Z3_solver_assert(g_z, g_lia, L.tb(e));
      for (Z3_ast x : L.side) Z3_solver_assert(g_z, g_lia, x);
      r = Z3_solver_check(g_z, g_lia);
      if (r == Z3_L_TRUE) {
        Z3_model m = Z3_solver_get_model(g_z, g_lia);
        Z3_model_inc_ref(g_z, m);
        for (auto& v : L.vars) {
          Z3_ast x;
          uint64_t val = 0;
          if (Z3_model_eval(g_z, m, v.second, true, &x)) Z3_get_numeral_uint64(g_z, x, &val);
          ce.vals.push_back({v.first, val});
        }
        std::unordered_set<uint32_t> have;
        for (auto& v : ce.vals) have.insert(v.first);
        for (auto v : vs)
          if (!have.count(v)) ce.vals.push_back({v, 0});
        Z3_model_dec_ref(g_z, m);
      }
      if (r != Z3_L_UNDEF) {
        viaLia = true;
        g_ss.lia++;
      } else
        g_ss.liaUnk++;
    } catch (LiaFail&) {
      g_ss.liaFail++;
    }
  }
  Z3_solver used_s = g_inc;
  Z3_lbool rl = r;
  if (!viaLia || g_xcheck) {
  Z3_solver_push(g_z, g_inc);
  for (E e : cs) Z3_solver_assert(g_z, g_inc, zbool(e));
  r = Z3_solver_check(g_z, g_inc);
  if (r == Z3_L_UNDEF) {
    Z3_tactic t = Z3_mk_tactic(g_z, "qfbv");
    bool fp = false;
    for (E e : cs) {
      std::vector<E> st{e};
      std::unordered_set<uint32_t> seen;
      while (!st.empty() && !fp) {
        E x = st.back();
        st.pop_back();
        if (!seen.insert(x->id).second) continue;
        if (x->k >= K::FAdd) fp = true;
        for (E c : {x->a, x->b, x->d})
          if (c) st.push_back(c);
      }
    }
    if (fp) t = Z3_mk_tactic(g_z, "qffpbv");
    Z3_tactic_inc_ref(g_z, t);
    Z3_solver s2 = Z3_mk_solver_from_tactic(g_z, t);
    Z3_solver_inc_ref(g_z, s2);
    Z3_params p = Z3_mk_params(g_z);
    Z3_params_inc_ref(g_z, p);
    Z3_params_set_uint(g_z, p, Z3_mk_string_symbol(g_z, "rlimit"), 2000000000u);
    Z3_solver_set_params(g_z, s2, p);
    Z3_params_dec_ref(g_z, p);
    for (E e : cs) Z3_solver_assert(g_z, s2, zbool(e));
    r = Z3_solver_check(g_z, s2);
    used_s = s2;
    Z3_tactic_dec_ref(g_z, t);
  }
  }
  if (viaLia && g_xcheck) {
    if (rl != r) {
      fprintf(stderr, "usymex: INTERNAL: LIA and BV verdicts differ (%d vs %d)\n", rl, r);
      for (E e : cs) fprintf(stderr, "  %s\n", exprStr(e, 12).c_str());
      abort();
    }
    r = rl;
  }
  g_ss.queries++;
  if (r == Z3_L_TRUE) {
    g_ss.sat++;
    ce.r = Res::Sat;
   if (!viaLia) {
    Z3_model m = Z3_solver_get_model(g_z, used_s);
    Z3_model_inc_ref(g_z, m);
    for (auto v : vs) ce.vals.push_back({v, getVal(m, varE(v))});
    Z3_model_dec_ref(g_z, m);
   }
  } else if (r == Z3_L_FALSE) {
    g_ss.unsat++;
    ce.r = Res::Unsat;
  } else
    ce.r = Res::Unknown;
  if (!viaLia || g_xcheck) Z3_solver_pop(g_z, g_inc, 1);
  if (used_s != g_inc) Z3_solver_dec_ref(g_z, used_s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.time += dt;
  if (getenv("USYMEX_SLOW") && dt > atof(getenv("USYMEX_SLOW"))) {
    fprintf(stderr, "slow %.2fs lia=%d res=%d n=%zu\n", dt, viaLia, (int)ce.r, cs.size());
    if (FILE* f = fopen("/tmp/w/slow.txt", "a")) {
      for (E e : cs) fprintf(f, "%s\n", exprStr(e, 20).c_str());
      fprintf(f, "---- %.2f lia=%d res=%d\n", dt, viaLia, (int)ce.r);
      fclose(f);
    }
  }
  if (dt > g_ss.maxTime) g_ss.maxTime = dt;
  if (ce.r != Res::Unknown) {
    // sanity: model must satisfy the slice (guards translator bugs)
    if (ce.r == Res::Sat) {
      mk(ce.vals);
      for (E e : cs)
        if (!evalE(e, *out)) {
          fprintf(stderr, "usymex: INTERNAL: model does not satisfy constraint %s\n", exprStr(e, 8).c_str());
          return Res::Unknown;
        }
    }
    g_cache[key] = ce;
  }
  return ce.r;
}
