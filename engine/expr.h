// usymex: bit-vector expression DAG (hash-consed), simplifier, evaluator, z3 lowering.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum class K : uint8_t {
  Const, Var, Add, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, Concat, Extract, ZExt, SExt, Ite,
  // floating point, operands and results are IEEE bit patterns (w = 32 or 64)
  FAdd, FSub, FMul, FDiv, FOeq, FOlt, FOle, FUno, UIToFP, SIToFP, FPToUI, FPToSI, FPConv
};

struct Expr {
  K k;
  uint16_t w;
  uint32_t id;
  uint32_t off;  // Extract: low bit; Var: variable index
  u128 c;        // Const
  const Expr *a, *b, *d;
  mutable uint64_t evGen = 0;
  mutable u128 evVal = 0;
  mutable Z3_ast z = nullptr;
  mutable const Expr* neg = nullptr;  // memo of mkNot
  mutable const std::vector<uint32_t>* vs = nullptr;
};
typedef const Expr* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sx(u128 v, unsigned w)
{
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (s128)((v ^ m) - m);
}

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w);
E mkBin(K k, E a, E b);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkNot(E a);  // w == 1
E mkEq(E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned off, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkFP(K k, E a, E b, unsigned w);
E mkAnd1(E a, E b);
E mkOr1(E a, E b);
inline bool isC(E e) { return e->k == K::Const; }
inline bool isTrue(E e) { return e->k == K::Const && e->w == 1 && e->c == 1; }
inline bool isFalse(E e) { return e->k == K::Const && e->w == 1 && e->c == 0; }

extern std::vector<std::string> g_varNames;
extern std::vector<unsigned> g_varW;

struct Model {
  uint64_t gen;
  std::unordered_map<uint32_t, u128> v;
};
typedef std::shared_ptr<const Model> ModelP;
uint64_t newModelGen();
u128 evalE(E e, const Model& m);
const std::vector<uint32_t>& varsOf(E e);
std::string exprStr(E e, int depth = 6);

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, cacheHits = 0, lia = 0, liaFail = 0, liaUnk = 0;
  double time = 0, maxTime = 0;
};
extern SolverStats g_ss;
enum class Res { Sat, Unsat, Unknown };
// Is (pc /\ q) satisfiable?  base: model of pc (may be null); on Sat, out is a model of pc /\ q.
Res solve(const std::vector<E>& pc, E q, const ModelP& base, ModelP& out);
void solverInit();
extern std::string g_dumpDir;
extern bool g_useLia, g_xcheck;
E fpConstFold(K k, E a, E b, unsigned w);
