// Bit-vector expression DAG used by the symbolic executor: hash-consed nodes,
// local simplification on construction, evaluation under a model, Z3 export.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef int64_t s64;
typedef uint32_t u32;
typedef uint16_t u16;

enum Kind : uint8_t {
  K_CONST, K_VAR, K_CONCAT /*hi,lo*/, K_EXTRACT /*aux=offset*/, K_ZEXT, K_SEXT,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_NOT, K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE,
  // floating point (values are IEEE bit patterns of width 32/64)
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FNEG, K_FABS, K_FOEQ, K_FOLT, K_FOLE,
  K_FISNAN, K_SITOFP /*aux = scale k: value = kid * 2^-k, exact*/, K_UITOFP,
  K_FPTOSI, K_FPTOUI, K_FPEXT, K_FPTRUNC, K_FSQRT, K_FRTI /*aux = mode: 0 RNE,1 trunc,2 floor,3 ceil,4 RNA*/
};

struct VarSet {  // hash-consed sorted set of variable ids
  std::vector<u32> v;
  u64 bloom = 0;
};

struct Expr {
  Kind k;
  uint8_t fp = 0;        // contains floating-point reasoning
  uint16_t w;
  u32 aux;
  u32 id;
  u32 nk;
  const Expr* kid[3];
  u64 lo, hi;            // constant value
  u64 rmin, rmax;        // unsigned range when w<=64
  s64 smin, smax;        // for K_SITOFP: bounds of the integer numerator
  const VarSet* vars;
  mutable u64 evalId = 0;
  mutable u128 evalV = 0;
  mutable Z3_ast zb = nullptr;  // as Bool (w==1)
  mutable Z3_ast zv = nullptr;  // as BV
  bool isConst() const { return k == K_CONST; }
  u128 cval() const { return ((u128)hi << 64) | lo; }
};
typedef const Expr* E;

struct Model {
  u64 id;
  std::vector<u64> v;
  u64 get(u32 i) const { return i < v.size() ? v[i] : 0; }
};
typedef std::shared_ptr<Model> ModelP;
ModelP newModel(const Model* base);

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline u128 mask128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s64 sx(u64 v, unsigned w) { return w >= 64 ? (s64)v : (s64)(v << (64 - w)) >> (64 - w); }
inline s128 sx128(u128 v, unsigned w) { return w >= 128 ? (s128)v : (s128)(v << (128 - w)) >> (128 - w); }

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> gVars;

E mkConst(u128 v, unsigned w);
E mkVar(u32 id);          // variable must exist in gVars
u32 newVar(const std::string& name, unsigned w);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned off, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkBin(Kind k, E a, E b);   // arithmetic and comparisons
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkFUn(Kind k, E a, unsigned w, unsigned aux = 0);
E mkFBin(Kind k, E a, E b);
inline E mkEq(E a, E b) { return mkBin(K_EQ, a, b); }
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
u128 evalExpr(E e, const Model& m);
// Substitute variables/expressions by a map (memoised by the caller-provided map).
E substExpr(E e, std::unordered_map<E, E>& memo);
unsigned trailingZeros(E e);
std::string exprStr(E e, int depth = 6);
u128 foldBin(Kind k, u128 a, u128 b, unsigned w, bool* ok = nullptr);

// ---- Z3 ----
extern Z3_context gZ;
void initZ3();
Z3_ast zBool(E e);
Z3_ast zBV(E e);
size_t exprCount();
