#include "expr.h"
#include <algorithm>
#include <cmath>
#include <deque>
#include <unordered_set>
#include <unistd.h>

std::vector<VarInfo> gVars;
static u64 gModelId = 1;
ModelP newModel(const Model* base) {
  auto m = std::make_shared<Model>();
  if (base) m->v = base->v;
  m->id = ++gModelId;
  return m;
}

static std::deque<Expr> gPool;
static std::vector<E> gTab(1 << 16, nullptr);
static size_t gCount = 0;
size_t exprCount() { return gCount; }

static std::deque<VarSet> gVSPool;
static std::unordered_multimap<u64, const VarSet*> gVSTab;
static const VarSet* internVS(std::vector<u32>&& v) {
  u64 h = v.size();
  for (u32 x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;
  auto r = gVSTab.equal_range(h);
  for (auto it = r.first; it != r.second; ++it)
    if (it->second->v == v) return it->second;
  gVSPool.push_back({});
  VarSet& s = gVSPool.back();
  s.v = std::move(v);
  for (u32 x : s.v) s.bloom |= 1ull << (x & 63);
  gVSTab.emplace(h, &s);
  return &s;
}
static const VarSet* emptyVS() { static const VarSet* e = internVS({}); return e; }
struct PH { size_t operator()(const std::pair<const VarSet*, const VarSet*>& p) const { return ((u64)(uintptr_t)p.first * 0x9E3779B97F4A7C15ull) ^ ((u64)(uintptr_t)p.second >> 4); } };
static std::unordered_map<std::pair<const VarSet*, const VarSet*>, const VarSet*, PH> gUnionCache;
static const VarSet* unionVS(const VarSet* a, const VarSet* b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  if (a > b) std::swap(a, b);
  auto it = gUnionCache.find({a, b});
  if (it != gUnionCache.end()) return it->second;
  std::vector<u32> v;
  v.reserve(a->v.size() + b->v.size());
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(v));
  const VarSet* r = internVS(std::move(v));
  gUnionCache[{a, b}] = r;
  return r;
}

static inline u64 hashNode(Kind k, unsigned w, u32 aux, E a, E b, E c, u64 lo, u64 hi) {
  u64 h = (u64)k * 1000003 + w * 7919 + aux * 104729ull;
  h ^= (a ? a->id + 1 : 0) * 0x9E3779B97F4A7C15ull;
  h = (h << 13) | (h >> 51);
  h ^= (b ? b->id + 1 : 0) * 0xC2B2AE3D27D4EB4Full;
  h = (h << 13) | (h >> 51);
  h ^= (c ? c->id + 1 : 0) * 0x165667B19E3779F9ull;
  h ^= lo * 0x27D4EB2F165667C5ull;
  h ^= hi * 0x85EBCA77C2B2AE63ull;
  h ^= h >> 31; h *= 0xD6E8FEB86659FD93ull; h ^= h >> 32;
  return h;
}
static std::vector<u64> gHashes;  // parallel by id
static void growTab() {
  std::vector<E> nt(gTab.size() * 2, nullptr);
  size_t m = nt.size() - 1;
  for (E e : gTab) if (e) {
    size_t i = gHashes[e->id] & m;
    while (nt[i]) i = (i + 1) & m;
    nt[i] = e;
  }
  gTab.swap(nt);
}
static void computeRange(Expr& e);
static E intern(Kind k, unsigned w, u32 aux, E a, E b = nullptr, E c = nullptr, u64 lo = 0, u64 hi = 0,
                s64 smin = 0, s64 smax = 0) {
  u64 h = hashNode(k, w, aux, a, b, c, lo, hi);
  size_t m = gTab.size() - 1, i = h & m;
  while (E e = gTab[i]) {
    if (gHashes[e->id] == h && e->k == k && e->w == w && e->aux == aux && e->kid[0] == a && e->kid[1] == b &&
        e->kid[2] == c && e->lo == lo && e->hi == hi)
      return e;
    i = (i + 1) & m;
  }
  gPool.push_back({});
  Expr& e = gPool.back();
  e.k = k; e.w = w; e.aux = aux; e.kid[0] = a; e.kid[1] = b; e.kid[2] = c; e.lo = lo; e.hi = hi;
  e.nk = c ? 3 : b ? 2 : a ? 1 : 0;
  e.id = gCount++;
  e.smin = smin; e.smax = smax;
  const VarSet* vs = emptyVS();
  e.fp = k >= K_FADD;
  for (unsigned j = 0; j < e.nk; j++) { vs = unionVS(vs, e.kid[j]->vars); e.fp |= e.kid[j]->fp; }
  if (k == K_VAR) vs = internVS({aux});
  e.vars = vs;
  computeRange(e);
  gHashes.push_back(h);
  gTab[i] = &e;
  if (gCount * 2 > gTab.size()) growTab();
  return &e;
}

static void computeRange(Expr& e) {
  e.rmin = 0; e.rmax = maskw(e.w);
  if (e.w > 64) return;
  auto A = e.kid[0], B = e.kid[1], C = e.kid[2];
  switch (e.k) {
    case K_CONST: e.rmin = e.rmax = e.lo; break;
    case K_ZEXT: e.rmin = A->rmin; e.rmax = A->rmax; break;
    case K_CONCAT: e.rmin = (A->rmin << B->w) | B->rmin; e.rmax = (A->rmax << B->w) | B->rmax;
      if (A->rmin != A->rmax) { e.rmin = A->rmin << B->w; e.rmax = (A->rmax << B->w) | maskw(B->w);
        if (A->rmax == A->rmin) {} }
      break;
    case K_EXTRACT: if (A->w <= 64) {
        if ((A->rmin >> e.aux) == (A->rmax >> e.aux) && 0) {}
        if ((A->rmax >> e.aux) <= maskw(e.w)) { e.rmin = A->rmin >> e.aux; e.rmax = A->rmax >> e.aux; } }
      break;
    case K_ADD: { u64 hi; if (!__builtin_add_overflow(A->rmax, B->rmax, &hi) && hi <= maskw(e.w)) { e.rmin = A->rmin + B->rmin; e.rmax = hi; } break; }
    case K_SUB: if (A->rmin >= B->rmax) { e.rmin = A->rmin - B->rmax; e.rmax = A->rmax - B->rmin; } break;
    case K_MUL: { u64 hi; if (!__builtin_mul_overflow(A->rmax, B->rmax, &hi) && hi <= maskw(e.w)) { e.rmin = A->rmin * B->rmin; e.rmax = hi; } break; }
    case K_UDIV: if (B->rmax > 0) { e.rmin = A->rmin / B->rmax; e.rmax = B->rmin ? A->rmax / B->rmin : A->rmax; } break;
    case K_UREM: if (B->rmax > 0) e.rmax = std::min(A->rmax, B->rmax - 1); break;
    case K_AND: e.rmax = std::min(A->rmax, B->rmax); break;
    case K_OR: { e.rmin = std::max(A->rmin, B->rmin); u64 m = A->rmax | B->rmax; if (m) { int lz = __builtin_clzll(m); e.rmax = ~0ull >> lz; } else e.rmax = 0; break; }
    case K_XOR: { u64 m = A->rmax | B->rmax; if (m) { int lz = __builtin_clzll(m); e.rmax = ~0ull >> lz; } else e.rmax = 0; break; }
    case K_SHL: if (B->isConst() && B->lo < e.w && (B->lo == 0 || A->rmax <= (maskw(e.w) >> B->lo))) { e.rmin = A->rmin << B->lo; e.rmax = A->rmax << B->lo; } break;
    case K_LSHR: if (B->isConst()) { if (B->lo < e.w) { e.rmin = A->rmin >> B->lo; e.rmax = A->rmax >> B->lo; } else e.rmin = e.rmax = 0; } else e.rmax = A->rmax; break;
    case K_ITE: e.rmin = std::min(B->rmin, C->rmin); e.rmax = std::max(B->rmax, C->rmax); break;
    case K_SEXT: if (A->w <= 64 && !(A->rmax >> (A->w - 1))) { e.rmin = A->rmin; e.rmax = A->rmax; } break;
    default: break;
  }
}

E mkConst(u128 v, unsigned w) {
  v &= mask128(w);
  return intern(K_CONST, w, 0, nullptr, nullptr, nullptr, (u64)v, (u64)(v >> 64));
}
u32 newVar(const std::string& name, unsigned w) { gVars.push_back({name, w}); return gVars.size() - 1; }
E mkVar(u32 id) { return intern(K_VAR, gVars[id].w, id, nullptr); }

static double bitsToD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 dToBits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static float bitsToF(u32 b) { float d; memcpy(&d, &b, 4); return d; }
static u32 fToBits(float d) { u32 b; memcpy(&b, &d, 4); return b; }
static double getFP(u128 v, unsigned w) { return w == 64 ? bitsToD((u64)v) : (double)bitsToF((u32)v); }

u128 foldBin(Kind k, u128 a, u128 b, unsigned w, bool* ok) {
  if (ok) *ok = true;
  u128 m = mask128(w);
  switch (k) {
    case K_ADD: return (a + b) & m;
    case K_SUB: return (a - b) & m;
    case K_MUL: return (a * b) & m;
    case K_UDIV: if (b == 0) { if (ok) *ok = false; return m; } return a / b;
    case K_SDIV: { if (b == 0) { if (ok) *ok = false; return sx128(a, w) < 0 ? 1 : m; }
      s128 x = sx128(a, w), y = sx128(b, w); if (y == -1) return (u128)(0 - (u128)x) & m; return (u128)(x / y) & m; }
    case K_UREM: if (b == 0) { if (ok) *ok = false; return a; } return a % b;
    case K_SREM: { if (b == 0) { if (ok) *ok = false; return a; }
      s128 x = sx128(a, w), y = sx128(b, w); if (y == -1) return 0; return (u128)(x % y) & m; }
    case K_AND: return a & b;
    case K_OR: return a | b;
    case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case K_ASHR: { s128 x = sx128(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m; }
    case K_EQ: return a == b;
    case K_ULT: return a < b;
    case K_ULE: return a <= b;
    case K_SLT: return sx128(a, w) < sx128(b, w);
    case K_SLE: return sx128(a, w) <= sx128(b, w);
    default: break;
  }
  abort();
}
static u128 foldFBin(Kind k, u128 a, u128 b, unsigned w) {
  if (w == 64) {
    double x = bitsToD((u64)a), y = bitsToD((u64)b);
    switch (k) {
      case K_FADD: return dToBits(x + y);
      case K_FSUB: return dToBits(x - y);
      case K_FMUL: return dToBits(x * y);
      case K_FDIV: return dToBits(x / y);
      case K_FOEQ: return x == y;
      case K_FOLT: return x < y;
      case K_FOLE: return x <= y;
      default: abort();
    }
  }
  float x = bitsToF((u32)a), y = bitsToF((u32)b);
  switch (k) {
    case K_FADD: return fToBits(x + y);
    case K_FSUB: return fToBits(x - y);
    case K_FMUL: return fToBits(x * y);
    case K_FDIV: return fToBits(x / y);
    case K_FOEQ: return x == y;
    case K_FOLT: return x < y;
    case K_FOLE: return x <= y;
    default: abort();
  }
}
static u128 foldFUn(Kind k, u128 a, unsigned aw, unsigned w, unsigned aux) {
  switch (k) {
    case K_FNEG: return a ^ ((u128)1 << (w - 1));
    case K_FABS: return a & mask128(w - 1);
    case K_FISNAN: return std::isnan(getFP(a, aw));
    case K_FSQRT: return w == 64 ? (u128)dToBits(std::sqrt(bitsToD((u64)a))) : (u128)fToBits(std::sqrt(bitsToF((u32)a)));
    case K_FRTI: { double d = getFP(a, aw); double r;
      switch (aux) { case 0: r = std::nearbyint(d); break; case 1: r = std::trunc(d); break; case 2: r = std::floor(d); break; case 3: r = std::ceil(d); break; default: r = std::round(d); }
      return w == 64 ? (u128)dToBits(r) : (u128)fToBits((float)r); }
    case K_SITOFP: { s128 x = sx128(a, aw); if (w == 64) return dToBits(std::ldexp((double)x, -(int)aux)); return fToBits(std::ldexp((float)x, -(int)aux)); }
    case K_UITOFP: if (w == 64) return dToBits(aw <= 64 ? (double)(u64)a : (double)a); return fToBits(aw <= 64 ? (float)(u64)a : (float)a);
    case K_FPTOSI: { double d = getFP(a, aw); if (!(d > -9.3e18 && d < 9.3e18)) return ((u128)1 << (w - 1)) & mask128(w); return (u128)(s128)(s64)d & mask128(w); }
    case K_FPTOUI: { double d = getFP(a, aw); if (!(d > -1.0 && d < 18446744073709551616.0)) return ((u128)1 << (w - 1)) & mask128(w); return (u128)(u64)d & mask128(w); }
    case K_FPEXT: return dToBits((double)bitsToF((u32)a));
    case K_FPTRUNC: return fToBits((float)bitsToD((u64)a));
    default: abort();
  }
}

unsigned trailingZeros(E e) {
  switch (e->k) {
    case K_CONST: if (e->cval() == 0) return e->w; if (e->lo) return __builtin_ctzll(e->lo); return 64 + __builtin_ctzll(e->hi);
    case K_SHL: if (e->kid[1]->isConst()) return std::min<u64>(e->w, trailingZeros(e->kid[0]) + e->kid[1]->lo); return trailingZeros(e->kid[0]);
    case K_MUL: return std::min<unsigned>(e->w, trailingZeros(e->kid[0]) + trailingZeros(e->kid[1]));
    case K_ADD: case K_SUB: case K_OR: case K_XOR: return std::min(trailingZeros(e->kid[0]), trailingZeros(e->kid[1]));
    case K_AND: return std::max(trailingZeros(e->kid[0]), trailingZeros(e->kid[1]));
    case K_ZEXT: case K_SEXT: { unsigned t = trailingZeros(e->kid[0]); return t >= e->kid[0]->w ? e->w : t; }
    case K_CONCAT: { unsigned t = trailingZeros(e->kid[1]); return t >= e->kid[1]->w ? e->kid[1]->w + trailingZeros(e->kid[0]) : t; }
    case K_ITE: return std::min(trailingZeros(e->kid[1]), trailingZeros(e->kid[2]));
    default: return 0;
  }
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst()) return mkConst((hi->cval() << lo->w) | lo->cval(), w);
  if (hi->isConst() && hi->cval() == 0) return mkZExt(lo, w);
  // zext on low part: Concat(X, ZExt(y)) = Concat(Concat(X,0),y)
  if (lo->k == K_ZEXT) { E y = lo->kid[0]; return mkConcat(mkConcat(hi, mkConst(0, lo->w - y->w)), y); }
  if (hi->k == K_ZEXT) { E y = hi->kid[0]; return mkZExt(mkConcat(y, lo), w); }
  // merge adjacent extracts
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->kid[0] == lo->kid[0] && hi->aux == lo->aux + lo->w)
    return mkExtract(hi->kid[0], lo->aux, w);
  // pieces of one term whose low piece was simplified further
  if (hi->k == K_EXTRACT && hi->aux >= lo->w && (lo->k != K_CONST || (!lo->cval() && (hi->kid[0]->k == K_ADD || hi->kid[0]->k == K_MUL))) && mkExtract(hi->kid[0], hi->aux - lo->w, lo->w) == lo)
    return mkExtract(hi->kid[0], hi->aux - lo->w, w);
  if (hi->k == K_CONCAT) {
    E b = hi->kid[1];
    if (b->k == K_EXTRACT && b->aux >= lo->w && lo->k != K_CONST && mkExtract(b->kid[0], b->aux - lo->w, lo->w) == lo)
      return mkConcat(hi->kid[0], mkExtract(b->kid[0], b->aux - lo->w, b->w + lo->w));
  }
  // lo is a whole expression X (acts as Extract(X,0,w)) and hi an extract of something with lo = that's prefix
  if (lo->k == K_CONCAT) {  // canonical: right operand is not a concat: hi.(a.b) => (hi.a).b
    return mkConcat(mkConcat(hi, lo->kid[0]), lo->kid[1]);
  }
  if (hi->k == K_CONCAT) {
    E b = hi->kid[1];
    if (b->k == K_EXTRACT && lo->k == K_EXTRACT && b->kid[0] == lo->kid[0] && b->aux == lo->aux + lo->w)
      return mkConcat(hi->kid[0], mkExtract(b->kid[0], lo->aux, b->w + lo->w));
    if (b->isConst() && lo->isConst()) return mkConcat(hi->kid[0], mkConst((b->cval() << lo->w) | lo->cval(), b->w + lo->w));
  }
  return intern(K_CONCAT, w, 0, hi, lo);
}

E mkExtract(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  switch (a->k) {
    case K_CONST: return mkConst(a->cval() >> off, w);
    case K_EXTRACT: return mkExtract(a->kid[0], off + a->aux, w);
    case K_CONCAT: {
      E hi = a->kid[0], lo = a->kid[1];
      if (off >= lo->w) return mkExtract(hi, off - lo->w, w);
      if (off + w <= lo->w) return mkExtract(lo, off, w);
      return mkConcat(mkExtract(hi, 0, off + w - lo->w), mkExtract(lo, off, lo->w - off));
    }
    case K_ZEXT: {
      E x = a->kid[0];
      if (off >= x->w) return mkConst(0, w);
      if (off + w <= x->w) return mkExtract(x, off, w);
      return mkZExt(mkExtract(x, off, x->w - off), w);
    }
    case K_SEXT: {
      E x = a->kid[0];
      if (off + w <= x->w) return mkExtract(x, off, w);
      if (off == 0) return mkSExt(x, w);
      break;
    }
    case K_AND: case K_OR: case K_XOR:
      if (a->kid[0]->isConst() || a->kid[1]->isConst() ) return mkBin(a->k, mkExtract(a->kid[0], off, w), mkExtract(a->kid[1], off, w));
      break;
    case K_NOT: return mkNot(mkExtract(a->kid[0], off, w));
    case K_ITE:
      if (a->kid[1]->isConst() || a->kid[2]->isConst()) return mkIte(a->kid[0], mkExtract(a->kid[1], off, w), mkExtract(a->kid[2], off, w));
      break;
    case K_ADD: case K_SUB: case K_MUL:
      if (off == 0 && (a->kid[0]->isConst() || a->kid[1]->isConst() || a->kid[0]->k == K_ZEXT || a->kid[1]->k == K_ZEXT))
        return mkBin(a->k, mkExtract(a->kid[0], 0, w), mkExtract(a->kid[1], 0, w));
      break;
    case K_SHL:
      if (a->kid[1]->isConst()) {
        u64 s = a->kid[1]->lo;
        if (s >= a->w) return mkConst(0, w);
        if (off >= s) return mkExtract(a->kid[0], off - s, w);
        if (off + w <= s) return mkConst(0, w);
        return mkConcat(mkExtract(a->kid[0], 0, off + w - s), mkConst(0, s - off));
      }
      break;
    case K_LSHR:
      if (a->kid[1]->isConst()) {
        u64 s = a->kid[1]->lo;
        if (s >= a->w) return mkConst(0, w);
        if (off + s >= a->w) return mkConst(0, w);
        if (off + w + s <= a->w) return mkExtract(a->kid[0], off + s, w);
        return mkZExt(mkExtract(a->kid[0], off + s, a->w - off - s), w);
      }
      break;
    default: break;
  }
  if (a->w <= 64 && off && (a->rmax >> off) == 0) return mkConst(0, w);
  return intern(K_EXTRACT, w, off, a);
}
E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->cval(), w);
  if (a->k == K_ADD && w <= 64) {   // a sum that cannot overflow is summed at the wider width
    u128 t = (u128)a->kid[0]->rmax + a->kid[1]->rmax;
    if (t <= maskw(a->w)) return mkBin(K_ADD, mkZExt(a->kid[0], w), mkZExt(a->kid[1], w));
  }
  if (a->k == K_ZEXT) return mkZExt(a->kid[0], w);
  if (a->k == K_ITE && a->kid[1]->isConst() && a->kid[2]->isConst())
    return mkIte(a->kid[0], mkConst(a->kid[1]->cval(), w), mkConst(a->kid[2]->cval(), w));
  return intern(K_ZEXT, w, 0, a);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->isConst()) return mkConst((u128)sx128(a->cval(), a->w), w);
  if (a->k == K_ZEXT) return mkZExt(a->kid[0], w);
  if (a->k == K_SEXT) return mkSExt(a->kid[0], w);
  if (a->w <= 64 && !(a->rmax >> (a->w - 1))) return mkZExt(a, w);
  if (a->k == K_ITE && a->kid[1]->isConst() && a->kid[2]->isConst())
    return mkIte(a->kid[0], mkSExt(a->kid[1], w), mkSExt(a->kid[2], w));
  return intern(K_SEXT, w, 0, a);
}
E mkNot(E a) {
  if (a->isConst()) return mkConst(~a->cval(), a->w);
  if (a->k == K_NOT) return a->kid[0];
  if (a->w == 1) {
    switch (a->k) {
      case K_ULT: return mkBin(K_ULE, a->kid[1], a->kid[0]);
      case K_ULE: return mkBin(K_ULT, a->kid[1], a->kid[0]);
      case K_SLT: return mkBin(K_SLE, a->kid[1], a->kid[0]);
      case K_SLE: return mkBin(K_SLT, a->kid[1], a->kid[0]);
      default: break;
    }
  }
  return intern(K_NOT, a->w, 0, a);
}
E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->lo ? a : b;
  if (a == b) return a;
  if (c->k == K_NOT) return mkIte(c->kid[0], b, a);
  if (a->w == 1) {
    if (a->isConst()) return a->lo ? mkBin(K_OR, c, b) : mkBin(K_AND, mkNot(c), b);
    if (b->isConst()) return b->lo ? mkBin(K_OR, mkNot(c), a) : mkBin(K_AND, c, a);
  }
  if (a->k == K_ITE && a->kid[0] == c) a = a->kid[1];
  if (b->k == K_ITE && b->kid[0] == c) b = b->kid[2];
  if (c->k == K_EQ && !c->fp && c->kid[1]->isConst() && a == c->kid[0]) a = c->kid[1];
  if (a == b) return a;
  if (c->k == K_EQ && a->isConst() && !c->fp) {   // x == k ? f(k) : f(x)
    E x = c->kid[0], k = c->kid[1]; if (x->isConst()) std::swap(x, k);
    if (k->isConst()) {
      if (b == x && a == k) return b;
      if (b->k == K_ZEXT && b->kid[0] == x && a->cval() == k->cval()) return b;
    }
  }
  return intern(K_ITE, a->w, 0, c, a, b);
}

// Pick up simple bit-segment structure for AND/OR/shift normalisation.
static bool contiguousLowMask(u128 c, unsigned w, unsigned* n) {
  unsigned k = 0;
  while (k < w && ((c >> k) & 1)) k++;
  if (k < w && (c >> k) != 0) return false;
  *n = k;
  return true;
}

// Disjoint OR as concat: possible when one side's low bits are zeros and other's high bits are zeros.
static unsigned leadingZeros(E e) {  // known leading zero bits
  if (e->w <= 64) { u64 m = e->rmax; unsigned used = m ? 64 - __builtin_clzll(m) : 0; return e->w - used; }
  if (e->k == K_ZEXT) { return e->w - e->kid[0]->w + leadingZeros(e->kid[0]); }
  if (e->k == K_CONST) { unsigned used = e->hi ? 128 - __builtin_clzll(e->hi) : e->lo ? 64 - __builtin_clzll(e->lo) : 0; return e->w - used; }
  return 0;
}

// ---- sums as lists of terms ----
struct Lin { std::vector<std::pair<E, int>> t; u128 c = 0; bool ok = true; };
static void linCollect(E e, int sg, Lin& l, int depth) {
  if (!l.ok) return;
  if (e->isConst()) { l.c += sg > 0 ? e->cval() : 0 - e->cval(); return; }
  if (depth < 40 && (e->k == K_ADD || e->k == K_SUB)) { linCollect(e->kid[0], sg, l, depth + 1); linCollect(e->kid[1], e->k == K_ADD ? sg : -sg, l, depth + 1); return; }
  for (auto& p : l.t) if (p.first == e) { p.second += sg; return; }
  if (l.t.size() >= 24) { l.ok = false; return; }
  l.t.push_back({e, sg});
}
static E rawBin(Kind k, E a, E b) { if (k == K_ADD && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b); return intern(k, a->w, 0, a, b); }
static E linBuild(const std::vector<std::pair<E, int>>& t, int sg, unsigned w) {  // the terms of one sign, as a sum (nullptr: none)
  E r = nullptr;
  for (auto& p : t) for (int n = p.second * sg; n > 0; n--) r = r ? rawBin(K_ADD, r, p.first) : p.first;
  return r;
}
static bool isSum(E e) { return (e->k == K_ADD || e->k == K_SUB); }
// a + b or a - b with terms sorted, when that cancels something or every term is added
static E linAdd(Kind k, E a, E b, unsigned w) {
  if (!isSum(a) && !isSum(b)) return nullptr;
  Lin l; linCollect(a, 1, l, 0); size_t na = l.t.size(); Lin m; linCollect(b, k == K_ADD ? 1 : -1, m, 0);
  if (!l.ok || !m.ok) return nullptr;
  bool cancel = false, neg = false; (void)na;
  for (auto& q : m.t) { bool f = false; for (auto& p : l.t) if (p.first == q.first) { if ((p.second < 0) != (q.second < 0)) cancel = true; p.second += q.second; f = true; break; } if (!f) l.t.push_back(q); }
  int tot = 0; for (auto& p : l.t) { neg |= p.second < 0; tot += std::abs(p.second); }
  if ((neg && !cancel) || tot > 32 || (!cancel && l.t.size() < 3)) return nullptr;
  std::sort(l.t.begin(), l.t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
  E p = linBuild(l.t, 1, w), n = linBuild(l.t, -1, w); u128 c = (l.c + m.c) & mask128(w);
  E r = n ? rawBin(K_SUB, p ? p : mkConst(0, w), n) : p ? p : mkConst(0, w);
  if (c) r = r->isConst() ? mkConst(r->cval() + c, w) : rawBin(K_ADD, r, mkConst(c, w));
  return r;
}
// Removes what two sums share; for an order, only when neither side can overflow.
static bool linCancel(E& a, E& b, bool order) {
  if (!isSum(a) && !isSum(b)) return false;
  unsigned w = a->w; Lin l, m; linCollect(a, 1, l, 0); linCollect(b, 1, m, 0);
  if (!l.ok || !m.ok) return false;
  if (order) {
    if (w > 64) return false;
    for (Lin* x : {&l, &m}) { u128 s = x->c & mask128(w); for (auto& p : x->t) { if (p.second < 0) return false; s += (u128)p.first->rmax * p.second; } if (s > mask128(w)) return false; }
  }
  bool any = false; size_t n = l.t.size();
  for (auto& q : m.t) { bool f = false; for (size_t i = 0; i < n; i++) if (l.t[i].first == q.first) { if ((l.t[i].second < 0) == (q.second < 0)) any = true; l.t[i].second -= q.second; f = true; break; } if (!f) l.t.push_back({q.first, -q.second}); }
  if (!any) return false;
  std::sort(l.t.begin(), l.t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
  E p = linBuild(l.t, 1, w), q = linBuild(l.t, -1, w); if (!p) p = mkConst(0, w); if (!q) q = mkConst(0, w);
  u128 cl = l.c & mask128(w), cm = m.c & mask128(w);
  if (order) { u128 z = cl < cm ? cl : cm; cl -= z; cm -= z; } else { cl = (cl - cm) & mask128(w); cm = 0; }
  auto plus = [&](E e, u128 c) { return !c ? e : e->isConst() ? mkConst(e->cval() + c, w) : rawBin(K_ADD, e, mkConst(c, w)); };
  a = plus(p, cl); b = plus(q, cm);
  return true;
}

// a < x / d and the like, without the division, where the multiples of d do not overflow
static E cmpDiv(Kind k, E a, E b, unsigned w) {
  auto divOf = [](E e) -> E { if (e->k == K_ZEXT) e = e->kid[0]; return e->k == K_UDIV && e->w <= 64 && e->kid[1]->isConst() && e->kid[1]->cval() != 0 ? e : nullptr; };
  if (w < 8) return nullptr;
  E da = divOf(a), db = divOf(b); if (!da && !db) return nullptr;
  unsigned W = std::max(w, 64u); if (W > 64) { if (w - leadingZeros(a) > 64 || w - leadingZeros(b) > 64) return nullptr; W = 64; }
  auto wide = [&](E e) { return e->w < W ? mkZExt(e, W) : mkExtract(e, 0, W); };
  auto cmp = [&](E y, unsigned plus, E x, bool yLeft, Kind op, u64 d) -> E {   // (y + plus) * d op x, or the other way round
    u64 c = 1; E base = x; y = wide(y);
    for (int i = 0; i < 2; i++) { if (base->k == K_ZEXT) base = base->kid[0]; if (base->k == K_MUL && base->kid[1]->isConst()) { u64 hi, c2; if (!__builtin_mul_overflow(base->kid[0]->rmax, base->kid[1]->lo, &hi) && hi <= maskw(base->w) && !__builtin_mul_overflow(c, base->kid[1]->lo, &c2)) { c = c2; base = base->kid[0]; } } }
    u64 hi; if (__builtin_mul_overflow(base->rmax, c, &hi)) { c = 1; base = x; }
    base = wide(base); u64 g = d, h = c; while (h) { u64 t = g % h; g = h; h = t; }
    u64 top; if (__builtin_add_overflow(y->rmax, (u64)plus, &top) || __builtin_mul_overflow(top, d / g, &top)) return nullptr;
    E l = mkBin(K_MUL, mkBin(K_ADD, y, mkConst(plus, W)), mkConst(d / g, W)), r = c / g == 1 ? base : mkBin(K_MUL, base, mkConst(c / g, W));
    return yLeft ? mkBin(op, l, r) : mkBin(op, r, l);
  };
  if (k == K_EQ) { if (!da || !b->isConst()) return nullptr; E lo = cmp(b, 0, da->kid[0], true, K_ULE, da->kid[1]->lo), hi = lo ? cmp(b, 1, da->kid[0], false, K_ULT, da->kid[1]->lo) : nullptr; return hi ? mkBin(K_AND, lo, hi) : nullptr; }
  if (db) { u64 d = db->kid[1]->lo; return cmp(a, k == K_ULT, db->kid[0], true, K_ULE, d); }
  u64 d = da->kid[1]->lo; return cmp(b, k != K_ULT, da->kid[0], false, K_ULT, d);
}
E mkBin(Kind k, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "ENGINE: width mismatch kind %d %u %u\n", k, a->w, b->w); abort(); }
  if (a->isConst() && b->isConst()) {
    bool ok; u128 r = foldBin(k, a->cval(), b->cval(), w, &ok);
    bool cmp = k >= K_EQ && k <= K_SLE;
    return mkConst(r, cmp ? 1 : w);
  }
  bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ;
  if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);  // const on the right
  bool bc = b->isConst();
  u128 bv = bc ? b->cval() : 0;
  if (w > 64 && (k == K_ADD || k == K_MUL || k == K_UDIV || k == K_UREM)) {  // small operands: 64-bit arithmetic
    unsigned ua = w - leadingZeros(a), ub = w - leadingZeros(b);
    if ((k == K_ADD && ua < 64 && ub < 64) || (k == K_MUL && ua + ub <= 64) || ((k == K_UDIV || k == K_UREM) && ua <= 64 && bc && bv && ub <= 64))
      return mkZExt(mkBin(k, mkExtract(a, 0, 64), mkExtract(b, 0, 64)), w);
  }
  switch (k) {
    case K_ADD:
      if (bc && bv == 0) return a;
      if (w == 1) return mkBin(K_XOR, a, b);
      if (bc && a->k == K_ADD && a->kid[1]->isConst()) return mkBin(K_ADD, a->kid[0], mkConst(a->kid[1]->cval() + bv, w));
      if (bc && a->k == K_SUB && a->kid[0]->isConst()) return mkBin(K_SUB, mkConst(a->kid[0]->cval() + bv, w), a->kid[1]);
      if (a->k == K_ADD && a->kid[1]->isConst()) return mkBin(K_ADD, mkBin(K_ADD, a->kid[0], b), a->kid[1]);
      if (b->k == K_ADD && b->kid[1]->isConst()) return mkBin(K_ADD, mkBin(K_ADD, a, b->kid[0]), b->kid[1]);
      if (b->k == K_SUB && b->kid[1] == a) return b->kid[0];
      if (a->k == K_SUB && a->kid[1] == b) return a->kid[0];
      if (bc && a->k == K_ITE && a->kid[1]->isConst() && a->kid[2]->isConst()) return mkIte(a->kid[0], mkBin(k, a->kid[1], b), mkBin(k, a->kid[2], b));
      if (!bc) if (E r = linAdd(k, a, b, w)) return r;
      break;
    case K_SUB:
      if (w == 1) return mkBin(K_XOR, a, b);
      if (a == b) return mkConst(0, w);
      if (bc) return mkBin(K_ADD, a, mkConst(0 - bv, w));
      if (a->k == K_ADD) { if (a->kid[0] == b) return a->kid[1]; if (a->kid[1] == b) return a->kid[0]; }
      if (a->k == K_ADD && a->kid[1]->isConst()) return mkBin(K_ADD, mkBin(K_SUB, a->kid[0], b), a->kid[1]);
      if (b->k == K_ADD && b->kid[1]->isConst()) return mkBin(K_ADD, mkBin(K_SUB, a, b->kid[0]), mkConst(0 - b->kid[1]->cval(), w));
      if (b->k == K_ADD) { if (b->kid[0] == a) return mkBin(K_SUB, mkConst(0, w), b->kid[1]); if (b->kid[1] == a) return mkBin(K_SUB, mkConst(0, w), b->kid[0]); }
      if (a->k == K_SUB && a->kid[0] == b) return mkBin(K_SUB, mkConst(0, w), a->kid[1]);
      if (E r = linAdd(k, a, b, w)) return r;
      break;
    case K_MUL:
      if (w == 1) return mkBin(K_AND, a, b);
      if (bc) {
        if (bv == 0) return b;
        if (bv == 1) return a;
        if ((bv & (bv - 1)) == 0) { unsigned s = 0; while (!((bv >> s) & 1)) s++; return mkBin(K_SHL, a, mkConst(s, w)); }
        if (a->k == K_MUL && a->kid[1]->isConst()) return mkBin(K_MUL, a->kid[0], mkConst(a->kid[1]->cval() * bv, w));
        if (a->k == K_ADD && a->kid[1]->isConst()) return mkBin(K_ADD, mkBin(K_MUL, a->kid[0], b), mkConst(a->kid[1]->cval() * bv, w));
      }
      break;
    case K_UDIV:
      if (bc && bv == 1) return a;
      if (bc && bv && (bv & (bv - 1)) == 0) { unsigned s = 0; while (!((bv >> s) & 1)) s++; return mkBin(K_LSHR, a, mkConst(s, w)); }
      if (w <= 64 && b->rmin > a->rmax) return mkConst(0, w);
      if (bc && bv && w <= 64 && a->k == K_MUL && a->kid[1]->isConst() && a->kid[1]->lo == (u64)bv) {
        u64 hi; if (!__builtin_mul_overflow(a->kid[0]->rmax, (u64)bv, &hi) && hi <= maskw(w)) return a->kid[0]; }
      break;
    case K_SDIV:
      if (bc && bv == 1) return a;
      if (bc && w <= 64 && !(a->rmax >> (w - 1)) && !((u64)bv >> (w - 1)) && bv) return mkBin(K_UDIV, a, b);
      // exact division of a shifted pointer difference is left to the solver
      break;
    case K_UREM:
      if (bc && bv == 1) return mkConst(0, w);
      if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(K_AND, a, mkConst(bv - 1, w));
      if (w <= 64 && b->rmin > a->rmax) return a;
      break;
    case K_SREM:
      if (bc && w <= 64 && !(a->rmax >> (w - 1)) && !((u64)bv >> (w - 1)) && bv) return mkBin(K_UREM, a, b);
      break;
    case K_AND: {
      if (a == b) return a;
      if (bc) {
        if (bv == 0) return b;
        if (bv == mask128(w)) return a;
        if (a->k == K_AND && a->kid[1]->isConst()) return mkBin(K_AND, a->kid[0], mkConst(a->kid[1]->cval() & bv, w));
        unsigned n;
        if (contiguousLowMask(bv, w, &n)) {
          if (w <= 64 && a->rmax <= maskw(n)) return a;
          return mkZExt(mkExtract(a, 0, n), w);
        }
        unsigned tz = 0; while (!((bv >> tz) & 1)) tz++;
        if (contiguousLowMask(bv >> tz, w - tz, &n)) {  // contiguous mask in the middle
          E mid = mkConcat(mkExtract(a, tz, n), mkConst(0, tz));
          return mkZExt(mid, w);
        }
        if (a->k == K_ITE && a->kid[1]->isConst() && a->kid[2]->isConst()) return mkIte(a->kid[0], mkBin(k, a->kid[1], b), mkBin(k, a->kid[2], b));
      }
      if (w == 1 && (a == mkNot(b))) return mkConst(0, 1);
      // known-disjoint
      if (w - leadingZeros(a) <= trailingZeros(b) || w - leadingZeros(b) <= trailingZeros(a)) return mkConst(0, w);
      break;
    }
    case K_OR: {
      if (a == b) return a;
      if (bc) {
        if (bv == 0) return a;
        if (bv == mask128(w)) return b;
        if (a->k == K_OR && a->kid[1]->isConst()) return mkBin(K_OR, a->kid[0], mkConst(a->kid[1]->cval() | bv, w));
      }
      if (w == 1) { if (a == mkNot(b)) return mkConst(1, 1); break; }
      unsigned ta = trailingZeros(a), tb = trailingZeros(b);
      unsigned la = w - leadingZeros(a), lb = w - leadingZeros(b);  // used widths
      if (la <= tb && la > 0 && tb < w) return mkConcat(mkExtract(b, la, w - la), mkExtract(a, 0, la));
      if (lb <= ta && lb > 0 && ta < w) return mkConcat(mkExtract(a, lb, w - lb), mkExtract(b, 0, lb));
      break;
    }
    case K_XOR:
      if (a == b) return mkConst(0, w);
      if (bc) {
        if (bv == 0) return a;
        if (bv == mask128(w)) return mkNot(a);
        if (a->k == K_XOR && a->kid[1]->isConst()) return mkBin(K_XOR, a->kid[0], mkConst(a->kid[1]->cval() ^ bv, w));
        if (a->k == K_ITE && a->kid[1]->isConst() && a->kid[2]->isConst()) return mkIte(a->kid[0], mkBin(k, a->kid[1], b), mkBin(k, a->kid[2], b));
      }
      if (w == 1) {
        if (a->k == K_NOT) return mkNot(mkBin(K_XOR, a->kid[0], b));
        if (b->k == K_NOT) return mkNot(mkBin(K_XOR, a, b->kid[0]));
      }
      break;
    case K_SHL:
      if (bc) {
        if (bv == 0) return a;
        if (bv >= w) return mkConst(0, w);
        unsigned s = (unsigned)bv;
        return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
      }
      if (a->isConst() && a->cval() == 0) return a;
      break;
    case K_LSHR:
      if (bc) {
        if (bv == 0) return a;
        if (bv >= w) return mkConst(0, w);
        unsigned s = (unsigned)bv;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      if (a->isConst() && a->cval() == 0) return a;
      break;
    case K_ASHR:
      if (bc) {
        if (bv == 0) return a;
        unsigned s = bv >= w ? w - 1 : (unsigned)bv;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      if (a->isConst() && a->cval() == 0) return a;
      break;
    case K_EQ: {
      if (a == b) return mkTrue();
      if (w == 1 && bc) return bv ? a : mkNot(a);
      if (w <= 64 && (a->rmax < b->rmin || b->rmax < a->rmin)) return mkFalse();
      if (w == 1) return mkNot(mkBin(K_XOR, a, b));
      if (bc && a->k == K_UDIV) if (E r = cmpDiv(k, a, b, w)) return r;
      if (bc) {
        switch (a->k) {
          case K_ZEXT: if (bv >> a->kid[0]->w) return mkFalse(); return mkEq(a->kid[0], mkConst(bv, a->kid[0]->w));
          case K_SEXT: { E t = mkConst(bv, a->kid[0]->w); if (mkSExt(t, w) != b) return mkFalse(); return mkEq(a->kid[0], t); }
          case K_ADD: if (a->kid[1]->isConst()) return mkEq(a->kid[0], mkConst(bv - a->kid[1]->cval(), w)); break;
          case K_SUB: if (a->kid[0]->isConst()) return mkEq(a->kid[1], mkConst(a->kid[0]->cval() - bv, w)); if (bv == 0) return mkEq(a->kid[0], a->kid[1]); break;
          case K_XOR: if (a->kid[1]->isConst()) return mkEq(a->kid[0], mkConst(bv ^ a->kid[1]->cval(), w)); if (bv == 0) return mkEq(a->kid[0], a->kid[1]); break;
          case K_NOT: return mkEq(a->kid[0], mkConst(~bv, w));
          case K_CONCAT: { E l = a->kid[1], h = a->kid[0]; return mkBin(K_AND, mkEq(h, mkConst(bv >> l->w, h->w)), mkEq(l, mkConst(bv, l->w))); }
          case K_ITE: {
            E x = a->kid[1], y = a->kid[2];
            if (x->isConst() || y->isConst()) {
              E ex = mkEq(x, b), ey = mkEq(y, b);
              return mkIte(a->kid[0], ex, ey);
            }
            break;
          }
          case K_OR: if (bv == 0) return mkBin(K_AND, mkEq(a->kid[0], b), mkEq(a->kid[1], b)); break;
          default: break;
        }
      } else {
        if (a->k == K_ZEXT && b->k == K_ZEXT) {
          unsigned m = std::max(a->kid[0]->w, b->kid[0]->w);
          return mkEq(mkZExt(a->kid[0], m), mkZExt(b->kid[0], m));
        }
        if (a->k == K_ADD && b->k == K_ADD && a->kid[1]->isConst() && b->kid[1]->isConst()) {
          if (a->kid[1] == b->kid[1]) return mkEq(a->kid[0], b->kid[0]);
          if (a->kid[0] == b->kid[0]) return mkFalse();
        }
        if (a->k == K_ADD && (a->kid[0] == b || a->kid[1] == b)) return mkEq(a->kid[0] == b ? a->kid[1] : a->kid[0], mkConst(0, w));
        if (b->k == K_ADD && (b->kid[0] == a || b->kid[1] == a)) return mkEq(b->kid[0] == a ? b->kid[1] : b->kid[0], mkConst(0, w));
        if (linCancel(a, b, false)) return mkEq(a, b);
      }
      break;
    }
    case K_ULT:
      if (a == b) return mkFalse();
      if (bc && bv == 0) return mkFalse();
      if (bc && bv == 1) return mkEq(a, mkConst(0, w));
      if (a->isConst() && a->cval() == 0) return mkNot(mkEq(b, a));
      if (a->isConst() && a->cval() == mask128(w)) return mkFalse();
      if (w <= 64) { if (a->rmax < b->rmin) return mkTrue(); if (a->rmin >= b->rmax) return mkFalse(); }
      if (w == 1) return mkBin(K_AND, mkNot(a), b);
      if (E r = cmpDiv(k, a, b, w)) return r;
      if (linCancel(a, b, true)) return mkBin(k, a, b);
      if (a->k == K_ZEXT && b->k == K_ZEXT) { unsigned m = std::max(a->kid[0]->w, b->kid[0]->w); return mkBin(k, mkZExt(a->kid[0], m), mkZExt(b->kid[0], m)); }
      if (a->k == K_ZEXT && bc) { if (bv > mask128(a->kid[0]->w)) return mkTrue(); return mkBin(k, a->kid[0], mkConst(bv, a->kid[0]->w)); }
      if (b->k == K_ZEXT && a->isConst()) { if (a->cval() >= mask128(b->kid[0]->w)) return mkFalse(); return mkBin(k, mkConst(a->cval(), b->kid[0]->w), b->kid[0]); }
      if (bc && a->k == K_ITE && a->kid[1]->isConst() && a->kid[2]->isConst()) return mkIte(a->kid[0], mkBin(k, a->kid[1], b), mkBin(k, a->kid[2], b));
      break;
    case K_ULE:
      if (a == b) return mkTrue();
      if (bc && bv == mask128(w)) return mkTrue();
      if (bc && bv == 0) return mkEq(a, b);
      if (a->isConst() && a->cval() == 0) return mkTrue();
      if (bc && bv != mask128(w)) return mkBin(K_ULT, a, mkConst(bv + 1, w));
      if (a->isConst() && a->cval() != 0) return mkBin(K_ULT, mkConst(a->cval() - 1, w), b);
      if (w <= 64) { if (a->rmax <= b->rmin) return mkTrue(); if (a->rmin > b->rmax) return mkFalse(); }
      if (w == 1) return mkBin(K_OR, mkNot(a), b);
      if (E r = cmpDiv(k, a, b, w)) return r;
      if (linCancel(a, b, true)) return mkBin(k, a, b);
      if (a->k == K_ZEXT && b->k == K_ZEXT) { unsigned m = std::max(a->kid[0]->w, b->kid[0]->w); return mkBin(k, mkZExt(a->kid[0], m), mkZExt(b->kid[0], m)); }
      break;
    case K_SLT: case K_SLE: {
      if (a == b) return k == K_SLT ? mkFalse() : mkTrue();
      if (w == 1) return k == K_SLT ? mkBin(K_AND, a, mkNot(b)) : mkBin(K_OR, a, mkNot(b));
      if (w <= 64) {
        u64 sb = 1ull << (w - 1);
        bool an = a->rmax < sb, bn = b->rmax < sb;  // known non-negative
        bool ag = a->rmin >= sb, bg = b->rmin >= sb;
        if ((an && bn) || (ag && bg)) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
        if (an && bg) return mkFalse();
        if (ag && bn) return mkTrue();
      } else {
        if (leadingZeros(a) && leadingZeros(b)) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
      }
      if (a->k == K_SEXT && b->k == K_SEXT && a->kid[0]->w == b->kid[0]->w) return mkBin(k, a->kid[0], b->kid[0]);
      if (a->k == K_SEXT && bc) { E t = mkConst(bv, a->kid[0]->w); if (mkSExt(t, w) == b) return mkBin(k, a->kid[0], t); }
      if (b->k == K_SEXT && a->isConst()) { E t = mkConst(a->cval(), b->kid[0]->w); if (mkSExt(t, w) == a) return mkBin(k, t, b->kid[0]); }
      if (bc && a->k == K_ITE && a->kid[1]->isConst() && a->kid[2]->isConst()) return mkIte(a->kid[0], mkBin(k, a->kid[1], b), mkBin(k, a->kid[2], b));
      break;
    }
    default: break;
  }
  if ((k == K_MUL || k == K_UDIV || k == K_UREM) && w <= 64 && w > 8) {  // canonical narrow width
    u64 top = std::max(a->rmax, b->rmax);
    if (k == K_MUL) { u64 hi; top = __builtin_mul_overflow(a->rmax, b->rmax, &hi) ? ~0ull : std::max(hi, top); }
    // division by zero is reported by the executor before the node is built, so its value there is irrelevant
    for (unsigned n : {8u, 16u, 32u}) if (n < w && top <= maskw(n)) return mkZExt(mkBin(k, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
  }
  return intern(k, (k >= K_EQ && k <= K_SLE) ? 1 : w, 0, a, b);
}

// ---------------- floating point ----------------
// Exact dyadic view: value = num * 2^-k with num a 64-bit signed expression in [lo,hi].
struct Dy { E num; unsigned k; s64 lo, hi; };
static const s64 kMaxExact = 1ll << 53;
static bool asDy(E e, Dy* d) {
  if (e->w != 64) return false;
  if (e->k == K_SITOFP && e->smin <= e->smax && e->kid[0]->w == 64) { d->num = e->kid[0]; d->k = e->aux; d->lo = e->smin; d->hi = e->smax; return !(d->lo == 0 && d->hi == -1); }
  if (e->isConst()) {
    double v = bitsToD(e->lo);
    if (!std::isfinite(v)) return false;
    if (v == 0) { if (std::signbit(v)) return false; d->num = mkConst(0, 64); d->k = 0; d->lo = d->hi = 0; return true; }
    int ex; double m = std::frexp(v, &ex);  // v = m*2^ex, 0.5<=|m|<1
    s64 n = (s64)std::ldexp(m, 53); int k = 53 - ex;
    while (n % 2 == 0 && k > -1000) { n /= 2; k--; }
    while (k < 0) { if (n > kMaxExact / 2 || n < -kMaxExact / 2) return false; n *= 2; k++; }
    if (k > 60) return false;
    d->num = mkConst((u128)(s128)n, 64); d->k = k; d->lo = d->hi = n; return true;
  }
  return false;
}
static E mkDy(E num, unsigned k, s64 lo, s64 hi) {
  if (num->isConst()) return mkConst(dToBits(std::ldexp((double)(s64)num->lo, -(int)k)), 64);
  // bounds are encoded in lo/hi so that equal (num,k) with different bounds stay distinct
  return intern(K_SITOFP, 64, k, num, nullptr, nullptr, (u64)lo, (u64)hi, lo, hi);
}
static bool shiftBounds(s64 v, unsigned s, s64* o, s64 lim) {
  s128 x = (s128)v << s; if (x > lim || x < -(s128)lim) return false; *o = (s64)x; return true;
}
static bool align(Dy& a, Dy& b, s64 lim) {
  unsigned k = std::max(a.k, b.k);
  for (Dy* d : {&a, &b}) {
    unsigned s = k - d->k;
    if (s) {
      if (s > 60 || !shiftBounds(d->lo, s, &d->lo, lim) || !shiftBounds(d->hi, s, &d->hi, lim)) return false;
      d->num = mkBin(K_SHL, d->num, mkConst(s, 64)); d->k = k;
    }
  }
  return true;
}
// fl(x / y) compared with a positive constant c (swapped: c compared with it), x, y >= 0 exact and below 2^53:
// the rounded quotient is below (at most) c exactly if the quotient is below the midpoint of c and its lower
// (upper) neighbour, and a quotient of such numbers never is a midpoint.  A zero divisor (NaN, +inf) fits in.
E mkFBin(Kind k, E a, E b);
static E cmpQuot(Kind k, E q, E ce, bool swapped) {
  Dy x, y; double c = bitsToD(ce->lo);
  if (c < 0 && asDy(q->kid[0], &x) && asDy(q->kid[1], &y) && x.hi <= 0 && x.lo < x.hi && y.lo > 0) {   // both negative
    E n = mkFBin(K_FDIV, mkDy(mkBin(K_SUB, mkConst(0, 64), x.num), x.k, -x.hi, -x.lo), q->kid[1]);
    if (n->k == K_FDIV) return cmpQuot(k, n, mkConst(dToBits(-c), 64), !swapped);
  }
  if (!(c > 1e-9 && c < 1e9) || !asDy(q->kid[0], &x) || !asDy(q->kid[1], &y) || x.lo < 0 || y.lo < 0 || x.hi > kMaxExact || y.hi > kMaxExact) return nullptr;
  auto side = [&](bool up, bool below) -> E {   // x/y below (above) the midpoint of c and its upper (lower) neighbour
    double n = std::nextafter(c, up ? 1e300 : 0);
    int ex; std::frexp(std::min(c, n), &ex);
    auto m = [&](double v) { return (u128)std::ldexp(v, 53 - ex); };   // exact integers
    u128 p = m(c) + m(n); int s = 54 - ex;   // the midpoint is p * 2^-s
    int sx = s + (int)y.k - (int)x.k;                   // x * 2^-xk * 2^s < p * y * 2^-yk
    unsigned l = sx > 0 ? sx : 0, r = sx < 0 ? -sx : 0;
    auto bits = [](u128 v) { unsigned b = 0; while (v) { b++; v >>= 1; } return b; };
    if (bits(x.hi) + l > 118 || bits(y.hi) + bits(p) + r > 118) return nullptr;
    E a = mkBin(K_SHL, mkZExt(x.num, 120), mkConst(l, 120)), b = mkBin(K_MUL, mkZExt(y.num, 120), mkConst(p << r, 120));
    return below ? mkBin(K_ULT, a, b) : mkBin(K_ULT, b, a);
  };
  if (k == K_FOEQ) { E l = side(false, false), h = side(true, true); return l && h ? mkBin(K_AND, l, h) : nullptr; }
  if (!swapped) return k == K_FOLT ? side(false, true) : side(true, true);
  return k == K_FOLT ? side(true, false) : side(false, false);
}
// As asDy, for an operand of a comparison of quotients with positive divisors: -0 may count as 0.
static bool asNum(E e, Dy* d) {
  if (e->k == K_FNEG) { if (!asDy(e->kid[0], d)) return false; d->num = mkBin(K_SUB, mkConst(0, 64), d->num); std::swap(d->lo, d->hi); d->lo = -d->lo; d->hi = -d->hi; return true; }
  return asDy(e, d);
}
// fl(x / d) compared with a constant c, d a positive constant: the quotient is monotone in x, so a threshold decides.
static E cmpThreshold(Kind k, E q, E ce, bool swapped) {
  Dy x; double c = bitsToD(ce->lo), d;
  if (!std::isfinite(c) || !q->kid[1]->isConst() || !((d = bitsToD(q->kid[1]->lo)) > 1e-100 && d < 1e100) || !asNum(q->kid[0], &x) || x.k > 200 || x.lo < -kMaxExact || x.hi > kMaxExact) return nullptr;
  auto least = [&](bool strict) { s64 l = x.lo, h = x.hi + 1; while (l < h) { s64 m = l + (h - l) / 2; double v = std::ldexp((double)m, -(int)x.k) / d; if (strict ? v > c : v >= c) h = m; else l = m + 1; } return mkConst((u128)(s128)l, 64); };   // the first x with a quotient above (at least) c
  if (k == K_FOEQ) return mkBin(K_AND, mkBin(K_SLE, least(false), x.num), mkBin(K_SLT, x.num, least(true)));
  if (swapped) return k == K_FOLT ? mkBin(K_SLE, least(true), x.num) : mkBin(K_SLE, least(false), x.num);
  return k == K_FOLT ? mkBin(K_SLT, x.num, least(false)) : mkBin(K_SLT, x.num, least(true));
}
// A double as a rational num / den (an exact value or a correctly rounded quotient of exact values).
static bool asRatio(E e, Dy* n, u64* den) {
  Dy y;
  if (e->k == K_FDIV) {
    if (!asNum(e->kid[0], n) || !asDy(e->kid[1], &y) || !y.num->isConst() || y.lo <= 0 || y.k != 0 || n->k > 20 || y.lo > (1 << 30)) return false;
    *den = (u64)y.lo << n->k; return true;
  }
  if (!asNum(e, n) || n->k > 20) return false;
  *den = 1ull << n->k; return true;
}
// fl(a / c) compared with fl(b / d): rounding is monotone, and quotients that differ do so by more than one unit in the last
// place if both cross products are below 2^51.
static E cmpRatio(Kind k, E a, E b) {
  Dy x, y; u64 c, d;
  if (!asRatio(a, &x, &c) || !asRatio(b, &y, &d)) return nullptr;
  auto big = [](const Dy& v, u64 m) { return (s128)v.hi * m >= (1ll << 51) || (s128)v.lo * m <= -(1ll << 51); };
  if (big(x, d) || big(y, c)) return nullptr;
  bool sg = x.lo < 0 || y.lo < 0;
  E l = mkBin(K_MUL, x.num, mkConst(d, 64)), r = mkBin(K_MUL, y.num, mkConst(c, 64));
  return k == K_FOEQ ? mkEq(l, r) : mkBin(k == K_FOLT ? sg ? K_SLT : K_ULT : sg ? K_SLE : K_ULE, l, r);
}
E mkFBin(Kind k, E a, E b) {
  unsigned w = a->w;
  bool cmp = k == K_FOEQ || k == K_FOLT || k == K_FOLE;
  if (cmp && w == 64) for (E* e : {&a, &b}) if ((*e)->isConst() && bitsToD((*e)->lo) == 0) *e = mkConst(0, 64);   // -0 compares like 0
  if (a->isConst() && b->isConst()) return mkConst(foldFBin(k, a->cval(), b->cval(), w), cmp ? 1 : w);
  Dy x, y;
  if (asDy(a, &x) && asDy(b, &y)) {
    if (k == K_FADD || k == K_FSUB) {
      Dy p = x, q = y;
      if (align(p, q, kMaxExact)) {
        s64 lo = k == K_FADD ? p.lo + q.lo : p.lo - q.hi, hi = k == K_FADD ? p.hi + q.hi : p.hi - q.lo;
        if (lo >= -kMaxExact && hi <= kMaxExact) return mkDy(mkBin(k == K_FADD ? K_ADD : K_SUB, p.num, q.num), p.k, lo, hi);
      }
    } else if (k == K_FMUL) {
      // avoid -0: both non-negative, or neither can be zero
      bool ok = (x.lo >= 0 && y.lo >= 0) || x.lo > 0 || y.lo > 0 || (x.hi < 0 && y.hi < 0);   // an exact zero is +0
      if (ok) {
        s128 c[4] = {(s128)x.lo * y.lo, (s128)x.lo * y.hi, (s128)x.hi * y.lo, (s128)x.hi * y.hi};
        s128 lo = std::min(std::min(c[0], c[1]), std::min(c[2], c[3])), hi = std::max(std::max(c[0], c[1]), std::max(c[2], c[3]));
        if (lo >= -kMaxExact && hi <= kMaxExact && x.k + y.k <= 200) return mkDy(mkBin(K_MUL, x.num, y.num), x.k + y.k, (s64)lo, (s64)hi);
      }
    } else if (k == K_FDIV) {
      if (b->isConst() && x.lo >= 0 && y.lo > 0 && (y.lo & (y.lo - 1)) == 0) {
        int s = __builtin_ctzll(y.lo);  // b = 2^s * 2^-yk
        int nk = (int)x.k + s - (int)y.k;
        if (nk >= 0 && nk <= 200) return mkDy(x.num, nk, x.lo, x.hi);
      }
    } else if (cmp) {
      Dy p = x, q = y;
      if (align(p, q, (1ll << 62))) {
        if (k == K_FOEQ) return mkEq(p.num, q.num);
        // numerators are in signed range: use signed comparison
        return mkBin(k == K_FOLT ? K_SLT : K_SLE, p.num, q.num);
      }
    }
  }
  if (cmp && w == 64 && (a->isConst() || b->isConst())) {   // an exact value compared with any constant
    bool left = b->isConst(); double c = bitsToD(left ? b->lo : a->lo); Dy d;
    if (std::isfinite(c) && asDy(left ? a : b, &d) && d.k <= 200) {
      double v = std::ldexp(c, d.k);   // exact unless subnormal
      if (std::fabs(v) < 4e18 && (c == 0 || std::fabs(c) > 1e-200)) {
        double f = std::floor(v), e = std::ceil(v); E F = mkConst((u128)(s128)(s64)f, 64), C = mkConst((u128)(s128)(s64)e, 64);
        if (k == K_FOEQ) return f == e ? mkEq(d.num, F) : mkFalse();
        if (left) return k == K_FOLT ? mkBin(K_SLT, d.num, C) : mkBin(K_SLE, d.num, F);
        return k == K_FOLT ? mkBin(K_SLT, F, d.num) : mkBin(K_SLE, C, d.num);
      }
    }
  }
  if (cmp && (a->k == K_FNEG || b->k == K_FNEG) && (a->k == K_FNEG || a->isConst()) && (b->k == K_FNEG || b->isConst())) {   // -a < -b is b < a
    auto neg = [&](E e) { return e->isConst() ? mkConst(foldFUn(K_FNEG, e->cval(), w, w, 0), w) : e->kid[0]; };
    return mkFBin(k, neg(b), neg(a));
  }
  if (cmp && w == 64) {
    if (a->k == K_FDIV || b->k == K_FDIV) if (E r = cmpRatio(k, a, b)) return r;
    if (a->k == K_FDIV && b->isConst()) { if (E r = cmpThreshold(k, a, b, false)) return r; }
    else if (b->k == K_FDIV && a->isConst()) { if (E r = cmpThreshold(k, b, a, true)) return r; }
    if (a->k == K_FDIV && b->isConst()) { if (E r = cmpQuot(k, a, b, false)) return r; }
    else if (b->k == K_FDIV && a->isConst()) { if (E r = cmpQuot(k, b, a, true)) return r; }
  }
  // anything else stays symbolic for Z3's FPA theory
  return intern(k, cmp ? 1 : w, 0, a, b);
}
E mkFUn(Kind k, E a, unsigned w, unsigned aux) {
  if (a->isConst()) return mkConst(foldFUn(k, a->cval(), a->w, w, aux), w);
  if (w == 64 && (k == K_UITOFP || k == K_SITOFP) && a->w <= 64) {
    if (a->rmax <= (u64)kMaxExact) return mkDy(mkZExt(a, 64), 0, (s64)a->rmin, (s64)a->rmax);
    if (k == K_SITOFP && a->w <= 32) return mkDy(mkSExt(a, 64), 0, -(1ll << 31), (1ll << 31));
  }
  Dy d;
  if (asDy(a, &d)) {
    if (k == K_FPTOSI || k == K_FPTOUI) {
      if (d.lo >= 0 && w <= 64 && (w == 64 || (u64)d.hi >> d.k <= maskw(w - 1))) return mkExtract(mkBin(K_LSHR, d.num, mkConst(d.k, 64)), 0, w);
      if (d.k == 0 && k == K_FPTOSI && w == 64) return d.num;
    }
    if (k == K_FISNAN) return mkFalse();
    if (k == K_FABS && d.lo >= 0) return a;
    if (k == K_FNEG && (d.lo > 0 || d.hi < 0)) return mkDy(mkBin(K_SUB, mkConst(0, 64), d.num), d.k, -d.hi, -d.lo);
    if (k == K_FRTI && d.lo >= 0) {
      if (d.k == 0) return a;
      if (d.k < 60 && (aux == 1 || aux == 2)) return mkDy(mkBin(K_LSHR, d.num, mkConst(d.k, 64)), 0, d.lo >> d.k, d.hi >> d.k);
    }
  }
  if (k == K_SITOFP) return intern(k, w, aux, a, nullptr, nullptr, 0, 0, 0, -1);
  return intern(k, w, aux, a);
}

// ---------------- evaluation ----------------
static u128 evalNode(E e, const Model& m);
u128 evalExpr(E e, const Model& m) {
  if (e->k == K_CONST) return e->cval();
  if (e->evalId == m.id) return e->evalV;
  // iterative for deep DAGs
  static std::vector<E> st;
  size_t base = st.size();
  st.push_back(e);
  while (st.size() > base) {
    E x = st.back();
    if (x->k == K_CONST || x->evalId == m.id) { st.pop_back(); continue; }
    bool ready = true;
    for (unsigned i = 0; i < x->nk; i++) {
      E y = x->kid[i];
      if (y->k != K_CONST && y->evalId != m.id) { st.push_back(y); ready = false; }
    }
    if (!ready) continue;
    x->evalV = evalNode(x, m);
    x->evalId = m.id;
    st.pop_back();
  }
  return e->evalV;
}
static inline u128 ev(E e) { return e->k == K_CONST ? e->cval() : e->evalV; }
static u128 evalNode(E e, const Model& m) {
  E a = e->kid[0], b = e->kid[1], c = e->kid[2];
  switch (e->k) {
    case K_CONST: return e->cval();
    case K_VAR: return m.get(e->aux) & maskw(e->w);
    case K_CONCAT: return (ev(a) << b->w) | ev(b);
    case K_EXTRACT: return (ev(a) >> e->aux) & mask128(e->w);
    case K_ZEXT: return ev(a);
    case K_SEXT: return (u128)sx128(ev(a), a->w) & mask128(e->w);
    case K_NOT: return ~ev(a) & mask128(e->w);
    case K_ITE: return ev(a) ? ev(b) : ev(c);
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FOEQ: case K_FOLT: case K_FOLE:
      return foldFBin(e->k, ev(a), ev(b), a->w);
    case K_FNEG: case K_FABS: case K_FISNAN: case K_SITOFP: case K_UITOFP: case K_FPTOSI: case K_FPTOUI:
    case K_FPEXT: case K_FPTRUNC: case K_FSQRT: case K_FRTI:
      return foldFUn(e->k, ev(a), a->w, e->w, e->aux);
    default: return foldBin(e->k, ev(a), ev(b), a->w);
  }
}

E substExpr(E e, std::unordered_map<E, E>& memo) {
  if (e->k == K_CONST) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  E r = e;
  if (e->nk) {
    E k[3] = {nullptr, nullptr, nullptr};
    bool ch = false;
    for (unsigned i = 0; i < e->nk; i++) { k[i] = substExpr(e->kid[i], memo); ch |= k[i] != e->kid[i]; }
    if (ch) switch (e->k) {
      case K_CONCAT: r = mkConcat(k[0], k[1]); break;
      case K_EXTRACT: r = mkExtract(k[0], e->aux, e->w); break;
      case K_ZEXT: r = mkZExt(k[0], e->w); break;
      case K_SEXT: r = mkSExt(k[0], e->w); break;
      case K_NOT: r = mkNot(k[0]); break;
      case K_ITE: r = mkIte(k[0], k[1], k[2]); break;
      case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FOEQ: case K_FOLT: case K_FOLE: r = mkFBin(e->k, k[0], k[1]); break;
      case K_SITOFP:
        if (e->smin <= e->smax) r = mkDy(k[0], e->aux, e->smin, e->smax);
        else r = mkFUn(e->k, k[0], e->w, e->aux);
        break;
      case K_FNEG: case K_FABS: case K_FISNAN: case K_UITOFP: case K_FPTOSI: case K_FPTOUI:
      case K_FPEXT: case K_FPTRUNC: case K_FSQRT: case K_FRTI: r = mkFUn(e->k, k[0], e->w, e->aux); break;
      default: r = mkBin(e->k, k[0], k[1]); break;
    }
  }
  memo[e] = r;
  return r;
}

std::string exprStr(E e, int depth) {
  static const char* nm[] = {"const","var","concat","extract","zext","sext","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","fadd","fsub","fmul","fdiv","fneg","fabs","foeq","folt","fole","fisnan","sitofp","uitofp","fptosi","fptoui","fpext","fptrunc","fsqrt","frti"};
  char buf[64];
  if (e->k == K_CONST) { snprintf(buf, sizeof buf, "%llu:%u", (unsigned long long)e->lo, e->w); return buf; }
  if (e->k == K_VAR) return gVars[e->aux].name + "#" + std::to_string(e->aux);
  if (depth == 0) return "...";
  std::string s = std::string("(") + nm[e->k];
  if (e->k == K_EXTRACT || e->k == K_ZEXT || e->k == K_SEXT) { snprintf(buf, sizeof buf, "[%u,%u]", e->aux, e->w); s += buf; }
  for (unsigned i = 0; i < e->nk; i++) s += " " + exprStr(e->kid[i], depth - 1);
  return s + ")";
}

// ---------------- Z3 ----------------
Z3_context gZ;
static Z3_sort zsort(unsigned w) { return Z3_mk_bv_sort(gZ, w); }
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "ENGINE: z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); }
void initZ3() {
  Z3_config cfg = Z3_mk_config();
  gZ = Z3_mk_context(cfg);   // non-RC context: asts live as long as the context
  Z3_set_error_handler(gZ, zerr);
  Z3_del_config(cfg);
}
static Z3_sort fpsort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(gZ) : Z3_mk_fpa_sort_single(gZ); }
static Z3_ast rne() { return Z3_mk_fpa_round_nearest_ties_to_even(gZ); }
static Z3_ast zFP(E e) { return Z3_mk_fpa_to_fp_bv(gZ, zBV(e), fpsort(e->w)); }
static Z3_ast keep(Z3_ast a) { return a; }
static Z3_ast mkNum(u128 v, unsigned w) {
  char buf[64]; int i = 63; buf[i] = 0;
  if (v == 0) buf[--i] = '0';
  while (v) { buf[--i] = '0' + (int)(v % 10); v /= 10; }
  return Z3_mk_numeral(gZ, buf + i, zsort(w));
}
Z3_ast zBool(E e) {
  if (e->zb) return e->zb;
  Z3_ast r;
  E a = e->kid[0], b = e->kid[1], c = e->kid[2];
  switch (e->k) {
    case K_CONST: r = e->lo ? Z3_mk_true(gZ) : Z3_mk_false(gZ); break;
    case K_EQ: r = Z3_mk_eq(gZ, zBV(a), zBV(b)); break;
    case K_ULT: r = Z3_mk_bvult(gZ, zBV(a), zBV(b)); break;
    case K_ULE: r = Z3_mk_bvule(gZ, zBV(a), zBV(b)); break;
    case K_SLT: r = Z3_mk_bvslt(gZ, zBV(a), zBV(b)); break;
    case K_SLE: r = Z3_mk_bvsle(gZ, zBV(a), zBV(b)); break;
    case K_NOT: r = Z3_mk_not(gZ, zBool(a)); break;
    case K_AND: { Z3_ast v[2] = {zBool(a), zBool(b)}; r = Z3_mk_and(gZ, 2, v); break; }
    case K_OR: { Z3_ast v[2] = {zBool(a), zBool(b)}; r = Z3_mk_or(gZ, 2, v); break; }
    case K_XOR: r = Z3_mk_xor(gZ, zBool(a), zBool(b)); break;
    case K_ITE: r = Z3_mk_ite(gZ, zBool(a), zBool(b), zBool(c)); break;
    case K_FOEQ: r = Z3_mk_fpa_eq(gZ, zFP(a), zFP(b)); break;
    case K_FOLT: r = Z3_mk_fpa_lt(gZ, zFP(a), zFP(b)); break;
    case K_FOLE: r = Z3_mk_fpa_leq(gZ, zFP(a), zFP(b)); break;
    case K_FISNAN: r = Z3_mk_fpa_is_nan(gZ, zFP(a)); break;
    default: r = Z3_mk_eq(gZ, zBV(e), mkNum(1, 1)); break;
  }
  return e->zb = keep(r);
}
Z3_ast zBV(E e) {
  if (e->zv) return e->zv;
  Z3_ast r;
  E a = e->kid[0], b = e->kid[1], c = e->kid[2];
  bool asBool = e->k == K_EQ || e->k == K_ULT || e->k == K_ULE || e->k == K_SLT || e->k == K_SLE || e->k == K_NOT || e->k == K_AND ||
                e->k == K_OR || e->k == K_XOR || e->k == K_ITE || e->k == K_FOEQ || e->k == K_FOLT || e->k == K_FOLE || e->k == K_FISNAN;
  if (e->w == 1 && asBool) {
    r = Z3_mk_ite(gZ, zBool(e), mkNum(1, 1), mkNum(0, 1));
    return e->zv = keep(r);
  }
  switch (e->k) {
    case K_CONST: r = mkNum(e->cval(), e->w); break;
    case K_VAR: { char n[32]; snprintf(n, sizeof n, "v%u", e->aux); r = Z3_mk_const(gZ, Z3_mk_string_symbol(gZ, n), zsort(e->w)); break; }
    case K_CONCAT: r = Z3_mk_concat(gZ, zBV(a), zBV(b)); break;
    case K_EXTRACT: r = Z3_mk_extract(gZ, e->aux + e->w - 1, e->aux, zBV(a)); break;
    case K_ZEXT: r = Z3_mk_zero_ext(gZ, e->w - a->w, zBV(a)); break;
    case K_SEXT: r = Z3_mk_sign_ext(gZ, e->w - a->w, zBV(a)); break;
    case K_ADD: r = Z3_mk_bvadd(gZ, zBV(a), zBV(b)); break;
    case K_SUB: r = Z3_mk_bvsub(gZ, zBV(a), zBV(b)); break;
    case K_MUL: r = Z3_mk_bvmul(gZ, zBV(a), zBV(b)); break;
    case K_UDIV: r = Z3_mk_bvudiv(gZ, zBV(a), zBV(b)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(gZ, zBV(a), zBV(b)); break;
    case K_UREM: r = Z3_mk_bvurem(gZ, zBV(a), zBV(b)); break;
    case K_SREM: r = Z3_mk_bvsrem(gZ, zBV(a), zBV(b)); break;
    case K_AND: r = Z3_mk_bvand(gZ, zBV(a), zBV(b)); break;
    case K_OR: r = Z3_mk_bvor(gZ, zBV(a), zBV(b)); break;
    case K_XOR: r = Z3_mk_bvxor(gZ, zBV(a), zBV(b)); break;
    case K_NOT: r = Z3_mk_bvnot(gZ, zBV(a)); break;
    case K_SHL: r = Z3_mk_bvshl(gZ, zBV(a), zBV(b)); break;
    case K_LSHR: r = Z3_mk_bvlshr(gZ, zBV(a), zBV(b)); break;
    case K_ASHR: r = Z3_mk_bvashr(gZ, zBV(a), zBV(b)); break;
    case K_ITE: r = Z3_mk_ite(gZ, zBool(a), zBV(b), zBV(c)); break;
    case K_FADD: r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_add(gZ, rne(), zFP(a), zFP(b))); break;
    case K_FSUB: r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_sub(gZ, rne(), zFP(a), zFP(b))); break;
    case K_FMUL: r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_mul(gZ, rne(), zFP(a), zFP(b))); break;
    case K_FDIV: r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_div(gZ, rne(), zFP(a), zFP(b))); break;
    case K_FSQRT: r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_sqrt(gZ, rne(), zFP(a))); break;
    case K_FRTI: {
      Z3_ast m = e->aux == 0 ? rne() : e->aux == 1 ? Z3_mk_fpa_round_toward_zero(gZ) : e->aux == 2 ? Z3_mk_fpa_round_toward_negative(gZ) : e->aux == 3 ? Z3_mk_fpa_round_toward_positive(gZ) : Z3_mk_fpa_round_nearest_ties_to_away(gZ);
      r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_round_to_integral(gZ, m, zFP(a))); break; }
    case K_FNEG: r = Z3_mk_bvxor(gZ, zBV(a), mkNum((u128)1 << (e->w - 1), e->w)); break;
    case K_FABS: r = Z3_mk_bvand(gZ, zBV(a), mkNum(mask128(e->w - 1), e->w)); break;
    case K_SITOFP: {
      Z3_ast f = Z3_mk_fpa_to_fp_signed(gZ, rne(), zBV(a), fpsort(e->w));
      if (e->aux) f = Z3_mk_fpa_mul(gZ, rne(), f, Z3_mk_fpa_to_fp_bv(gZ, mkNum(dToBits(std::ldexp(1.0, -(int)e->aux)), 64), fpsort(64)));
      r = Z3_mk_fpa_to_ieee_bv(gZ, f); break; }
    case K_UITOFP: r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_to_fp_unsigned(gZ, rne(), zBV(a), fpsort(e->w))); break;
    case K_FPTOSI: r = Z3_mk_fpa_to_sbv(gZ, Z3_mk_fpa_round_toward_zero(gZ), zFP(a), e->w); break;
    case K_FPTOUI: r = Z3_mk_fpa_to_ubv(gZ, Z3_mk_fpa_round_toward_zero(gZ), zFP(a), e->w); break;
    case K_FPEXT: case K_FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(gZ, Z3_mk_fpa_to_fp_float(gZ, rne(), zFP(a), fpsort(e->w))); break;
    default: fprintf(stderr, "ENGINE: zBV kind %d\n", e->k); abort();
  }
  return e->zv = keep(r);
}
