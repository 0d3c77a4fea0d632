// Differential self-test of the expression layer: random terms built through the simplifying constructors are
// compared with direct evaluation under random models, and the Z3 export with both.
#include "expr.h"
#include <random>
static std::mt19937_64 R(12345);
static u128 rnd(unsigned w) {
  static const u64 sp[] = {0, 1, 2, 3, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ull, 1ull << 63, ~0ull, ~0ull - 1};
  u128 v;
  switch (R() % 4) {
    case 0: v = sp[R() % 20]; break;
    case 1: v = ((u128)R() << 64) | R(); break;
    case 2: v = (u128)(s128)-(s64)(R() % 300); break;
    default: v = R() % 300;
  }
  return v & mask128(w);
}
static const int NM = 6;
struct T { E e; u128 v[NM]; };
#include <cmath>
static long nq;
int main(int argc, char** argv) {
  initZ3();
  unsigned ws[] = {1, 8, 16, 32, 64, 128};
  long bad = 0, n = 0, zn = 0;
  int rounds = argc > 1 ? atoi(argv[1]) : 400;
  for (int round = 0; round < rounds; round++) {
    std::vector<ModelP> ms;
    for (int i = 0; i < NM; i++) ms.push_back(newModel(nullptr));
    std::vector<T> pool;
    size_t base = gVars.size();
    for (int i = 0; i < 8; i++) {
      static const unsigned vw[] = {1, 8, 8, 16, 32, 64, 64, 8};
      u32 id = newVar("x", vw[i]);
      T t; t.e = mkVar(id);
      for (int j = 0; j < NM; j++) { t.v[j] = rnd(vw[i]); { auto& mv = ms[j]->v; if (mv.size() <= id) mv.resize(id + 1); mv[id] = (u64)t.v[j]; } }
      pool.push_back(t);
    }
    (void)base;
    for (int step = 0; step < 150; step++) {
      auto pick = [&](unsigned w) -> T {
        if (R() % 5 == 0) { T t; u128 c = rnd(w); t.e = mkConst(c, w); for (auto& x : t.v) x = c; return t; }
        for (int k = 0; k < 30; k++) { T& t = pool[R() % pool.size()]; if (t.e->w == w) return t; }
        // coerce
        T t = pool[R() % pool.size()];
        if (t.e->w < w) { T r; bool sx = R() & 1; for (int j = 0; j < NM; j++) r.v[j] = sx ? (u128)sx128(t.v[j], t.e->w) & mask128(w) : t.v[j];
          r.e = sx ? mkSExt(t.e, w) : mkZExt(t.e, w); return r; }
        if (t.e->w > w) { unsigned off = R() % (t.e->w - w + 1); T r; for (int j = 0; j < NM; j++) r.v[j] = (t.v[j] >> off) & mask128(w); r.e = mkExtract(t.e, off, w); return r; }
        return t;
      };
      unsigned w = ws[R() % 6];
      T r; 
      static const Kind bins[] = {K_ADD, K_SUB, K_MUL, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_UDIV, K_UREM, K_SDIV, K_SREM};
      switch (R() % 12) {
        case 10: {  // comparisons of two rounded quotients, negated or not
          auto z = [&](T t) { T q; q.e = mkZExt(t.e, 64); for (int j = 0; j < NM; j++) q.v[j] = t.v[j]; return q; }; T a = z(pick(R() & 1 ? 8 : R() & 1 ? 16 : 32)), b = z(pick(R() & 1 ? 8 : R() & 1 ? 16 : 32)); bool neg = R() & 1, isk = false; double kc = 0;
          double c = 1 + R() % (R() & 1 ? 5 : 300), d = R() & 1 ? c * (1 + R() % 4) : 1 + R() % 300; auto k64 = [](double v) { uint64_t x; memcpy(&x, &v, 8); return mkConst(x, 64); };
          E x = mkFBin(K_FDIV, mkFUn(K_SITOFP, a.e, 64), k64(c)), y = mkFBin(K_FDIV, mkFUn(K_SITOFP, b.e, 64), k64(d)); if (R() % 3 == 0) { u64 v = R() % 70; bool inv = R() & 1; double q = inv ? 1.0 / (1 + v) : v; y = k64(q); d = 1; for (int j = 0; j < NM; j++) { kc = q; isk = true; } c = 1u << R() % 9; x = mkFBin(K_FDIV, mkFUn(K_SITOFP, a.e, 64), k64(c)); } if (neg) { x = mkFUn(K_FNEG, x, 64); y = mkFUn(K_FNEG, y, 64); if (R() & 1) { auto one = k64(1), m = k64(-1.0); x = mkFBin(K_FDIV, mkFBin(K_FSUB, m, mkFUn(K_SITOFP, a.e, 64)), k64(c)); for (auto& v : a.v) v = (uint64_t)v + 1; (void)one; } }
          Kind k = R() % 3 == 0 ? K_FOEQ : R() & 1 ? K_FOLT : K_FOLE; r.e = mkFBin(k, x, y);
          for (int j = 0; j < NM; j++) { double u = (double)(uint64_t)a.v[j] / c, v = isk ? kc : (double)(uint64_t)b.v[j] / d; if (neg) { u = -u; v = -v; } r.v[j] = k == K_FOEQ ? u == v : k == K_FOLT ? u < v : u <= v; } if (!r.e->fp) nq++; else { r = pick(8); } break; }
        case 11: {  // quotients of signed numerators by constants, compared with each other or with a constant
          auto z = [&](T t) { T q; q.e = mkZExt(t.e, 64); for (int j = 0; j < NM; j++) q.v[j] = t.v[j]; return q; }; auto k64 = [](double v) { uint64_t x; memcpy(&x, &v, 8); return mkConst(x, 64); }; E e[2]; double v[2][NM];
          for (int i = 0; i < 2; i++) {
            if (i && R() & 1) { double c = v[0][R() % NM]; if (R() & 1) c = std::nextafter(c, R() & 1 ? 1e300 : -1e300); if (R() % 5 == 0) c = -c; e[1] = k64(c); for (int j = 0; j < NM; j++) v[1][j] = c; continue; }
            T a = z(pick(R() & 1 ? 8 : R() & 1 ? 16 : 32)); E n = mkFUn(K_SITOFP, a.e, 64); for (int j = 0; j < NM; j++) v[i][j] = (double)(uint64_t)a.v[j]; int m = R() % 4; if (m == 1) { n = mkFUn(K_FNEG, n, 64); for (double& x : v[i]) x = -x; } if (m == 2) { double c = (double)(R() % 300); n = mkFBin(K_FSUB, n, k64(c)); for (double& x : v[i]) x -= c; }
            double d = R() % 3 ? 1 + R() % 300 : 0.5 * (1 + R() % 300); n = mkFBin(K_FDIV, n, k64(d)); for (double& x : v[i]) x /= d; if (R() % 3 == 0) { n = mkFUn(K_FNEG, n, 64); for (double& x : v[i]) x = -x; } e[i] = n;
          }
          if (R() & 1) { std::swap(e[0], e[1]); for (int j = 0; j < NM; j++) std::swap(v[0][j], v[1][j]); }
          Kind k = R() % 3 == 0 ? K_FOEQ : R() & 1 ? K_FOLT : K_FOLE; r.e = mkFBin(k, e[0], e[1]); for (int j = 0; j < NM; j++) r.v[j] = k == K_FOEQ ? v[0][j] == v[1][j] : k == K_FOLT ? v[0][j] < v[1][j] : v[0][j] <= v[1][j]; if (!r.e->fp) nq++; else { r = pick(8); } break; }
        case 9: {  // comparisons of rounded quotients with constants
          auto z = [&](T t) { T q; q.e = mkZExt(t.e, 64); for (int j = 0; j < NM; j++) q.v[j] = t.v[j]; return q; }; T a = z(pick(R() & 1 ? 8 : R() & 1 ? 16 : 32)), b = z(pick(R() & 1 ? 8 : R() & 1 ? 16 : 32));
          static const double cs[] = {0.3, 0.0005, 0.05, 0.5, 1, 1.0 / 3, 2.5, 1e-7, 1e8, 100}; double c = R() % 3 ? cs[R() % 10] : (double)(1 + R() % 255) / (1 + R() % 255); uint64_t cb; memcpy(&cb, &c, 8);
          int j0 = R() % NM; if (R() & 1 && b.v[j0] && a.v[j0]) { c = (double)(uint64_t)a.v[j0] / (double)(uint64_t)b.v[j0]; if (R() & 1) c = std::nextafter(c, R() & 1 ? 1e9 : 0); if (c > 1e-9) memcpy(&cb, &c, 8); else { c = 0.5; memcpy(&cb, &c, 8); } }
          E q = mkFBin(K_FDIV, mkFUn(K_SITOFP, a.e, 64), mkFUn(K_SITOFP, b.e, 64)); Kind k = R() % 3 == 0 ? K_FOEQ : R() & 1 ? K_FOLT : K_FOLE; bool left = R() & 1; r.e = left ? mkFBin(k, q, mkConst(cb, 64)) : mkFBin(k, mkConst(cb, 64), q); if (k == K_FOEQ) left = true;
          for (int j = 0; j < NM; j++) { double v = (double)(uint64_t)a.v[j] / (double)(uint64_t)b.v[j]; r.v[j] = k == K_FOEQ ? v == c : left ? (k == K_FOLT ? v < c : v <= c) : (k == K_FOLT ? c < v : c <= v); } if (!r.e->fp) nq++; else { r = pick(8); } break; }
        case 8: {  // comparisons of scaled quotients
          unsigned W = R() % 3 == 0 ? 32 : R() & 1 ? 64 : 128; auto z = [&](T t, unsigned to) { T q; q.e = mkZExt(t.e, to); for (int j = 0; j < NM; j++) q.v[j] = t.v[j]; return q; }; T a = z(pick(8), W), b = z(pick(R() & 1 ? 8 : R() & 1 ? 16 : 32), W); u64 c = 1 + R() % 50, d = 1 + R() % 40; Kind k = R() & 1 ? K_ULT : R() & 1 ? K_EQ : K_ULE; if (k == K_EQ && R() & 1) { u128 v = R() % 20; a.e = mkConst(v, W); for (auto& x : a.v) x = v; }
          E x = mkBin(K_UDIV, mkBin(K_MUL, b.e, mkConst(c, W)), mkConst(d, W)); bool left = R() & 1; r.e = left ? mkBin(k, x, a.e) : mkBin(k, a.e, x);
          for (int j = 0; j < NM; j++) { u128 q = (b.v[j] * c & mask128(W)) / d, y = a.v[j]; r.v[j] = k == K_EQ ? q == y : left ? (k == K_ULT ? q < y : q <= y) : (k == K_ULT ? y < q : y <= q); } break; }
        case 0: { T c = pick(1), a = pick(w), b = pick(w); r.e = mkIte(c.e, a.e, b.e); for (int j = 0; j < NM; j++) r.v[j] = c.v[j] ? a.v[j] : b.v[j]; break; }
        case 1: { T a = pick(w); r.e = mkNot(a.e); for (int j = 0; j < NM; j++) r.v[j] = ~a.v[j] & mask128(w); break; }
        case 2: { unsigned w1 = w == 128 ? 64 : w, w2 = ws[R() % 5]; if (w1 + w2 > 128) w2 = 8; if (w1 == 1 || w2 == 1) { w1 = 8; w2 = 16; } T a = pick(w1), b = pick(w2); r.e = mkConcat(a.e, b.e);
          for (int j = 0; j < NM; j++) r.v[j] = (a.v[j] << w2) | b.v[j]; break; }
        case 3: r = pick(w); break;
        default: { Kind k = bins[R() % (R() % 3 ? 14 : 18)]; T a = pick(w), b = pick(w); 
          if ((k >= K_UDIV && k <= K_SREM)) { b.e = mkBin(K_OR, b.e, mkConst(1, w)); for (auto& x : b.v) x |= 1; }
          r.e = mkBin(k, a.e, b.e); bool ok; for (int j = 0; j < NM; j++) r.v[j] = foldBin(k, a.v[j], b.v[j], w, &ok) & mask128((k >= K_EQ && k <= K_SLE) ? 1 : w); }
      }
      for (int j = 0; j < NM; j++) {
        n++;
        u128 g = evalExpr(r.e, *ms[j]) & mask128(r.e->w);
        if (g != r.v[j] || (r.e->w <= 64 && ((u64)g < r.e->rmin || (u64)g > r.e->rmax))) {
          if (bad++ < 5) printf("MISMATCH got %llx want %llx range [%llx,%llx]: %s\n", (unsigned long long)g, (unsigned long long)r.v[j], (unsigned long long)r.e->rmin, (unsigned long long)r.e->rmax, exprStr(r.e, 6).c_str());
        }
      }
      // Z3 export agrees with evaluation under the model
      if (r.e->w <= 64 && step % 10 == 0 && round < 60) {
        std::vector<Z3_ast> from, to;
        for (u32 id : r.e->vars->v) { from.push_back(zBV(mkVar(id))); to.push_back(zBV(mkConst(ms[0]->get(id), gVars[id].w))); }
        Z3_ast s = Z3_substitute(gZ, zBV(r.e), from.size(), from.data(), to.data());
        s = Z3_simplify(gZ, s);
        uint64_t out = 0; zn++;
        if (!Z3_get_numeral_uint64(gZ, s, &out) || out != (u64)r.v[0]) if (bad++ < 5) printf("Z3 MISMATCH %s\n", exprStr(r.e, 6).c_str());
      }
      if (pool.size() < 60) pool.push_back(r); else pool[R() % 60] = r;
      if (pool.size() <= 60 && pool.back().e->k == K_CONST) pool.pop_back();
    }
  }
  printf("expr self-test: %ld evaluations, %ld Z3 exports, %ld quotient comparisons, %ld mismatches\n", n, zn, nq, bad);
  return bad ? 1 : 0;
}
