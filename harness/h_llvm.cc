// G04/G05: conversion to the LLVM sample profile format.
#include "llvm_profile_writer.h"
#include "profile_symbol_list.h"
#include "symref.h"
#include "llvmref.h"
using namespace rf;
namespace sp = llvm::sampleprof;
namespace {
uint64_t cnt(const char* n) { return vp_bytes(5, n); }
const char* NM[] = {"aa", "b", "cc", "d"};
SourceInfo frame(const char* fn, uint32_t line, uint32_t disc) { return SourceInfo(fn, "dir", "f.c", 10, line, disc); }
}
// Conversion of a profile with two functions and inlined calls.
extern "C" void convert() {
  int shape = vp_cfg(); SymbolMap m; Map r; r.f.reserve(4); uint64_t thr = (shape & 8) ? 1000 : 0; m.set_count_threshold(thr); uint32_t nline = 0;
  for (int f = 0; f < 2; f++) {
    const char* nm = f ? "b" : "aa"; m.AddSymbol(nm); Fn& F = r.get(nm); int steps = f ? 1 : 2 + ((shape & 16) != 0) + vp_tier();
    for (int k = 0; k < steps; k++) {
      int depth = f ? 1 + vp_choose(2, "depth") : k == 0 ? 1 + shape % 3 : 1 + vp_choose(3, "depth"); SourceStack st; Fn* g = &F;
      for (int i = 0; i < depth; i++) {
        bool sym = i == 0 || (i == depth - 1 && !f); uint32_t l = sym ? vp_any<uint32_t>("line") : 11 + k; if (sym) vp_assume(l >= 10);
        st.push_back(frame(i == depth - 1 ? nm : NM[2 + i % 2], l, sym ? vp_any<uint32_t>("disc") : 3));
      }
      auto off = [&](const SourceInfo& s) { return (uint64_t)(s.line - 10) << 32 | s.discriminator; };
      uint64_t c = cnt("count"); m.AddSourceCount(nm, st, c, 1, 1, SymbolMap::AFDOPROFILE); F.total += c;
      for (int i = depth - 1; i > 0; i--) { g = &g->call(off(st[i]), st[i - 1].func_name); g->total += c; }
      Pos& p = g->at(off(st[0])); p.n += c;
      if ((shape >> 1) & 1) { uint64_t t = cnt("calls"); const char* tn = k ? "q" : "p"; m.AddIndirectCallTarget(nm, st, tn, t, SymbolMap::AFDOPROFILE); g->tgt(off(st[0]), tn) += t; }
      if (k == 0 && (shape & 4)) { uint64_t t = cnt("calls"); m.AddIndirectCallTarget(nm, st, "zz", t, SymbolMap::AFDOPROFILE); g->tgt(off(st[0]), "zz") += t; }
    }
    uint64_t h = cnt("head"); m.AddSymbolEntryCount(nm, h); F.head += h;
  }
  StringIndexMap names; FileIndexMap files; StringTableUpdater::Update(m, &names, &files);
  LLVMProfileBuilder b(names); const sp::SampleProfileMap& out = b.ConvertProfiles(m); size_t n = 0;
  for (auto& F : r.f) {
    bool emit = F.total > thr; auto it = out.find(sp::SampleContext(llvm::StringRef(F.name))); vp_assert((it != out.end()) == emit, "exactly the functions above the threshold"); if (it == out.end()) continue;
    n++; Fn want; fold(want, F); same(it->second, want, true, F.name);
  }
  vp_assert(out.size() == n, "number of functions");
  vp_observe("n", n); vp_reach("end"); vp_must_reach("end");
}
// The list of symbols that cover a share of the code.
extern "C" void symlist() {
  static const char* SN[] = {"aa", "b.cold", "cc.llvm.12", "d", "e.isra.0"}; static const double RAT[] = {1.0, 0.5, 0.75, 0.25, 0.0, 0.3, 0.9}; static const uint64_t R1[] = {1, 1, 3, 1, 0}, R2[] = {1, 2, 4, 4, 1};
  int n = (vp_cfg() & 1) ? 3 : 4, bytes = vp_cfg() & 2 ? 5 : vp_cfg() & 1 ? 2 : 1, ri = vp_cfg() >> 2; SymbolMap m; int pol = (vp_cfg() & 1) ? vp_choose(2, "policy") : 0; m.set_suffix_elision_policy(pol ? "all" : "selected"); NameSizeList l; uint64_t sz[5], total = 0;
  for (int i = 0; i < n; i++) { sz[i] = vp_bytes(bytes, "size"); l.emplace_back(llvm::StringRef(SN[i]), sz[i]); total += sz[i]; }
  sp::ProfileSymbolList out; fillProfileSymbolList(&out, l, &m, RAT[ri]);
  // reference: the largest symbols until they make up the share of the total; none if the largest alone exceeds it
  uint64_t thr = total * R1[ri] / R2[ri], big = 0; for (int i = 0; i < n; i++) if (sz[i] > big) big = sz[i];
  size_t k = 0;
  for (int i = 0; i < n; i++) {
    uint64_t larger = 0; for (int j = 0; j < n; j++) if (sz[j] > sz[i]) larger += sz[j];      // code in strictly larger symbols
    bool in = RAT[ri] != 0 && big <= thr && (larger < thr || thr == 0 && sz[i] == big); k += in; std::string orig = m.GetOriginalName(SN[i]);
    vp_assert(out.contains(llvm::StringRef(orig)) == in, "listed symbols"); if (orig != SN[i]) vp_assert(!out.contains(llvm::StringRef(SN[i])), "original names");
  }
  vp_assert(out.size() == k, "number of symbols");
  sp::ProfileSymbolList none; fillProfileSymbolList(&none, NameSizeList(), &m, 2.0); vp_assert(none.size() == 0, "no symbols");
  vp_observe("k", k); vp_reach(k == 0 ? "none" : k == (size_t)n ? "all" : "some"); if (ri == 0) vp_must_reach("all"); else vp_must_reach("none"); if (ri == 1 || ri == 2) vp_must_reach("some");
}
extern "C" void badratio() {
  SymbolMap m; NameSizeList l; l.emplace_back(llvm::StringRef("aa"), 4); sp::ProfileSymbolList out; static const double RAT[] = {-1.0, 1.5, -0.001, 1.0001}; double r = RAT[vp_choose(4, "ratio")];
  vp_expect_fatal(1); fillProfileSymbolList(&out, l, &m, r); vp_assert(false, "ratios outside 0..1 are refused");
}
