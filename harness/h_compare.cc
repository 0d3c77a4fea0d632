// M10: what is said about whole profiles: whether one is usable, how far two agree, which functions of the binary have no samples.
#include "symref.h"
#ifdef HAVE_LLVM
#include "elfgen.h"
using namespace elfgen;
#endif
#include <algorithm>
#include <string>
#include <vector>
namespace {
SourceInfo at(const char* f, uint32_t off) { return SourceInfo(f, "", "", 10, 10 + off, 0); }
const char* F[] = {"fa", "fb", "fc", "fd", "fe", "ff", "fg", "fh", "fi", "fj", "fk"};
}
#ifndef HAVE_LLVM
// is a profile big and detailed enough to be used?
extern "C" void validate() {
  int n = 9 + vp_choose(3, "functions"), cfg = vp_cfg(); SymbolMap m; for (int i = 0; i < n; i++) m.AddSymbol(F[i]);
  uint64_t c0 = vp_bytes(4, "count"), c1 = vp_bytes(4, "count"), c2 = vp_choose(2, "third sampled") ? vp_bytes(3, "count") : 0, sum = c0 + c1 + c2; bool call = vp_choose(2, "call"), inl = vp_choose(2, "inlined"), deep = inl && call && vp_choose(2, "inlined call");
  int nz = cfg, z = vp_choose(3, "locations without a line"), where = vp_choose(2, "where"); // where the locations are: first or second function
  uint64_t cc[] = {c0, c1}; int src = 0, good = 0; bool sampled = cc[where] != 0, other = cc[!where] != 0, hasCall = false, hasInl = false; const char *f = F[where], *g = F[!where];
  m.AddSourceCount(g, {at(g, 3)}, cc[!where], 1); if (other) { src++; good++; }
  for (int i = 0; i < nz; i++) { m.AddSourceCount(f, {at(f, 1 + i)}, i ? 0 : cc[where], 1); if (sampled) { src++; good++; } }
  if (!nz) m.AddSymbolEntryCount(f, 0, cc[where]);
  if (z > 0) { m.AddSourceCount(f, {at(f, 0)}, 0, 1); if (sampled) src++; }
  if (inl) { SourceStack st{at("x", z > 1 ? 0 : 2), at(f, 7)}; m.AddSourceCount(f, st, 0, 1); if (sampled) { src++; if (z <= 1) good++; hasInl = true; } if (deep) { m.AddIndirectCallTarget(f, st, "t", 5); if (sampled) hasCall = true; } }
  if (call && !deep) { m.AddIndirectCallTarget(g, {at(g, 3)}, "t", 5); if (other) hasCall = true; }
  if (c2) m.AddSymbolEntryCount(F[2], 0, c2);
  bool want = n >= 10 && sum >= 1000000 && hasCall && hasInl && 10 * good >= 6 * src;
  vp_assert(m.GetTotalSum() == sum, "total over all functions");
  bool got = m.Validate(); vp_assert(got == want, "usable exactly with 10 functions, a million samples, calls, inlined calls and mostly known lines");
  vp_observe("usable", got); vp_reach(got ? "usable" : "not"); if (cfg > 0) vp_must_reach("usable"); vp_must_reach("not");
}
// how far two profiles agree
extern "C" void overlap() {
  SymbolMap a, b; static const uint64_t V[] = {0, 1, 3, 12}; uint64_t x[3], y[3], tx = 0, ty = 0; int cfg = vp_cfg();
  for (int i = 0; i < 3; i++) {
    bool ia = (cfg >> i & 1) || vp_choose(2, "in the first"), ib = !ia || vp_choose(2, "in the second"); x[i] = ia ? V[vp_choose(4, "count")] : 0; y[i] = ib ? V[vp_choose(4, "count")] : 0; tx += x[i]; ty += y[i];
    if (ia) { a.AddSymbol(F[i]); a.AddSymbolEntryCount(F[i], 0, x[i]); } if (ib) { b.AddSymbol(F[i]); b.AddSymbolEntryCount(F[i], 0, y[i]); }
  }
  double want = 0; if (tx && ty) for (int i = 0; i < 3; i++) want += std::min((double)(int)x[i] / (int)tx, (double)(int)y[i] / (int)ty);
  float g = a.Overlap(b), h = b.Overlap(a); vp_assert(g - want < 1e-5 && want - g < 1e-5, "shared share of the samples"); vp_assert(g - h < 1e-5 && h - g < 1e-5, "either way round");
  if (tx) { float s = a.Overlap(a); vp_assert(s > 0.9999 && s < 1.0001, "a profile agrees with itself"); }
  vp_observe("samples", tx); vp_reach("end"); vp_must_reach("end");
}
#else
// functions of the binary that have no samples
extern "C" void symlist() {
  int cfg = vp_cfg(); Image<A64> im(ET_EXEC, EM_X86_64); im.add("", SHT_NULL, ""); std::string b; Str st; Elf64_Sym zero{}; put(b, zero); const int N = 5; uint64_t size[N];
  for (int i = 0; i < N; i++) { Elf64_Sym y{}; y.st_name = st.add(F[i]); y.st_value = 0x1000 + (i == 4 && (cfg & 1) ? 0 : i * 0x1000); y.st_size = size[i] = 1 + vp_bytes(1, "size"); y.st_info = 16 + STT_FUNC; y.st_shndx = 1; put(b, y); }
  int ix = im.add(".symtab", SHT_SYMTAB, b); im.sh[ix].sh_entsize = sizeof(Elf64_Sym); im.sh[ix].sh_link = ix + 1; im.add(".strtab", SHT_STRTAB, st.s); unsigned char* d; size_t sz = im.finish(&d); vpe::add("a.out", d, sz);
  SymbolMap m("a.out"); bool in[N] = {}; bool alias = cfg & 1;
  int top = vp_choose(3, "sampled function"); const char* f = F[top]; uint64_t n = vp_bytes(4, "count"); m.AddSymbol(f); m.AddSourceCount(f, {at(f, 1)}, n, 1);
  int inl = vp_choose(4, "inlined"), tgt = vp_choose(4, "called"); bool nested = vp_choose(2, "called from the inlined one"), listed = vp_choose(2, "unsampled");
  if (inl != top && inl < 3) { m.AddSourceCount(f, {at(F[inl], 2), at(f, 3)}, vp_choose(2, "inlined count") ? n : 0, 1); }
  else inl = -1;
  if (tgt < 4) { SourceStack s; if (nested && inl >= 0) s = {at(F[inl], 2), at(f, 3)}; else s = {at(f, 1)}; m.AddIndirectCallTarget(f, s, F[tgt], 3); }
  if (listed) m.AddSymbol(F[3]);
  bool live = m.GetSymbolByName(f)->total_count > 0; if (live) { in[top] = true; if (inl >= 0) in[inl] = true; if (tgt < 4) in[tgt] = true; if (alias && top == 0) in[4] = true; }
  NameSizeList l = m.collectNamesForProfSymList(); size_t want = 0;
  for (int i = 0; i < N; i++) { if (i == 4 && alias) continue; int seen = 0; uint64_t s = 0; for (auto& e : l) if (e.first == F[i]) { seen++; s = e.second; } vp_assert(seen == !in[i], "functions without samples are listed once, others not"); if (seen) vp_assert(s == size[i], "size of a function"); want += !in[i]; }
  vp_assert(l.size() == want, "nothing else is listed"); auto names = m.collectNamesInProfile(); for (int i = 0; i < N; i++) vp_assert((names.count(F[i]) != 0) == in[i], "names in the profile");
  vp_observe("listed", want); vp_reach(live ? "live" : "dead"); vp_must_reach("live"); vp_must_reach("dead");
}
#endif
