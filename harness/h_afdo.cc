// G02: the GCC profile file as written and read back; G03: the profile summary.
#include "symref.h"
#include "base/commandlineflags.h"
#include "gcov.h"
#include "profile_reader.h"
#include "profile_writer.h"
using namespace rf;
namespace {
bool v3; bool words; int nth, pick;
// With a summary section (every count is compared with shares of the sum) only every fourth quantity is unknown.
uint64_t cnt(const char* n) { if (v3 && nth++ % 4 != pick) return 1000 + 37 * nth; return vp_bytes(5, n); }
struct Rd {
  unsigned char* d; size_t n, p = 0;
  uint32_t u32() { vp_assert(p + 4 <= n, "the file has all parts"); if (p + 4 > n) vp_stop(); uint32_t v = 0; for (int i = 0; i < 4; i++) v |= (uint32_t)d[p++] << (8 * i); return v; }
  uint64_t u64() { uint64_t l = u32(); return l | (uint64_t)u32() << 32; }
  std::string str() { uint32_t k = u32() * (words ? 4 : 1); vp_assert(p + k <= n && (k == 0 || d[p + k - 1] == 0), "a terminated string"); std::string s; if (k) s = std::string((char*)d + p); p += k; return s; }
};
std::string fix(std::string s) {   // the unified constructors and destructors are named after the base ones
  auto end = [&](const char* e) { size_t k = strlen(e); return s.size() >= k + 2 && s.compare(s.size() - k, k, e) == 0; };
  if (end("D4Ev") || end("C4Ev")) s[s.size() - 3] = '2'; else if (end("C4EPKc")) s[s.size() - 5] = '2'; else if (end("C4EPKcRKS2_")) s[s.size() - 10] = '2'; return s;
}
std::vector<std::string> names; std::vector<uint32_t> fileOf; std::vector<std::string> fileNames;
const std::string& name(uint64_t i) { vp_assert(i > 0 && i < names.size(), "name index"); if (!(i > 0 && i < names.size())) vp_stop(); return names[i]; }
void same(Fn& a, Fn& b) {
  vp_assert(a.pos.size() == b.pos.size() && a.calls.size() == b.calls.size(), "number of locations and inlined calls");
  for (auto& p : b.pos) { bool f = false; for (auto& q : a.pos) if (q.off == p.off) { f = true; vp_assert(q.n == p.n, "count"); vp_assert(q.t.size() == p.t.size(), "number of targets"); for (auto& t : p.t) { bool g = false; for (auto& u : q.t) if (u.name == t.name) { g = true; vp_assert(u.n == t.n, "target count"); } vp_assert(g, "target"); } } vp_assert(f, "location"); }
  for (auto& c : b.calls) { bool f = false; for (auto& q : a.calls) if (q.off == c.off && q.name == c.name) { f = true; same(*q.f, *c.f); } vp_assert(f, "inlined call"); }
}
void body(Rd& r, Fn& f) {
  uint32_t np = r.u32(), nc = r.u32(); vp_assert(np < 20 && nc < 20, "counts of entries"); if (np >= 20 || nc >= 20) vp_stop();
  for (uint32_t i = 0; i < np; i++) { uint32_t o = r.u32(), nt = r.u32(); f.pos.emplace_back(); Pos& p = f.pos.back(); p.off = o; p.n = r.u64(); vp_assert(nt < 20, "targets"); if (nt >= 20) vp_stop(); for (uint32_t k = 0; k < nt; k++) { vp_assert(r.u32() == 7, "kind of value profile"); std::string n = name(r.u64()); p.t.push_back({n, r.u64()}); } }
  for (uint32_t i = 0; i < nc; i++) { uint32_t o = r.u32(); std::string n = name(r.u32()); f.calls.push_back({o, n, std::make_unique<Fn>()}); f.calls.back().f->name = n; body(r, *f.calls.back().f); }
}
uint64_t comp(uint64_t off) { return (off >> 32 << 16 & 0xffffffff) | (off & 0xffff); }
void fold(Fn& d, const Fn& o, bool top) {   // the profile as the file holds it
  d.total += o.total; if (top) d.head += o.head;
  for (auto& p : o.pos) { Pos& q = d.at(comp(p.off)); q.n += p.n; for (auto& t : p.t) d.tgt(comp(p.off), fix(t.name)) += t.n; }
  for (auto& c : o.calls) fold(d.call(comp(c.off), fix(c.name)), *c.f, false);
}
void expand(Fn& d, const Fn& o, uint64_t& total) { // the profile as the reader builds it
  auto ex = [](uint64_t c) { return (c >> 16) << 32 | (c & 0xffff); };
  for (auto& p : o.pos) { Pos& q = d.at(ex(p.off)); q.n += p.n; q.inst += 1; total += p.n; for (auto& t : p.t) d.tgt(ex(p.off), t.name) += t.n; }
  for (auto& c : o.calls) { uint64_t k = 0; expand(d.call(ex(c.off), c.name), *c.f, k); total += k; } d.total += total;
}
}
extern "C" void file() {
  int c = vp_cfg(); int ver = c % 3; v3 = ver == 0; words = ver == 2; uint32_t magic = 0x3430372a; if (ver) { magic = ver == 1 ? 2 : 1; absl::SetFlag(&FLAGS_gcov_version, (uint64_t)magic); } int shape = c / 3; pick = shape % 4;
  SymbolMap m; Map r; r.f.reserve(4); static const char* NM[] = {"_ZN1AD4Ev", "foo", "_ZN1BC4EPKc", "zed"}; static const char* IN[] = {"in", "_ZN1CC4Ev", "_ZN1AD2Ev", "x"}; static const char* TG[] = {"_ZN1DC4EPKcRKS2_", "t", "foo", "C4Ev"}; uint64_t ts[3] = {0, 0, 0};
  int nf = 2 + (shape & 1); bool names2 = shape & 2; int deep = shape >> 2 & 1;
  auto file = [&](int f) { return f == 1 ? "b.c" : "a.c"; };
  for (int f = 0; f < nf; f++) {
    const char* nm = NM[(f + names2) % 4]; m.AddSymbol(nm); Fn& F = r.get(nm); if (v3) { ts[f] = vp_bytes(6, "timestamp"); m.AddSymbolTimestamp(nm, ts[f]); }
    int steps = f == 0 ? 2 : f == 1 ? 1 + vp_tier() : 0; bool dir = shape & 2;
    for (int k = 0; k < steps; k++) {
      int depth = f == 0 && k == 0 ? 1 + deep : 1 + vp_choose(3, "depth"); SourceStack st; Fn* g = &F;
      for (int i = 0; i < depth; i++) { bool sym = f == 0 && (k == 0 ? i == 0 : i == depth - 1); uint32_t l = sym ? 10 + vp_bytes(2, "line") : 11 + k + i, d = sym ? vp_bytes(2, "disc") : 3; st.push_back(SourceInfo(i == depth - 1 ? nm : IN[(k + i + names2) % 3], dir ? "dir" : "", file(i == depth - 1 ? f : 0), 10, l, d)); }
      auto off = [&](const SourceInfo& s) { return (uint64_t)(s.line - 10) << 32 | s.discriminator; };
      uint64_t n = cnt("count"); m.AddSourceCount(nm, st, n, 1, 1, SymbolMap::AFDOPROFILE); F.total += n; for (int i = depth - 1; i > 0; i--) { g = &g->call(off(st[i]), st[i - 1].func_name); g->total += n; } g->at(off(st[0])).n += n;
      if (k == 0) for (int t = 0; t < 1 + (f == 0); t++) { uint64_t q = cnt("calls"); const char* tn = TG[(t + shape) % 4]; m.AddIndirectCallTarget(nm, st, tn, q, SymbolMap::AFDOPROFILE); g->tgt(off(st[0]), tn) += q; }
    }
    uint64_t h = cnt("head"); m.AddSymbolEntryCount(nm, h); F.head += h;
  }
  uint32_t ws[3]; uint64_t wm[3]; static const int WI[] = {0, 77, 127}; for (int i = 0; i < 3; i++) { ws[i] = vp_bytes(i == 1 ? 4 : 2, "working set"); wm[i] = cnt("hot"); m.UpdateWorkingSet(WI[i], ws[i], wm[i]); }
  AutoFDOProfileWriter w(&m, magic); vp_assert(w.WriteToFile("out.afdo"), "written");
  vpf::Node* nd = vpf::find("out.afdo", false); vp_assert(nd != nullptr, "file"); if (!nd) return; Rd q{nd->d, nd->n};
  vp_assert(q.u32() == 0x67636461, "magic"); vp_assert(q.u32() == magic, "version"); vp_assert(q.u32() == 0, "stamp");
  Map want; want.f.reserve(4); std::vector<std::string> all; auto use = [&](const std::string& s) { for (auto& x : all) if (x == s) return; all.push_back(s); }; use(""); std::function<void(const Fn&)> walk = [&](const Fn& f) { for (auto& p : f.pos) for (auto& t : p.t) use(t.name); for (auto& k : f.calls) { use(k.name); walk(*k.f); } }; int tops = 0; uint64_t tot = 0, maxHead = 0, num = 0;
  std::vector<std::string> emitted; for (auto& f : r.f) if (f.total > 0) { tops++; emitted.push_back(f.name); use(f.name); walk(f); Fn& d = want.get(fix(f.name)); fold(d, f, true); }
  if (v3) {
    vp_assert(q.u32() == 0xa8000000, "summary"); uint64_t t = 0, mh = 0; std::function<void(const Fn&)> ct = [&](const Fn& f) { for (auto& p : f.pos) { t += p.n; num++; } for (auto& k : f.calls) ct(*k.f); }; for (auto& f : r.f) if (f.total > 0) { ct(f); if (f.head > mh) mh = f.head; }
    vp_assert(q.u64() == t, "sum of counts"); q.u64(); vp_assert(q.u64() == mh, "largest entry count"); vp_assert(q.u64() == num, "number of counts"); vp_assert(q.u64() == (uint64_t)tops, "number of functions"); vp_assert(q.u64() == 16, "cutoffs"); for (int i = 0; i < 16; i++) { q.u32(); q.u64(); q.u64(); }
  }
  vp_assert(q.u32() == 0xaa000000, "name table"); q.u32(); if (v3) { uint32_t k = q.u32(); vp_assert(k < 10, "files"); if (k >= 10) vp_stop(); for (uint32_t i = 0; i < k; i++) fileNames.push_back(q.str()); }
  uint32_t nn = q.u32(); vp_assert(nn == all.size(), "number of names"); if (nn != all.size()) return; std::vector<bool> hit(nn, false);
  for (uint32_t i = 0; i < nn; i++) { std::string s = q.str(); uint32_t fi = v3 ? q.u32() : ~0u; bool ok = false; for (uint32_t k = 0; k < nn && !ok; k++) if (!hit[k] && fix(all[k]) == s) { hit[k] = ok = true; } vp_assert(ok, "name"); vp_assert((i == 0) == s.empty(), "the first name is empty"); names.push_back(s); fileOf.push_back(fi); }
  vp_assert(q.u32() == 0xac000000, "functions"); q.u32(); vp_assert(q.u32() == (uint32_t)tops, "number of functions"); std::vector<Fn> seen; seen.reserve(4); std::vector<std::string> order;
  for (int i = 0; i < tops; i++) {
    seen.emplace_back(); Fn& f = seen.back(); f.head = q.u64(); uint64_t t = v3 ? q.u64() : 0; uint32_t ni = q.u32(); f.name = name(ni); body(q, f); Fn* x = nullptr; int at = 0; for (auto& g : r.f) if (fix(g.name) == f.name && g.total > 0) { x = &g; at = &g - &r.f[0]; } vp_assert(x != nullptr, "function"); if (!x) return; vp_assert(f.head == x->head, "entry count"); if (v3) { vp_assert(t == ts[at], "time stamp"); uint32_t fi = fileOf[ni]; vp_assert(fi < fileNames.size(), "file of a function"); if (fi < fileNames.size()) vp_assert(fileNames[fi] == std::string((shape & 2) ? "dir/" : "") + file(at), "file name"); }
    Fn e; fold(e, *x, true); same(f, e);
  }
  vp_assert(q.u32() == 0xae000000, "module groups"); vp_assert(q.u32() == 0 && q.u32() == 0, "no modules");
  vp_assert(q.u32() == 0xaf000000, "working set"); vp_assert(q.u32() == 3 * 128, "length"); for (int i = 0; i < 128; i++) { uint32_t a = q.u32(); uint64_t b = q.u64(); int k = -1; for (int j = 0; j < 3; j++) if (WI[j] == i) k = j; vp_assert(a == (k < 0 ? 0 : ws[k] / 10) && b == (k < 0 ? 0 : wm[k]), "working set entry"); } vp_assert(q.p == q.n, "nothing else");
  // what the reader makes of it
  bool force = shape & 1; SymbolMap back; if (!force) { /* a function that has samples keeps them */ back.AddSymbol("foo"); SourceStack st{SourceInfo("foo", "", "", 0, 1, 1)}; back.AddSourceCount("foo", st, 9, 1, 1, SymbolMap::AFDOPROFILE); }
  Map exp; exp.f.reserve(6); for (auto& f : seen) { Fn& d = exp.get(f.name); if (!force && f.name == "foo") continue; d.head += f.head; uint64_t k = 0; expand(d, f, k); } if (!force) { Fn& d = exp.get("foo"); d.total = 9; d.at(0x100000001).n = 9; d.at(0x100000001).inst = 1; }
  AutoFDOProfileReader rd(&back, force); vp_assert(rd.ReadFromFile("out.afdo"), "read back"); check(back, exp, "profile read back"); for (int i = 0; i < 3; i++) vp_assert(back.GetWorkingSets()[WI[i]].num_counters == ws[i] / 10 * 10 && back.GetWorkingSets()[WI[i]].min_counter == wm[i], "working set read back");
  if (v3) for (size_t i = 0; i < r.f.size(); i++) if (r.f[i].total > 0) vp_assert(back.GetSymbolByName(fix(r.f[i].name))->timestamp == ts[i], "time stamp read back"); vp_assert((rd.GetSummaryInformation() != nullptr) == v3, "summary read back");
  vp_observe("tops", tops); vp_reach(tops == 2 ? "two" : "other"); vp_must_reach("two");
}
// The summary of counts.
extern "C" void summary() {
  int c = vp_cfg(); SymbolMap m; int n = 3 + vp_tier(); std::vector<uint64_t> v, heads; uint64_t total = 0, mx = 0, mh = 0; uint64_t thr = (c & 1) ? 200 : 0; m.set_count_threshold(thr); int fns = 0;
  for (int f = 0; f < 2; f++) { const char* nm = f ? "b" : "a"; m.AddSymbol(nm); uint64_t h = cnt("head"); m.AddSymbolEntryCount(nm, h); uint64_t t = 0; std::vector<uint64_t> cs; for (int k = 0; k < (f ? n - 2 : 2); k++) { uint64_t x = vp_bytes((c & 2) && k == 0 ? 2 : 1, "count"); SourceStack st; if (k && !(c & 4)) st.push_back(SourceInfo("z", "", "", 1, 5, 0)); st.push_back(SourceInfo(nm, "", "", 1, 2 + k, 0)); m.AddSourceCount(nm, st, x, 1, 1, SymbolMap::AFDOPROFILE); t += x; cs.push_back(x); } if (t > thr) { fns++; for (auto x : cs) { v.push_back(x); total += x; if (x > mx) mx = x; } if (h > mh) mh = h; } }
  static const uint32_t CUT[3][3] = {{10000, 500000, 999999}, {300000, 900000, 990000}, {0, 750000, 999900}}; std::vector<uint32_t> cuts(CUT[c % 3], CUT[c % 3] + 3);
  ProfileSummaryInformation s = ProfileSummaryComputer::Compute(m, cuts); vp_assert(s.total_count_ == total && s.max_count_ == mx && s.max_function_count_ == mh && s.num_counts_ == v.size() && s.num_functions_ == (uint64_t)fns, "totals"); vp_assert(s.detailed_summaries_.size() == 3, "one entry per cutoff");
  for (int i = 0; i < 3 && i < (int)s.detailed_summaries_.size(); i++) {
    auto& d = s.detailed_summaries_[i]; vp_assert(d.cutoff_ == cuts[i], "cutoff"); uint64_t ge = 0, gt = 0, k = 0; for (auto x : v) { if (x >= d.min_count_) { ge += x; k++; } if (x > d.min_count_) gt += x; }
    // the counts at or above the limit are needed, and enough, for the share (in whole counts)
    uint64_t share = total * cuts[i] / 1000000; if (d.num_counts_ == 0) { vp_assert(share == 0, "an empty share"); continue; } vp_assert(d.num_counts_ == k, "number of counts"); vp_assert(ge >= share, "enough"); vp_assert(gt < share, "no more than needed");
  }
  vp_observe("functions", fns); vp_reach(fns == 2 ? "two" : "less"); vp_must_reach("two");
}
