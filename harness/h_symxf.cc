// M03..M10: transformations of the in-memory profile.
#include "symref.h"
#include <algorithm>
#include <map>
using namespace rf;
namespace {
const char* NM[] = {"aa", "b", "cc", "d"};
uint64_t cnt(const char* n) { return vp_bytes(5, n); }
uint64_t off(const SourceInfo& s) { return (uint64_t)(uint32_t)(s.line - s.start_line) << 32 | s.discriminator; }
// one sampled stack: fns outermost first
void sample(SymbolMap& m, Fn& r, std::vector<const char*> fns, std::vector<uint32_t> line, uint64_t c, const char* tgt, uint64_t tn, int inst) {
  SourceStack st; int d = fns.size(); Fn* f = &r;
  for (int i = d - 1; i >= 0; i--) st.push_back(SourceInfo(fns[i], "", "", 10, 10 + line[i], 0));
  m.AddSourceCount(fns[0], st, c, inst); r.total += c;
  for (int i = d - 1; i > 0; i--) { f = &f->call(off(st[i]), st[i - 1].func_name); f->total += c; }
  Pos& p = f->at(off(st[0])); p.n += c; p.inst += inst;
  if (tgt) { m.AddIndirectCallTarget(fns[0], st, tgt, tn); f->tgt(off(st[0]), tgt) += tn; }
}
void entry(SymbolMap& m, Fn& r, uint64_t h) { m.AddSymbolEntryCount(r.name.c_str(), h); r.head += h; }
uint64_t est(Fn& f) {   // entry count of an instance, from its first location when none was recorded
  if (f.head) return f.head;
  uint64_t o = ~0ull; for (auto& p : f.pos) if (p.off < o) o = p.off, f.head = p.n;
  Call* e = nullptr; for (auto& c : f.calls) if (!e || c.off < e->off || (c.off == e->off && c.name < e->name)) e = &c;
  if (e && e->off < o) f.head = est(*e->f);
  return f.head;
}
uint32_t ln(int k) { return vp_cfg() & 8 ? 1 + (uint32_t)vp_choose(3, "line") : (uint32_t)vp_any<uint16_t>("line"); }
// two functions with inlined calls
void twofns(SymbolMap& m, Map& r, int sh, bool rec) {
  r.f.reserve(8); Fn& a = r.get("aa"); Fn& b = r.get("b"); m.AddSymbol("aa"); m.AddSymbol("b");
  const char* x = rec ? "b" : "cc";
  sample(m, a, {"aa"}, {ln(0)}, cnt("count"), nullptr, 0, 1);
  sample(m, a, {"aa", x}, {ln(1), 7}, cnt("count"), sh & 1 ? "q" : nullptr, sh & 1 ? cnt("calls") : 0, 2);
  if (sh & 2) sample(m, a, {"aa", x, "d"}, {ln(2), ln(3), 5}, cnt("count"), nullptr, 0, 3);
  else sample(m, a, {"aa", "d"}, {ln(2), 5}, cnt("count"), x, cnt("calls"), 3);
  sample(m, b, {"b"}, {3}, cnt("count"), nullptr, 0, 1);
  if (sh & 4) sample(m, b, {"b", "cc", "d"}, {ln(4), 2, 1}, cnt("count"), nullptr, 0, 1);
  entry(m, a, cnt("head")); if (sh & 4) entry(m, b, cnt("head"));
}
void flatten(Fn& f) { for (auto& c : f.calls) { uint64_t h = est(*c.f); Pos& p = f.at(c.off); if (p.n < h) p.n = h; f.tgt(c.off, c.name) += h; } }
void flat_merge(Fn& d, const Fn& s) { for (auto& p : s.pos) { d.at(p.off).n += p.n; d.at(p.off).inst += p.inst; d.total += p.n; for (auto& t : p.t) d.tgt(p.off, t.name) += t.n; } d.head += s.head; }
void flatall(Map& out, Fn& f) { flatten(f); flat_merge(out.get(f.name), f); for (auto& c : f.calls) flatall(out, *c.f); }
}
extern "C" void flat() {
  SymbolMap s, d; Map rs, rd; rd.f.reserve(8); twofns(s, rs, vp_cfg(), vp_cfg() & 16); uint64_t nt = 0, nf = 0;
  d.BuildFlatProfile(s, false, 0, nt, nf); vp_assert(nt == 2 && nf == 2, "functions flattened");
  for (auto& f : rs.f) flatall(rd, f);
  check(d, rd, "flat profile");
  vp_observe("n", d.size());
}
extern "C" void selective() {
  SymbolMap s, d; Map rs, rd; rd.f.reserve(8); twofns(s, rs, vp_cfg(), false); uint64_t nt = 0, nf = 0, thr = vp_any<uint64_t>("threshold"), wf = 0;
  d.BuildFlatProfile(s, true, thr, nt, nf);
  for (auto& f : rs.f) { if (f.total >= thr) rd.get(f.name).add(f); else { wf++; flatten(f); flat_merge(rd.get(f.name), f); } }
  vp_assert(nt == 2 && nf == wf, "functions flattened");
  check(d, rd, "selectively flattened profile"); vp_reach(wf == 0 ? "none" : wf == 1 ? "one" : "both"); vp_must_reach("none"); vp_must_reach("one"); vp_must_reach("both");
  vp_observe("n", nf);
}
namespace {
uint64_t hc, hf;
void hybridInto(Map& out, Fn& d, Fn& o, uint64_t thr) {
  d.total += o.total; d.head += o.head;
  for (auto& c : o.calls) {
    hc++;
    if (c.f->total <= thr) { hf++; Pos& p = o.at(c.off); if (p.n < c.f->head) p.n = c.f->head; o.tgt(c.off, c.name) += c.f->head; hybridInto(out, out.get(c.name), *c.f, thr); }
    else hybridInto(out, d.call(c.off, c.name), *c.f, thr);
  }
  for (auto& p : o.pos) { d.at(p.off).n += p.n; d.at(p.off).inst += p.inst; for (auto& t : p.t) d.tgt(p.off, t.name) += t.n; }
}
void sweep(const Symbol& s, uint64_t thr) { for (auto& c : s.callsites) { vp_assert(c.second->total_count > thr, "only hot calls stay inlined"); sweep(*c.second, thr); } }
}
extern "C" void hybrid() {
  SymbolMap s, d; Map rs, rd; rd.f.reserve(8); twofns(s, rs, vp_cfg(), vp_cfg() & 16); uint64_t nc = 0, nf = 0, thr = vp_any<uint64_t>("threshold"); hc = hf = 0;
  d.BuildHybridProfile(s, thr, nc, nf);
  for (auto& f : rs.f) hybridInto(rd, rd.get(f.name), f, thr);
  vp_assert(nc == hc && nf == hf, "calls flattened"); check(d, rd, "hybrid profile"); for (auto& x : d.map()) sweep(*x.second, thr);
  vp_observe("n", nf);
}
namespace {
long limit(Map& out, Fn& f, int max, int depth) {
  uint64_t t0 = f.total;
  if (depth == max) {
    std::vector<Call> cs; cs.swap(f.calls);
    for (auto& c : cs) {
      f.total -= c.f->total; limit(out, *c.f, max, 1); uint64_t h = est(*c.f), was = f.at(c.off).n; Pos& p = f.at(c.off);
      if (p.n < h) p.n = h; uint64_t& t = f.tgt(c.off, c.name); t += h; if (f.at(c.off).n < t) f.at(c.off).n = t;
      f.total += f.at(c.off).n - was; out.get(c.name).add(*c.f);
    }
  } else for (auto& c : f.calls) f.total += limit(out, *c.f, max, depth + 1);
  return f.total - t0;
}
void levels(const Symbol& s, int left) { for (auto& c : s.callsites) { vp_assert(left > 0, "nesting limit respected"); levels(*c.second, left - 1); } }
}
extern "C" void nesting() {
  SymbolMap s; Map r; twofns(s, r, vp_cfg(), vp_cfg() & 16); int max = 1 + vp_choose(2, "levels"), want = 0;
  std::string cur; for (;;) { Fn* n = nullptr; for (auto& f : r.f) if (f.name > cur && (!n || f.name < n->name)) n = &f; if (!n) break; cur = n->name; r.f.reserve(8); if (limit(r, *r.find(cur), max, 1) != 0) want++; }
  int got = s.FlattenNestedInlineCallsites(max); vp_assert(got == want, "functions changed");
  check(s, r, "limited profile"); for (auto& x : s.map()) levels(*x.second, max - 1);
  vp_assert(s.FlattenNestedInlineCallsites(0) == 0, "no limit"); check(s, r, "limited profile");
  vp_observe("n", got);
}
// ---- name suffixes ----
namespace {
std::string strip(const std::string& in, int policy) {
  if (policy == 2) return in;
  if (policy == 0) { if (in[0] == '.') return in; size_t d = in.find('.'); return d == std::string::npos ? in : in.substr(0, d); }
  std::string s = in; auto last = [&](const std::string& n) { for (size_t i = s.size() + 1; i-- > 0;) if (i + n.size() <= s.size() && s.compare(i, n.size(), n) == 0) return (long)i; return -1L; };
  long i = last(".cold"); if (i >= 0) s = s.substr(0, i) + s.substr(i + 5);
  for (const char* x : {".llvm.", ".__part."}) { i = last(x); if (i < 0) continue; size_t e = i + strlen(x); while (e < s.size() && s[e] != '.') e++; s = s.substr(0, i) + s.substr(e); }
  return s;
}
const char* PIECE[] = {".cold", ".llvm.", ".__part.", "?", ".isra", ".lto_priv", "."};
std::string mkname(int n) {
  std::string s = vp_choose(4, "assembly") ? "f" : ".f";
  for (int i = 0; i < n; i++) { int k = vp_choose(8, "piece"); if (k == 7) break; if (k == 3) { char c = vp_any<char>("char"); vp_assume(c > 32); s += c; s += '4'; } else s += PIECE[k]; }
  return s;
}
static const char* POL[] = {"all", "selected", "none"};
}
extern "C" void original() {
  SymbolMap m; int p = vp_cfg(); m.set_suffix_elision_policy(POL[p]); vp_assert(m.suffix_elision_policy() == POL[p], "policy");
  std::string n = mkname(3 + vp_tier()); std::string got = m.GetOriginalName(n);
  vp_assert(got == strip(n, p), "original name"); vp_observe("len", got.size());
}
extern "C" void elide() {
  SymbolMap m; int p = vp_cfg() % 3; m.set_suffix_elision_policy(POL[p]); Map r, w; r.f.reserve(8); w.f.reserve(8);
  static const char* N[] = {"f", "f.cold", "f.llvm.12", "f.__part.1", "g.cold.llvm.3", "f.isra.0"}; std::string used[3]; bool alias = vp_cfg() >= 3;
  if (alias) m.AddAlias("f.cold", vp_choose(2, "alias") ? "h.cold" : "f.llvm.9");
  int k0 = -1;
  for (int i = 0; i < 3; i++) {
    int k = k0 + 1 + vp_choose(6 - 3 + i - k0, "name"); k0 = k; const char* nm = N[k]; m.AddSymbol(nm); Fn& f = r.get(nm);
    sample(m, f, {nm, "in"}, {4, vp_any<uint16_t>("line")}, cnt("count"), nullptr, 0, 1); entry(m, f, cnt("head")); sample(m, f, {nm}, {vp_any<uint16_t>("line")}, cnt("count"), nullptr, 0, 1);
  }
  std::map<std::string, std::string> al; for (auto& x : m.map()) { bool own = false; for (auto& f : r.f) own |= f.name == x.first; if (!own) al[x.first] = "f.cold"; }
  m.ElideSuffixesAndMerge();
  for (auto& f : r.f) { Fn c = f.clone(); w.get(strip(f.name, p)).add(c); }
  std::map<std::string, bool> keys; for (auto& f : w.f) keys[f.name] = true; for (auto& a : al) keys[strip(a.first, p)] = true;
  vp_assert(m.map().size() == keys.size(), "one entry per original name");
  for (auto& f : w.f) { const Symbol* s = m.GetSymbolByName(f.name); vp_assert(s != nullptr, "merged entry"); if (s) check(*s, f, "merged under the original name"); }
  for (auto& a : al) { const Symbol* s = m.GetSymbolByName(strip(a.first, p)); vp_assert(s == m.GetSymbolByName(strip(a.second, p)), "aliases keep sharing one profile"); }
  vp_observe("n", m.size());
}
// ---- limits ----
extern "C" void trim() {
  SymbolMap m; Fn r; r.name = "aa"; m.AddSymbol("aa"); static const char* T[] = {"t1", "t2", "t3", "t4"}; uint64_t c[4], d[2]; int n = 2 + vp_choose(3, "targets"), lim = vp_choose(4, "limit");
  SourceStack a{SourceInfo("aa", "", "", 10, vp_any<uint32_t>("line"), vp_any<uint32_t>("disc"))}, b{SourceInfo("in", "", "", 10, 12, 0), SourceInfo("aa", "", "", 10, 15, 0)};
  for (int i = 0; i < n; i++) { c[i] = vp_any<uint64_t>("calls"); m.AddIndirectCallTarget("aa", a, T[i], c[i]); }
  for (int i = 0; i < 2; i++) { d[i] = vp_any<uint64_t>("calls"); m.AddIndirectCallTarget("aa", b, T[i], d[i]); }
  const Symbol* s = m.GetSymbolByName("aa"); const Symbol* in = s->callsites.begin()->second;
  TargetCountPairs tp; GetSortedTargetCountPairs(s->pos_counts.begin()->second.target_map, &tp); vp_assert((int)tp.size() == n, "every target listed");
  for (int i = 0; i + 1 < (int)tp.size(); i++) vp_assert(tp[i].second > tp[i + 1].second || (tp[i].second == tp[i + 1].second && tp[i].first > tp[i + 1].first), "targets by descending count");
  m.TrimCallTargets(lim);
  auto chk = [&](const CallTargetCountMap& t, const uint64_t* v, int n) {
    vp_assert((int)t.size() == (n < lim ? n : lim), "number of targets kept");
    for (int i = 0; i < n; i++) { int better = 0; for (int j = 0; j < n; j++) if (j != i && (v[j] > v[i] || (v[j] == v[i] && j < i))) better++; auto q = t.find(T[i]); vp_assert((q != t.end()) == (better < lim), "the hottest targets are kept"); if (q != t.end()) vp_assert(q->second == v[i], "counts of kept targets"); }
  };
  chk(s->pos_counts.begin()->second.target_map, c, n); chk(in->pos_counts.begin()->second.target_map, d, 2);
  vp_observe("n", tp.size());
}
extern "C" void throttle() {
  SymbolMap m; Fn r; r.name = "aa"; m.AddSymbol("aa"); int lim = vp_choose(3, "limit"); static const char* IN[] = {"i1", "i2", "i3", "i4"}; int n = 3 + vp_choose(2, "calls");
  uint64_t c[4], sub = 0; int site[4]; bool deep = vp_cfg() & 1;
  sample(m, r, {"aa"}, {1}, cnt("count"), nullptr, 0, 1);
  for (int i = 0; i < n; i++) { site[i] = vp_choose(2, "site"); c[i] = cnt("count"); sample(m, r, {"aa", IN[i]}, {(uint32_t)(5 + site[i]), 2}, c[i], nullptr, 0, 1); }
  uint64_t e[2] = {0, 0}; if (deep) for (int i = 0; i < 2; i++) { e[i] = cnt("nested"); sample(m, r, {"aa", IN[0], IN[2 + i]}, {(uint32_t)(5 + site[0]), 9, 3}, e[i], nullptr, 0, 1); }
  if (deep) c[0] += e[0] + e[1];
  m.throttleInlineInstancesAtSameLocation(lim); const Symbol* s = m.GetSymbolByName("aa"); uint64_t gone = 0; int kept[2] = {0, 0}, all[2] = {0, 0}; uint64_t low[2] = {~0ull, ~0ull};
  for (int i = 0; i < n; i++) {
    all[site[i]]++; auto q = s->callsites.find(Callsite{(uint64_t)(5 + site[i]) << 32, IN[i]});
    if (q == s->callsites.end()) { gone += c[i]; continue; }
    kept[site[i]]++; if (c[i] < low[site[i]]) low[site[i]] = c[i];
    uint64_t lost = 0; if (deep && i == 0) { int k = 0; for (int j = 0; j < 2; j++) { bool here = q->second->callsites.count(Callsite{9ull << 32, IN[2 + j]}); k += here; if (!here) lost += e[j]; } vp_assert(k == (lim < 2 ? lim : 2), "nested instances kept"); if (k == 1) vp_assert(lost == (e[0] < e[1] ? e[0] : e[1]), "the hottest nested instance is kept"); }
    vp_assert(q->second->total_count == c[i] - lost, "totals of kept instances"); gone += lost;
  }
  for (int k = 0; k < 2; k++) vp_assert(kept[k] == (all[k] < lim ? all[k] : lim), "instances kept per location");
  for (int i = 0; i < n; i++) if (!s->callsites.count(Callsite{(uint64_t)(5 + site[i]) << 32, IN[i]}) && lim) vp_assert(c[i] <= low[site[i]], "the hottest instances are kept");
  vp_assert(s->total_count == r.total - gone, "removed samples leave the total");
  m.throttleInlineInstancesAtSameLocation(-1); vp_assert(s->total_count == r.total - gone, "a negative limit changes nothing");
  vp_observe("n", s->callsites.size());
}
// ---- entry counts ----
namespace {
uint64_t entryOf(const Fn& f) { uint64_t o = 10000ull << 32, v = 0; for (auto& p : f.pos) if (p.off < o) o = p.off, v = p.n; for (auto& c : f.calls) if (c.off < o) o = c.off, v = entryOf(*c.f); return v; }
}
extern "C" void entrycount() {
  SymbolMap m; Fn r; r.name = "aa"; m.AddSymbol("aa"); int sh = vp_cfg();
  auto L = [&] { return vp_any<uint32_t>("line"); };
  sample(m, r, {"aa"}, {L()}, cnt("count"), nullptr, 0, 1); if (sh & 1) sample(m, r, {"aa"}, {L()}, cnt("count"), nullptr, 0, 1);
  uint32_t l1 = L(), l2 = L(); if (sh & 2) vp_assume(l1 != l2);
  if (sh & 2) { sample(m, r, {"aa", "b"}, {l1, L()}, cnt("count"), nullptr, 0, 1); sample(m, r, {"aa", "cc"}, {l2, L()}, cnt("count"), nullptr, 0, 1); }
  if (sh & 4) sample(m, r, {"aa", "b", "d"}, {l1, L(), L()}, cnt("count"), nullptr, 0, 1);
  const Symbol* s = m.GetSymbolByName("aa"); vp_assert(s->EntryCount() == entryOf(r), "entry count is the count of the first plausible location"); check(*s, r, "reading changes nothing");
  if (vp_choose(2, "recorded head")) entry(m, r, cnt("head"));
  uint64_t h = est(r); const_cast<Symbol*>(s)->EstimateHeadCount(); vp_assert(s->head_count == h, "estimated head count"); check(*s, r, "only head counts change");
  m.RemoveSymbol("zz"); vp_assert(s->head_count == h, "removal is by exact name"); m.RemoveSymbol("aa"); vp_assert(s->total_count == 0 && s->head_count == 0, "removed");
  vp_observe("h", h);
}
// ---- inclusive counts over the call graph ----
extern "C" void inclusive() {
  const int N = 4; static const char* F[] = {"a", "b", "c", "e"}; SymbolMap m; uint64_t tot[N], hd[N], cc[N][2]; int to[N][2]; const int big = vp_cfg() & 1;
  for (int i = 0; i < N; i++) m.AddSymbol(F[i]);
  for (int i = 0; i < N; i++) {
    tot[i] = (1ull << i) << (big ? 33 : 8); hd[i] = i == 1 ? 0 : i == 2 ? 2 : 1;
    for (int k = 0; k < 2; k++) {
      to[i][k] = i == 3 && k ? (vp_cfg() >> 1) & 3 : i == 2 && k ? (vp_cfg() >> 3) & 3 : (int)vp_choose(N, "callee"); cc[i][k] = k ? 2 : 4;
      SourceStack st; if (i == 0 && k) st.push_back(SourceInfo("in", "", "", 10, 11, 0));
      st.push_back(SourceInfo(F[i], "", "", 10, 11 + k, 0)); m.AddSourceCount(F[i], st, k ? tot[i] : 0, 1); m.AddIndirectCallTarget(F[i], st, F[to[i][k]], cc[i][k]); if (i == 1) m.AddIndirectCallTarget(F[i], st, "unknown", 9);
    }
    m.AddSymbolEntryCount(F[i], hd[i]);
  }
  m.ComputeTotalCountIncl();
  bool reach[N][N] = {}; for (int i = 0; i < N; i++) { reach[i][i] = true; for (int k = 0; k < 2; k++) reach[i][to[i][k]] = true; }
  for (int k = 0; k < N; k++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) reach[i][j] |= reach[i][k] && reach[k][j];
  uint64_t incl[N] = {}; bool done[N] = {};
  for (int round = 0; round < N; round++) for (int i = 0; i < N; i++) if (!done[i]) {
    bool ready = true; uint64_t sum = 0;
    for (int j = 0; j < N; j++) if (reach[i][j] && reach[j][i]) { sum += tot[j]; for (int k = 0; k < 2; k++) { int t = to[j][k]; if (reach[t][j]) continue; if (!done[t]) ready = false; else sum += incl[t] / (hd[t] ? hd[t] : 1) * cc[j][k]; } }
    if (ready) for (int j = 0; j < N; j++) if (reach[i][j] && reach[j][i]) incl[j] = sum, done[j] = true;
  }
  for (int i = 0; i < N; i++) vp_assert(m.GetSymbolByName(F[i])->total_count_incl == incl[i] && m.GetSymbolByName(F[i])->total_count == tot[i], "inclusive count");
  auto& in = m.GetSymbolByName("a")->callsites; vp_assert(in.size() == 1, "inlined call"); int t = to[0][1]; vp_assert(in.begin()->second->total_count_incl == tot[0] + (reach[t][0] ? 0 : incl[t] / (hd[t] ? hd[t] : 1) * 2), "inclusive count of the inlined call");
  vp_observe("incl", incl[0]);
}
// ---- working sets ----
extern "C" void working() {
  SymbolMap m; static const char* S[] = {"f", "f.cold", "g"}; static const uint64_t C[] = {0, 1, 5, 1000, 1ull << 33}; struct E { uint64_t c, n; }; std::vector<E> e; bool el = vp_cfg() & 1;
  m.set_suffix_elision_policy(vp_cfg() & 2 ? "selected" : "all"); const uint64_t NI[] = {1, 40, 300};
  for (int i = 0; i < 3; i++) m.AddSymbol(S[i]);
  for (int i = 0; i < 3; i++) {
    uint64_t c = C[vp_choose(5, "count")], n = NI[vp_choose(3, "instructions")]; SourceStack st; if (i == 2) st.push_back(SourceInfo("in", "", "", 10, 11, 0)); st.push_back(SourceInfo(S[i], "", "", 10, (uint32_t)(11 + (el ? i : 0)), 0));
    m.AddSourceCount(S[i], st, c, n); e.push_back({c, n});
  }
  { uint64_t n = NI[vp_choose(3, "instructions")]; SourceStack st{SourceInfo("f", "", "", 10, 30, 0)}; m.AddSourceCount("f", st, 7, n); e.push_back({7, n}); }
  if (el) m.ElideSuffixesAndMerge();
  m.ComputeWorkingSets();
  std::sort(e.begin(), e.end(), [](const E& a, const E& b) { return a.c > b.c; });
  uint64_t tot = 0; for (auto& x : e) tot += x.c * x.n; uint64_t b = tot / 129; auto* ws = m.GetWorkingSets();
  for (int i = 0; i < 128; i++) {
    uint64_t lim = b * (i + 1), k = 0, acc = 0, nx = 0; for (auto& x : e) { if (!x.c) break; uint64_t t = (lim - acc) / x.c; if (t >= x.n) { k += x.n; acc += x.c * x.n; } else { k += t; nx = x.c; break; } }
    vp_assert(ws[i].num_counters == k && ws[i].min_counter == nx, "working set bucket");
  }
  vp_observe("n", ws[127].num_counters);
}
