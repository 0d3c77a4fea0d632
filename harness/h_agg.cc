// S06: branch aggregation; P04: mapping addresses to basic blocks.
#include "branch_aggregation.h"
#include "branch_frequencies.h"
#include "branch_frequencies_aggregator.h"
#include "frequencies_branch_aggregator.h"
#include "lbr_aggregation.h"
#include "lbr_aggregator.h"
#include "lbr_branch_aggregator.h"
#include "llvm_propeller_binary_address_mapper.h"
#include "vp.h"
#include <memory>
#include <string>
#include <vector>
using namespace devtools_crosstool_autofdo;
using llvm::object::BBAddrMap;
namespace {
struct Blk { int fn, bb; uint64_t a, e; bool ft, ret; };
struct Prog { std::vector<BBAddrMap> maps; std::vector<BbHandle> h; std::vector<Blk> b; absl::btree_set<int> sel; };
BinaryAddressMapper mapper(const Prog& p) { absl::flat_hash_map<int, BinaryAddressMapper::FunctionSymbolInfo> sym; for (int f : p.sel) sym[f].section_name = ".text"; return BinaryAddressMapper(p.sel, p.maps, p.h, sym); }
int64_t cnt(const char* n) { return (int64_t)vp_bytes(4, n); }
BinaryContent content() { BinaryContent c; c.file_name = "bin"; return c; }
}
// Blocks at arbitrary addresses; which block does an address belong to?
extern "C" void mapaddr() {
  int shape = vp_cfg(), nf = shape & 1 ? 2 : 3, nb = nf == 2 ? 3 : 2; Prog p; uint64_t cur = 0;
  if (shape & 4) nb++;
  for (int f = 0; f < nf; f++) {
    uint64_t base = shape & 8 ? vp_bytes(5, "function") : 0x400000 + f * 0xc000; vp_assume(base >= cur); bool selected = !(shape & 2) || f != 1; BBAddrMap m; m.BBRanges.emplace_back(); m.BBRanges[0].BaseAddress = base; uint64_t at = base;
    for (int i = 0; i < nb; i++) {
      uint64_t off = i ? vp_bytes(2, "offset") : 0, size = vp_bytes(2, "size"); uint64_t a = base + off; if (i) vp_assume(a >= at);
      if (i == 0) vp_assume(size != 0);                                  // the entry block is never empty
      bool ft = vp_anybool("falls through"), ret = vp_anybool("returns");
      m.BBRanges[0].BBEntries.emplace_back(10 + i, (uint32_t)off, (uint32_t)size, BBAddrMap::BBEntry::Metadata{ret, false, false, ft, false});
      at = a + size; if (selected) { p.b.push_back({f, i, a, at, ft, ret}); p.h.push_back({f, i}); }
    }
    cur = at; p.maps.push_back(m); if (selected) p.sel.insert(f);
  }
  BinaryAddressMapper m = mapper(p); uint64_t q = vp_bytes(6, "address"); bool to = vp_choose(2, "to");
  if (!to) for (auto& b : p.b) if (b.a == b.e && b.a == q) { bool code = false; for (auto& c : p.b) code |= c.a == q && c.e > q; vp_assume(code); }   // no branch leaves an empty block
  std::optional<int> got = m.FindBbHandleIndexUsingBinaryAddress(q, to ? BranchDirection::kTo : BranchDirection::kFrom);
  int n = p.b.size();
  if (got) {
    int g = *got; vp_assert(g >= 0 && g < n, "index of a block"); g = vp_concretize(g); const Blk& b = p.b[g];
    vp_assert(b.a == q || (b.a < q && q < b.e), "the block contains the address");
    if (to) {
      // the first block of the function that starts there; a function that starts there wins over empty blocks of the one before
      for (int i = 0; i < n; i++) if (i != g) { if (i < g && p.b[i].fn == b.fn) vp_assert(p.b[i].a != q, "first block starting there"); if (i > g && p.b[i].fn != b.fn) vp_assert(p.b[i].a != q, "function starting there"); }
    } else { for (int i = 0; i < n; i++) if (i != g) vp_assert(!(p.b[i].a <= q && q < p.b[i].e), "the only block with code there"); }
  } else for (auto& b : p.b) vp_assert(b.a != q && !(b.a <= q && q < b.e), "an address of no block");
  int x = vp_below(n, "from block"), y = vp_below(n, "to block"); x = vp_concretize(x); y = vp_concretize(y);
  bool can = p.b[x].fn == p.b[y].fn && x <= y; for (int i = x; i < y && can; i++) can = p.b[i].ft;
  vp_assert(m.CanFallThrough(x, y) == can, "fall-through path");
  BbHandle hx = p.h[x], hy = p.h[y]; vp_assert(m.GetAddress(hx) == p.b[x].a && m.GetEndAddress(hx) == p.b[x].e, "block extent");
  vp_assert(m.IsCall(hy, q) == (p.b[y].bb == 0 && q == p.b[y].a), "call");
  bool known = vp_choose(2, "known source"); vp_assert(m.IsReturn(known ? std::optional<BbHandle>(hx) : std::nullopt, hy, q) == (q != p.b[y].a || (p.b[y].bb != 0 && (!known || p.b[x].ret))), "return");
  vp_observe("found", got ? *got : -1); vp_reach("end"); vp_must_reach("end");
}
namespace {
// one branch sample between chosen places
struct Lbr : LbrAggregator { LbrAggregation a; int* runs; absl::StatusOr<LbrAggregation> AggregateLbrData(const PropellerOptions&, const BinaryContent&, PropellerStats& st) override { ++*runs; st.profile_stats.br_counters_accumulated += 7; return a; } };
struct Frq : BranchFrequenciesAggregator { BranchFrequencies f; int* runs; absl::StatusOr<BranchFrequencies> AggregateBranchFrequencies(const PropellerOptions&, const BinaryContent&, PropellerStats& st) override { ++*runs; st.profile_stats.br_counters_accumulated += 7; return f; } };
struct BadL : LbrAggregator { absl::StatusOr<LbrAggregation> AggregateLbrData(const PropellerOptions&, const BinaryContent&, PropellerStats&) override { return absl::InternalError("no"); } };
struct BadF : BranchFrequenciesAggregator { absl::StatusOr<BranchFrequencies> AggregateBranchFrequencies(const PropellerOptions&, const BinaryContent&, PropellerStats&) override { return absl::InternalError("no"); } };
}
// Aggregated LBR data passes through unchanged.
extern "C" void lbr() {
  LbrAggregation a; int nb = vp_cfg() & 3, nf = vp_cfg() >> 2; std::vector<uint64_t> ends; int64_t total = 0;
  struct E { uint64_t f, t; int64_t n; }; std::vector<E> br, ft;
  auto add = [&](std::vector<E>& v, uint64_t f, uint64_t t, int64_t n) { for (auto& e : v) if (e.f == f && e.t == t) { e.n += n; return; } v.push_back({f, t, n}); };
  for (int i = 0; i < nb; i++) { uint64_t f = vp_bytes(6, "from"), t = vp_bytes(6, "to"); int64_t n = (int64_t)vp_bytes(6, "count"); a.branch_counters[{.from = f, .to = t}] += n; add(br, f, t, n); total += n; ends.push_back(f); ends.push_back(t); }
  for (int i = 0; i < nf; i++) { uint64_t f = vp_bytes(6, "from"), t = vp_bytes(6, "to"); int64_t n = (int64_t)vp_bytes(6, "count"); a.fallthrough_counters[{.from = f, .to = t}] += n; add(ft, f, t, n); ends.push_back(f); ends.push_back(t); }
  Prog p; BinaryAddressMapper m = mapper(p); PropellerStats st; st.profile_stats.br_counters_accumulated = 100; int runs = 0; BinaryContent bc = content(); PropellerOptions po;
  auto src = std::make_unique<Lbr>(); src->a = a; src->runs = &runs;
  int mode = vp_choose(3, "mode"); bool direct = mode == 0; PropellerStats ini; ini.profile_stats.br_counters_accumulated = 7;
  auto agg = direct ? std::make_unique<LbrBranchAggregator>(a, ini) : std::make_unique<LbrBranchAggregator>(std::move(src), po, bc);
  if (mode == 2) { auto x = std::make_unique<LbrBranchAggregator>(std::move(*agg)); agg = std::move(x); }
  auto chk = [&](const absl::flat_hash_set<uint64_t>& s) {
    for (uint64_t e : ends) vp_assert(s.contains(e), "every end point"); uint64_t q = vp_bytes(6, "address"); bool in = false; for (uint64_t e : ends) in |= e == q; vp_assert(s.contains(q) == in, "only end points");
    size_t u = 0; for (size_t i = 0; i < ends.size(); i++) { bool first = true; for (size_t j = 0; j < i; j++) if (ends[j] == ends[i]) first = false; u += first; } vp_assert(s.size() == u, "each end point once");
  };
  bool early = mode != 1; if (early) { auto s = agg->GetBranchEndpointAddresses(); vp_assert(s.ok(), "end points"); chk(*s); }
  auto r = agg->Aggregate(m, st); vp_assert(r.ok(), "aggregation"); vp_assert(st.profile_stats.br_counters_accumulated == 107, "statistics are added once");
  vp_assert(r->branch_counters.size() == br.size() && r->fallthrough_counters.size() == ft.size(), "entries");
  for (auto& e : br) { auto i = r->branch_counters.find({.from = e.f, .to = e.t}); vp_assert(i != r->branch_counters.end() && i->second == e.n, "branch count"); }
  for (auto& e : ft) { auto i = r->fallthrough_counters.find({.from = e.f, .to = e.t}); vp_assert(i != r->fallthrough_counters.end() && i->second == e.n, "fall-through count"); }
  vp_assert(r->GetNumberOfBranchCounters() == total, "total number of branches");
  if (!early) chk(r->GetUniqueAddresses());
  vp_assert(runs == (direct ? 0 : 1), "the profile is read once");
  LbrBranchAggregator bad(std::make_unique<BadL>(), po, bc); vp_assert(!bad.GetBranchEndpointAddresses().ok() && !bad.Aggregate(m, st).ok(), "errors are passed on");
  vp_observe("total", total); vp_reach("end"); vp_must_reach("end");
}
// Fall-throughs inferred from branch frequencies.
extern "C" void frequencies() {
  int shape = vp_cfg(); Prog p; const int NB = 4; bool known = shape & 1;   // instruction size known
  static const int F[] = {0, 0, 0, 1}, G[] = {0, 0, 1, 1}; const int* fn = shape & 2 ? G : F; int bbi = 0, last = -1;
  for (int i = 0; i < NB; i++) {
    if (fn[i] != last) { BBAddrMap m; m.BBRanges.emplace_back(); m.BBRanges[0].BaseAddress = 0x1000 + i * 16; p.maps.push_back(m); bbi = 0; last = fn[i]; p.sel.insert(last); }
    uint64_t a = 0x1000 + i * 16, base = p.maps.back().BBRanges[0].BaseAddress; bool ft = vp_anybool("falls through");
    p.maps.back().BBRanges[0].BBEntries.emplace_back(bbi, (uint32_t)(a - base), 16, BBAddrMap::BBEntry::Metadata{false, false, false, ft, false});
    p.b.push_back({last, bbi, a, a + 16, ft, false}); p.h.push_back({last, bbi++});
  }
  BinaryAddressMapper m = mapper(p); BranchFrequencies f; PropellerStats ini, st; ini.profile_stats.br_counters_accumulated = 3; int runs = 0;
  struct W { bool any = false; int64_t in = 0, out = 0; bool act = false; int64_t fall = 0; } w[NB];
  int nt = 2 + vp_tier(), nn = vp_choose(2, "not taken"); std::vector<uint64_t> ends; int64_t total = 0; struct E { uint64_t f, t; int64_t n; }; std::vector<E> br;
  // a place: block k at an inner instruction or its last one, or nowhere
  auto place = [&](bool end) -> uint64_t { int k = vp_choose(NB + (known && !end ? 0 : 1), "block"); return k == NB ? 0x9000 : 0x1000 + k * 16 + (end ? (known && vp_choose(2, "last") ? 12 : 4) : 0); };
  int first = shape >> 2;
  auto blk = [&](uint64_t a) { return a >= 0x9000 ? -1 : (int)((a - 0x1000) / 16); };
  for (int i = 0; i < nt; i++) {
    uint64_t a = i == 0 ? 0x1000 + first * 16 + (known && vp_choose(2, "last") ? 12 : 4) : place(true), b = place(false); int64_t n = cnt("taken"); bool dup = false; if (known && i && a == br[0].f && b != br[0].t) vp_stop(); for (auto& e : br) if (e.f == a && e.t == b) dup = true; if (dup) vp_stop();
    f.taken_branch_counters[{.from = a, .to = b}] = n; br.push_back({a, b, n}); ends.push_back(a); ends.push_back(b); total += n;
    if (blk(a) >= 0) { W& x = w[blk(a)]; x.any = true; x.out += n; if (known && a % 16 == 12) x.act = true; } if (blk(b) >= 0) { w[blk(b)].any = true; w[blk(b)].in += n; }
  }
  for (int i = 0; i < nn; i++) {
    uint64_t a = place(true); int64_t n = cnt("not taken"); f.not_taken_branch_counters[{.address = a}] = n; ends.push_back(a);
    if (blk(a) >= 0 && known && a % 16 == 12) { W& x = w[blk(a)]; x.any = true; x.act = true; x.fall = n; }
  }
  auto can = [&](int x, int y) { bool c = p.b[x].fn == p.b[y].fn; for (int i = x; i < y && c; i++) c = p.b[i].ft; return c; };
  std::vector<E> want; int pend = -1; int64_t pw = 0;
  auto put = [&](int x, int y, int64_t n) { for (auto& e : want) if (e.f == p.b[x].a && e.t == p.b[y].a) { e.n += n; return; } want.push_back({p.b[x].a, p.b[y].a, n}); };
  auto resolve = [&](int to) { if (to < NB) { if (can(pend, to)) put(pend, to, pw); else if (pend + 1 < NB && can(pend, pend + 1)) put(pend, pend + 1, pw); } };
  for (int k = 0; k < NB; k++) if (w[k].any) {
    if (pend >= 0) { if (can(pend, k)) w[k].in += pw; resolve(k); pend = -1; }
    int64_t ff = w[k].act ? w[k].fall : w[k].in - w[k].out; if (ff > 0) { pend = k; pw = ff; }
  }
  if (pend >= 0) resolve(pend + 1);
  BinaryContent bc = content(); PropellerOptions po; auto src = std::make_unique<Frq>(); src->f = f; src->runs = &runs;
  bool direct = known || vp_choose(2, "direct");
  auto agg = direct ? std::make_unique<FrequenciesBranchAggregator>(f, ini, known ? std::optional<int>(4) : std::nullopt) : std::make_unique<FrequenciesBranchAggregator>(std::move(src), po, bc);
  auto s = agg->GetBranchEndpointAddresses(); vp_assert(s.ok(), "end points"); for (uint64_t e : ends) vp_assert(s->contains(e), "every end point");
  size_t u = 0; for (size_t i = 0; i < ends.size(); i++) { bool first = true; for (size_t j = 0; j < i; j++) if (ends[j] == ends[i]) first = false; u += first; } vp_assert(s->size() == u, "only end points");
  auto r = agg->Aggregate(m, st); vp_assert(r.ok(), "aggregation"); vp_assert(st.profile_stats.br_counters_accumulated == (direct ? 3u : 7u), "statistics"); vp_assert(runs == (direct ? 0 : 1), "the profile is read once");
  vp_assert(r->branch_counters.size() == br.size(), "branches"); for (auto& e : br) { auto i = r->branch_counters.find({.from = e.f, .to = e.t}); vp_assert(i != r->branch_counters.end() && i->second == e.n, "taken branches are kept"); }
  vp_assert(f.GetNumberOfTakenBranchCounters() == (int)total || total > 0x7fffffff, "number of taken branches");
  vp_assert(r->fallthrough_counters.size() == want.size(), "fall-through ranges"); for (auto& e : want) { auto i = r->fallthrough_counters.find({.from = e.f, .to = e.t}); vp_assert(i != r->fallthrough_counters.end() && i->second == e.n, "inferred fall-through"); }
  FrequenciesBranchAggregator bad(std::make_unique<BadF>(), po, bc); vp_assert(!bad.GetBranchEndpointAddresses().ok() && !bad.Aggregate(m, st).ok(), "errors are passed on");
  vp_observe("ranges", want.size()); vp_reach("end"); vp_must_reach("end");
}
