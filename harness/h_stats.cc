// U03: statistics of several steps are added up field by field.
#include "vp.h"
#include "llvm_propeller_statistics.h"
#include <vector>
using namespace devtools_crosstool_autofdo;
namespace {
const CFGEdge::Kind KINDS[] = {CFGEdge::Kind::kBranchOrFallthough, CFGEdge::Kind::kCall, CFGEdge::Kind::kRet};
const ChainMergeOrder ORDERS[] = {ChainMergeOrder::kSU, ChainMergeOrder::kS2S1U, ChainMergeOrder::kUS2S1};
struct Vals { int64_t i[32]; int64_t ec[3], ew[3]; int mo[3]; bool he[3], hw[3], hm[3]; int n; };
int64_t v32() { return (int32_t)vp_bytes(3, "count"); }
double flt() { return (double)(int)vp_bytes(2, "score"); }
void each(PropellerStats& s, Vals& x, bool set) {
  int k = 0; auto I = [&](auto& f) { if (set) { f = v32(); x.i[k] = (int64_t)f; } k++; };
  I(s.bbaddrmap_stats.duplicate_symbols); I(s.bbaddrmap_stats.bbaddrmap_function_does_not_have_symtab_entry); I(s.bbaddrmap_stats.hot_functions);
  I(s.profile_stats.binary_mmap_num); I(s.profile_stats.perf_file_parsed); I(s.profile_stats.br_counters_accumulated);
  auto& d = s.disassembly_stats; I(d.could_not_disassemble.absolute); I(d.could_not_disassemble.weighted); I(d.may_affect_control_flow.absolute); I(d.may_affect_control_flow.weighted); I(d.cant_affect_control_flow.absolute); I(d.cant_affect_control_flow.weighted);
  auto& c = s.cfg_stats; I(c.edges_with_same_src_sink_but_different_type); I(c.cfgs_created); I(c.cfgs_with_hot_landing_pads); I(c.nodes_created); I(c.hot_basic_blocks); I(c.hot_empty_basic_blocks);
  I(s.code_layout_stats.n_single_node_chains); I(s.code_layout_stats.n_multi_node_chains); I(s.cloning_stats.paths_cloned); I(s.cloning_stats.bbs_cloned); I(s.cloning_stats.bytes_cloned); x.n = k;
}
void read(PropellerStats& s, std::vector<int64_t>& o) {
  auto I = [&](auto f) { o.push_back((int64_t)f); };
  I(s.bbaddrmap_stats.duplicate_symbols); I(s.bbaddrmap_stats.bbaddrmap_function_does_not_have_symtab_entry); I(s.bbaddrmap_stats.hot_functions);
  I(s.profile_stats.binary_mmap_num); I(s.profile_stats.perf_file_parsed); I(s.profile_stats.br_counters_accumulated);
  auto& d = s.disassembly_stats; I(d.could_not_disassemble.absolute); I(d.could_not_disassemble.weighted); I(d.may_affect_control_flow.absolute); I(d.may_affect_control_flow.weighted); I(d.cant_affect_control_flow.absolute); I(d.cant_affect_control_flow.weighted);
  auto& c = s.cfg_stats; I(c.edges_with_same_src_sink_but_different_type); I(c.cfgs_created); I(c.cfgs_with_hot_landing_pads); I(c.nodes_created); I(c.hot_basic_blocks); I(c.hot_empty_basic_blocks);
  I(s.code_layout_stats.n_single_node_chains); I(s.code_layout_stats.n_multi_node_chains); I(s.cloning_stats.paths_cloned); I(s.cloning_stats.bbs_cloned); I(s.cloning_stats.bytes_cloned);
}
void maps(PropellerStats& s, Vals& x, int which) {
  for (int k = 0; k < 3; k++) {
    x.he[k] = which != 1 && vp_choose(2, "kind seen"); x.hw[k] = x.he[k]; x.hm[k] = which != 0 && vp_choose(2, "order seen"); x.ec[k] = x.ew[k] = x.mo[k] = 0;
    if (x.he[k]) s.cfg_stats.edges_created_by_kind[KINDS[k]] = x.ec[k] = v32();
    if (x.hw[k]) s.cfg_stats.total_edge_weight_by_kind[KINDS[k]] = x.ew[k] = (int64_t)vp_bytes(5, "weight");
    if (x.hm[k]) s.code_layout_stats.n_assemblies_by_merge_order[ORDERS[k]] = x.mo[k] = (int)v32();
  }
}
}
extern "C" void stats() {
  PropellerStats a, b; Vals x, y; each(a, x, true); each(b, y, true); int which = vp_cfg(); maps(a, x, which); maps(b, y, which);
  double fa[5], fb[5]; auto F = [](PropellerStats& s, double* f, bool set) { double* p[] = {&s.code_layout_stats.original_intra_score, &s.code_layout_stats.optimized_intra_score, &s.code_layout_stats.original_inter_score, &s.code_layout_stats.optimized_inter_score, &s.cloning_stats.score_gain}; for (int i = 0; i < 5; i++) if (set) *p[i] = f[i] = 8 * i + 1 + s.profile_stats.perf_file_parsed * 0; else f[i] = *p[i]; };
  F(a, fa, true); F(b, fb, true); for (int i = 0; i < 5; i++) { double* p[] = {&b.code_layout_stats.original_intra_score, &b.code_layout_stats.optimized_intra_score, &b.code_layout_stats.original_inter_score, &b.code_layout_stats.optimized_inter_score, &b.cloning_stats.score_gain}; *p[i] = fb[i] = 64 << i; }
  a += b; std::vector<int64_t> o, ob; read(a, o); read(b, ob); vp_assert((int)o.size() == x.n, "fields");
  for (int i = 0; i < x.n; i++) { vp_assert(o[i] == x.i[i] + y.i[i], "every count is the sum"); vp_assert(ob[i] == y.i[i], "what is added is unchanged"); }
  double f[5]; F(a, f, false); for (int i = 0; i < 5; i++) vp_assert(f[i] == fa[i] + fb[i], "every score is the sum");
  int64_t te = 0, tw = 0; size_t ne = 0, nm = 0;
  for (int k = 0; k < 3; k++) {
    auto& m = a.cfg_stats; auto e = m.edges_created_by_kind.find(KINDS[k]); auto w = m.total_edge_weight_by_kind.find(KINDS[k]); auto& q = a.code_layout_stats.n_assemblies_by_merge_order; auto z = q.find(ORDERS[k]);
    bool he = x.he[k] || y.he[k], hm = x.hm[k] || y.hm[k]; ne += he; nm += hm; te += x.ec[k] + y.ec[k]; tw += x.ew[k] + y.ew[k];
    vp_assert((e != m.edges_created_by_kind.end()) == he && (w != m.total_edge_weight_by_kind.end()) == he && (z != q.end()) == hm, "kinds of either side");
    if (he) vp_assert(e->second == x.ec[k] + y.ec[k] && w->second == x.ew[k] + y.ew[k], "edges and weights of a kind"); if (hm) vp_assert(z->second == x.mo[k] + y.mo[k], "merges of an order");
  }
  vp_assert(a.cfg_stats.edges_created_by_kind.size() == ne && a.cfg_stats.total_edge_weight_by_kind.size() == ne && a.code_layout_stats.n_assemblies_by_merge_order.size() == nm, "no other kinds");
  vp_assert(a.cfg_stats.total_edges_created() == te && a.cfg_stats.total_edge_weight_created() == tw, "totals over all kinds");
  PropellerStats::DisassemblyStats::Stat s; int64_t w1 = (int64_t)vp_bytes(6, "weight"), w2 = (int64_t)vp_bytes(6, "weight"); s.Increment(w1); s.Increment(w2); vp_assert(s.absolute == 2 && s.weighted == w1 + w2, "counted once and by weight");
  vp_observe("edges", te); vp_reach("end"); vp_must_reach("end");
}
