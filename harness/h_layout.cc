// P03: block and function layout; P02: node chains; P09: function clusters.
#include "llvm_propeller_cfg.h"
#include "llvm_propeller_chain_cluster_builder.h"
#include "llvm_propeller_code_layout.h"
#include "llvm_propeller_code_layout_scorer.h"
#include "llvm_propeller_node_chain.h"
#include "llvm_propeller_node_chain_assembly.h"
#include "llvm_propeller_node_chain_builder.h"
#include "llvm_propeller_program_cfg.h"
#include "vp.h"
#include <memory>
#include <string>
#include <vector>
using namespace devtools_crosstool_autofdo;
using llvm::object::BBAddrMap;
using MD = BBAddrMap::BBEntry::Metadata;
namespace {
typedef CFGEdge::Kind K;
const K KS[] = {K::kBranchOrFallthough, K::kCall, K::kRet};
llvm::SmallVector<llvm::StringRef, 3> nm(const char* s) { llvm::SmallVector<llvm::StringRef, 3> v; v.push_back(s); return v; }
struct ED { int f, t, k; };
const int MB = 8;
// Up to three functions: blocks 0.. of f, then of g, then of h.
struct Prog {
  int nb[3] = {}, base[3] = {}, nf = 0, n = 0, fn[MB] = {}, bb[MB] = {}, size[MB] = {}; bool pad[MB] = {}; uint64_t addr[MB] = {}; std::vector<ED> ed; std::vector<int64_t> w; std::unique_ptr<ProgramCfg> p; std::vector<CFGNode*> node; int64_t fr[MB]; int idx[3]; std::vector<const ControlFlowGraph*> cfgs;
  void blocks(int f, int count, const int* sizes) { nf = f + 1; nb[f] = count; base[f] = n; for (int i = 0; i < count; i++, n++) { fn[n] = f; bb[n] = i; size[n] = sizes[i]; addr[n] = n ? addr[n - 1] + size[n - 1] : 0x1000; } }
  void make(const int* ids, bool sections = false) {
    absl::flat_hash_map<int, std::unique_ptr<ControlFlowGraph>> cs; static const char* NM[] = {"f", "g", "h"};
    for (int f = 0; f < nf; f++) { idx[f] = ids[f]; std::vector<std::unique_ptr<CFGNode>> ns; for (int i = 0; i < nb[f]; i++) { int g = base[f] + i; ns.push_back(std::make_unique<CFGNode>(addr[g], i, 10 + i, size[g], MD{false, false, pad[g], true, false}, ids[f])); } cs.insert({ids[f], std::make_unique<ControlFlowGraph>(f == 1 && sections ? ".text.b" : ".text", ids[f], std::nullopt, nm(NM[f]), std::move(ns))}); }
    p = std::make_unique<ProgramCfg>(std::move(cs)); ControlFlowGraph* g[3]; for (int f = 0; f < nf; f++) g[f] = const_cast<ControlFlowGraph*>(p->GetCfgByIndex(ids[f])); for (int i = 0; i < n; i++) node.push_back(g[fn[i]]->nodes()[bb[i]].get());
    for (size_t i = 0; i < ed.size(); i++) g[fn[ed[i].f]]->CreateEdge(node[ed[i].f], node[ed[i].t], (int)w[i], KS[ed[i].k], sections && (fn[ed[i].f] == 1) != (fn[ed[i].t] == 1));
    cfgs = p->GetCfgs(); for (int i = 0; i < n; i++) { fr[i] = node[i]->CalculateFrequency(); }
  }
  bool hot(int i) const { for (auto& e : ed) if (e.f == i || e.t == i) return true; return false; }   // all weights are positive
  bool hotf(int f) const { for (int i = base[f]; i < base[f] + nb[f]; i++) if (hot(i)) return true; return false; }
  bool hotpads(int f) const { for (int i = base[f]; i < base[f] + nb[f]; i++) if (pad[i] && hot(i)) return true; return false; }
  int npads(int f) const { int k = 0; for (int i = base[f]; i < base[f] + nb[f]; i++) k += pad[i]; return k; }
};
struct Par { int ft = 10, fw = 1, bw = 1, fd = 1024, bd = 512; };
// 1024 times the score of an edge whose source ends d bytes before its sink (after, if negative)
int64_t score(const Par& q, const ED& e, int64_t w, int64_t d, const Prog& p) { if (e.k == 1) d += p.size[e.f] / 2; if (e.k == 2) d += p.size[e.t] / 2; if (d == 0) return e.k == 0 ? w * (q.ft * 1024) : 0; if (d > 0) return d < q.fd ? w * (q.fw * (q.fd - d) * (1024 / q.fd)) : 0; return -d < q.bd ? w * (q.bw * (q.bd + d) * (1024 / q.bd)) : 0; }
int64_t wt(const char* s) { return 1 + vp_bytes(1, s); }
void shape(Prog& p, int s, int sym = 3) {   // edges of function f
  static const ED S0[] = {{0, 1, 0}, {0, 2, 0}, {2, 3, 0}}, S1[] = {{0, 2, 0}, {2, 1, 0}, {1, 2, 0}}, S2[] = {{0, 3, 0}, {3, 2, 0}, {3, 0, 1}}, S3[] = {{1, 2, 0}, {2, 3, 0}, {3, 1, 0}}, S4[] = {{0, 3, 0}, {2, 1, 0}, {1, 1, 0}}, S5[] = {{0, 2, 0}, {0, 3, 0}, {1, 3, 0}}, S6[] = {{3, 1, 0}, {2, 1, 0}, {1, 0, 1}}, S7[] = {{0, 1, 0}, {1, 3, 0}, {0, 3, 0}}, S8[] = {{2, 3, 0}, {3, 2, 0}, {0, 2, 2}}, S9[] = {{1, 3, 0}, {3, 3, 0}, {2, 0, 1}};
  static const ED* const S[] = {S0, S1, S2, S3, S4, S5, S6, S7, S8, S9}; for (int i = 0; i < 3; i++) { p.ed.push_back(S[s][i]); p.w.push_back(i < sym ? wt("weight") : 97); }
}
}
// Options: see the table in layout()
extern "C" void layout() {
  int c = vp_cfg(), s = c % 10, o = c / 10; Prog p; static const int SZ[][4] = {{16, 8, 0, 24}, {7, 33, 12, 5}, {600, 0, 300, 16}}; p.blocks(0, 4, SZ[c % 3]); static const int SG[] = {20, 11}; p.blocks(1, 2, SG); static const int SH[] = {9}; if (o == 6 || o == 4) p.blocks(2, 1, SH);
  static const int HV[] = {7, 15, 25, 55, 56, 57, 60, 66, 67, 69, 90, 96, 97}; bool heavy = false; for (int h : HV) heavy |= h == c; int ns = o == 6 ? 1 : o >= 5 ? 2 : 3; shape(p, s, heavy && !vp_tier() ? ns - 1 : ns); auto add = [&](int f, int t, int k, int64_t w) { for (auto& e : p.ed) if (e.f == f && e.t == t) return; p.ed.push_back({f, t, k}); p.w.push_back(w); };
  add(s % 4, 4, 1, wt("calls")); if (s & 1) add(4, 5, 0, 70); if (s & 2) add(5, s % 4, 2, 90); if (p.nf > 2) { add(5, 6, 1, 100); add(6, 0, 1, 5); }
  if (vp_tier()) { int f = vp_choose(4, "from"), t = 1 + vp_choose(3, "to"); add(f, t, 0, wt("weight")); }
  bool inter = o >= 5, split = o != 2 && o != 7, reorder = o != 3 && o != 8, ccc = o != 4 && o != 9; int th = o == 1 || o == 6 ? 8 : 0; bool csplit = o != 4; if (o == 7 || o == 2) { p.pad[1] = p.pad[3] = true; } if (o == 1) p.pad[2] = true; if (o == 5) p.pad[2] = vp_anybool("landing pad");
  static const int IDS[] = {3, 8, 5}, IDR[] = {9, 4, 6}; p.make(s & 1 ? IDS : IDR);
  PropellerCodeLayoutParameters q; Par r; if (o == 1) { r.ft = 3; r.fw = 2; r.bw = 5; r.fd = 256; r.bd = 128; } q.set_fallthrough_weight(r.ft); q.set_forward_jump_weight(r.fw); q.set_backward_jump_weight(r.bw); q.set_forward_jump_distance(r.fd); q.set_backward_jump_distance(r.bd); q.set_chain_split(csplit); q.set_chain_split_threshold(th); q.set_call_chain_clustering(ccc); q.set_split_functions(split); q.set_reorder_hot_blocks(reorder); q.set_inter_function_reordering(inter); if (o == 8) q.set_cluster_merge_size_threshold(40);
  CodeLayout L(q, p.cfgs); auto out = L.OrderAll(); auto st = L.stats();
  // which blocks are placed
  std::vector<int> want; for (int i = 0; i < p.n; i++) { int f = p.fn[i]; if (p.hotf(f) && (!split && reorder || !split || p.hot(i) || (p.bb[i] == 0 && !inter) || (p.pad[i] && p.hotpads(f)))) want.push_back(i); }
  struct Cl { int f; unsigned li; std::vector<int> b; }; std::vector<Cl> cl; int seen[MB] = {}, last = -1; std::vector<int> cold;
  for (auto& i : out) { vp_assert(i.function_index > last, "functions are in order"); last = i.function_index; int f = 0; while (f < p.nf && p.idx[f] != i.function_index) f++; vp_assert(f < p.nf, "a function of the program"); if (f >= p.nf) return; int pb = -1; vp_assert(!i.clusters.empty(), "a function with clusters"); for (auto& k : i.clusters) { Cl x{f, k.layout_index, {}}; vp_assert(!k.full_bb_ids.empty(), "no empty clusters"); for (auto& b : k.full_bb_ids) { int n = b.intra_cfg_id.bb_index; vp_assert(n >= 0 && n < p.nb[f] && b.bb_id == 10 + n && b.intra_cfg_id.clone_number == 0, "a block of the function"); x.b.push_back(p.base[f] + n); seen[p.base[f] + n]++; } vp_assert(k.full_bb_ids.empty() || k.full_bb_ids[0].bb_id > pb, "clusters are in order of their first blocks"); if (k.full_bb_ids.size()) pb = k.full_bb_ids[0].bb_id; cl.push_back(x); } }
  for (int i = 0; i < p.n; i++) { bool w = false; for (int x : want) w |= x == i; vp_assert(seen[i] == w, "every hot block, and no other, is placed once"); }
  std::vector<Cl*> ord(cl.size(), nullptr); for (auto& x : cl) { vp_assert(x.li < cl.size() && !ord[x.li], "layout indices are a permutation"); if (x.li >= cl.size() || ord[x.li]) return; ord[x.li] = &x; }
  std::vector<int> seq; int pos[MB]; for (int i = 0; i < MB; i++) pos[i] = -1; std::vector<int> firsts; for (size_t i = 0; i < ord.size(); i++) { for (size_t j = 0; j < ord[i]->b.size(); j++) { int b = ord[i]->b[j]; pos[b] = (int)seq.size(); seq.push_back(b); vp_assert(p.bb[b] != 0 || j == 0, "an entry starts its cluster"); } bool had = false; for (int f : firsts) had |= f == ord[i]->f; if (!had) firsts.push_back(ord[i]->f); vp_assert(i == 0 || ord[i]->f != ord[i - 1]->f || p.bb[ord[i]->b[0]] == 0, "clusters of a function are joined unless its entry starts one"); if (!inter) vp_assert(!had && p.bb[ord[i]->b[0]] == 0, "one cluster per function from its entry"); }
  for (auto& i : out) { int rank = -1; for (size_t k = 0; k < firsts.size(); k++) if (p.idx[firsts[k]] == i.function_index) rank = (int)k; vp_assert((int)i.cold_cluster_layout_index == rank, "cold parts follow the order of the hot ones"); }
  // scores of the two layouts
  int64_t at[MB], off = 0; for (int b : seq) { at[b] = off; off += p.size[b]; } int64_t sum[4] = {};
  for (auto& i : out) { int64_t oi = 0, oo = 0, ni = 0, no = 0; for (size_t k = 0; k < p.ed.size(); k++) { auto& e = p.ed[k]; if (p.idx[p.fn[e.f]] != i.function_index || e.k == 2) continue; int64_t od = (int64_t)(p.addr[e.t] - p.addr[e.f]) - p.size[e.f], nd = at[e.t] - at[e.f] - p.size[e.f]; int64_t os = score(r, e, p.w[k], od, p), ns = score(r, e, p.w[k], nd, p); if (p.fn[e.f] == p.fn[e.t]) { oi += os; ni += ns; } else { oo += os; no += ns; } }
    vp_assert(i.original_score.intra_score * 1024 == (double)oi && i.original_score.inter_out_score * 1024 == (double)oo, "score of the original layout"); vp_assert(i.optimized_score.intra_score * 1024 == (double)ni && i.optimized_score.inter_out_score * 1024 == (double)no, "score of the new layout"); sum[0] += oi; sum[1] += ni; sum[2] += oo; sum[3] += no; }
  vp_assert(st.original_intra_score * 1024 == (double)sum[0] && st.optimized_intra_score * 1024 == (double)sum[1] && st.original_inter_score * 1024 == (double)sum[2] && st.optimized_inter_score * 1024 == (double)sum[3], "sums of the scores");
  // blocks that only run one after the other stay together
  if (reorder) { int nx[MB]; for (int u = 0; u < p.n; u++) { nx[u] = -1; int outs = 0, v = -1; for (auto& e : p.ed) if (e.f == u && e.k == 0 && p.fn[e.f] == p.fn[e.t]) { outs++; v = e.t; } if (outs != 1) continue; int ins = 0; for (auto& e : p.ed) ins += e.t == v && e.k == 0 && p.fn[e.f] == p.fn[e.t]; if (ins == 1) nx[u] = v; }
    for (int u = 0; u < p.n; u++) if (nx[u] >= 0) { int len = 1, x = nx[u]; while (x >= 0 && x != u && len <= p.n) { x = nx[x]; len++; } if (x == u) { int cuts = 0; for (int y = u, k = 0; k < len; k++, y = nx[y]) cuts += pos[nx[y]] != pos[y] + 1; vp_assert(cuts == 1, "a cycle of blocks is cut once"); } else vp_assert(pos[nx[u]] == pos[u] + 1, "a block follows its only predecessor"); } }
  else for (size_t i = 0; i + 1 < seq.size(); i++) if (p.fn[seq[i]] == p.fn[seq[i + 1]] && (p.hot(seq[i]) == p.hot(seq[i + 1]) || split)) vp_assert(seq[i] < seq[i + 1], "hot blocks keep their order");
  if (!split && !inter) for (int a : seq) for (int b : seq) if (p.fn[a] == p.fn[b] && !p.hot(a) && p.bb[a] != 0 && !p.hotpads(p.fn[a]) && p.hot(b)) vp_assert(pos[a] > pos[b], "cold blocks come after the hot ones");
  if (!inter && !ccc) for (size_t i = 0; i + 1 < firsts.size(); i++) vp_assert(p.idx[firsts[i]] < p.idx[firsts[i + 1]], "functions keep their order");
  vp_observe("clusters", cl.size()); vp_reach("end"); vp_must_reach("end");
}

// P02: every step of building chains merges the two chains, in the order, that gain the most.
namespace {
struct Bn { const CFGNodeBundle* b; std::vector<int> n; };
struct Ch { NodeChain* c; std::vector<Bn> b; int64_t score = 0; };
struct Steps {
  Prog& p; Par r; bool inter, csplit; int th; NodeChainBuilder& B; std::vector<Ch> ch; const CFGNodeBundle* of[MB] = {};
  int num(const CFGNode* n) { for (int i = 0; i < p.n; i++) if (p.node[i] == n) return i; return -1; }
  bool visited(const ED& e) { return e.k != 2 && (e.k != 1 || (inter && p.nf > 1)); }
  int64_t total(const std::vector<Bn>& v) { int64_t at[MB], off = 0, s = 0; bool in[MB] = {}; for (auto& b : v) for (int n : b.n) { at[n] = off; off += p.size[n]; in[n] = true; } for (size_t i = 0; i < p.ed.size(); i++) { auto& e = p.ed[i]; if (!visited(e) || !in[e.f] || !in[e.t] || of[e.f] == of[e.t]) continue; s += score(r, e, p.w[i], at[e.t] - at[e.f] - p.size[e.f], p); } return s; }
  // the state of the chains: consistent sizes, frequencies, offsets and scores
  void check() {
    ch.clear(); int seen[MB] = {}; for (auto& b : of) b = nullptr; int single = 0;
    for (auto& [id, c] : B.chains()) { Ch x{c.get(), {}}; vp_assert(c->id() == id, "a chain has its own number"); int size = 0, k = 0; int64_t fr = 0; for (auto& b : c->node_bundles()) { Bn y{b.get(), {}}; int bs = 0; int64_t bf = 0; vp_assert(b->chain_mapping().chain == c.get() && b->chain_mapping().chain_index == k++ && b->chain_mapping().chain_offset == size, "place of a bundle"); for (auto* n : b->nodes()) { int i = num(n); vp_assert(i >= 0, "a block of the program"); if (i < 0) return; y.n.push_back(i); seen[i]++; of[i] = b.get(); auto& m = B.node_to_bundle_mapper().GetBundleMappingEntry(n); vp_assert(m.bundle == b.get() && m.GetNodeOffset() == size, "place of a block"); size += p.size[i]; bs += p.size[i]; bf += p.fr[i]; } vp_assert(b->size() == bs && b->freq() == bf, "size and frequency of a bundle"); fr += bf; x.b.push_back(y); } vp_assert(c->size() == size && c->freq() == fr, "size and frequency of a chain"); ch.push_back(x); }
    for (int i = 0; i < p.n; i++) vp_assert(seen[i] <= 1, "a block is in one chain");
    bool ok = true; for (auto& x : ch) { x.score = total(x.b); ok &= x.c->score() * 1024 == (double)(int)x.score; } vp_assert(ok, "score of a chain");
  }
  int64_t gain(const Ch& s, const Ch& u, ChainMergeOrder o, int pos, bool* fits) { std::vector<Bn> v, a(s.b.begin(), s.b.begin() + pos), z(s.b.begin() + pos, s.b.end()); auto put = [&](const std::vector<Bn>& x) { for (auto& b : x) v.push_back(b); }; switch (o) { case ChainMergeOrder::kSU: put(s.b); put(u.b); break; case ChainMergeOrder::kS1US2: put(a); put(u.b); put(z); break; case ChainMergeOrder::kS2S1U: put(z); put(a); put(u.b); break; case ChainMergeOrder::kUS2S1: put(u.b); put(z); put(a); break; case ChainMergeOrder::kS2US1: put(z); put(u.b); put(a); break; }
    *fits = inter || (p.bb[s.b[0].n[0]] != 0 && p.bb[u.b[0].n[0]] != 0) || p.bb[v[0].n[0]] == 0; return total(v) - s.score - u.score; }
  bool joined(const Ch& s, const Ch& u) { for (auto& e : p.ed) { if (!visited(e)) continue; bool fs = false, tu = false, fu = false, ts = false; for (auto& b : s.b) for (int n : b.n) { fs |= n == e.f; ts |= n == e.t; } for (auto& b : u.b) for (int n : b.n) { fu |= n == e.f; tu |= n == e.t; } if ((fs && tu) || (fu && ts)) return true; } return false; }
  // whether an assembly is the best of the candidates; without one, whether no candidate gains anything
  void best(const NodeChainAssembly* a) {
    int64_t g = 0; if (a) { Ch *s = nullptr, *u = nullptr; for (auto& x : ch) { if (x.c == &a->split_chain()) s = &x; if (x.c == &a->unsplit_chain()) u = &x; } vp_assert(s && u && s != u, "two chains are merged"); if (!s || !u) return; bool fits; g = gain(*s, *u, a->merge_order(), a->slice_pos().value_or(0), &fits); vp_assert(fits, "an entry stays first"); vp_assert(a->score_gain() * 1024 == (double)(int)g, "gain of a merge"); vp_assert(a->score_gain() > 0, "a merge gains something"); }
    bool ok = true; static const ChainMergeOrder O[] = {ChainMergeOrder::kS1US2, ChainMergeOrder::kS2S1U, ChainMergeOrder::kUS2S1, ChainMergeOrder::kS2US1};
    for (auto& s : ch) for (auto& u : ch) { if (&s == &u || !joined(s, u)) continue; bool fits; int64_t x = gain(s, u, ChainMergeOrder::kSU, 0, &fits); if (fits) ok &= x <= g; if (!csplit) continue; int n = (int)s.b.size();
      for (int pos = 1; pos < n; pos++) for (int o = 0; o < 4; o++) { bool tried = n <= th; if (!tried) for (auto& e : p.ed) { if (!visited(e)) continue; bool last = u.b.back().n.back() == e.f && s.b[pos].n[0] == e.t, first = u.b[0].n[0] == e.t && s.b[pos - 1].n.back() == e.f; tried |= (last && (o == 0 || o == 2)) || (first && (o == 0 || o == 1)); } if (!tried) continue; x = gain(s, u, O[o], pos, &fits); if (fits) ok &= x <= g; } }
    vp_assert(ok, a ? "the best merge is made" : "no merge is left that gains anything");
  }
};
}
extern "C" void chains() {
  int c = vp_cfg(), s = c % 10, o = c / 10; Prog p; static const int SZ[][4] = {{16, 8, 0, 24}, {7, 33, 12, 5}, {600, 0, 300, 16}}; p.blocks(0, 4, SZ[(c + o) % 3]); static const int SG[] = {20, 11}; bool inter = o == 3 || o == 4; if (inter) p.blocks(1, 2, SG);
  static const int HV[] = {30, 35, 36, 37, 45, 46, 47}; bool heavy = false; for (int h : HV) heavy |= h == c; shape(p, s, inter ? heavy && !vp_tier() ? c == 36 ? 0 : 1 : 2 : 3); auto add = [&](int f, int t, int k, int64_t w) { for (auto& e : p.ed) if (e.f == f && e.t == t) return; p.ed.push_back({f, t, k}); p.w.push_back(w); };
  if (inter) { add(s % 4, 4, 1, wt("calls")); if (s & 1) add(4, 5, 0, 70); if (s & 2) add(5, (s + 1) % 4, 1, 30); } else { static const ED X[] = {{1, 2, 0}, {3, 1, 0}, {2, 1, 0}, {1, 3, 0}, {0, 1, 0}, {2, 3, 0}, {1, 2, 0}, {3, 2, 0}, {3, 1, 0}, {1, 2, 0}}; add(X[s].f, X[s].t, 0, 60); }
  bool csplit = o != 2; int th = o == 0 || o == 3 ? 8 : 0; static const int IDS[] = {3, 8, 5}, IDR[] = {9, 4, 6}; p.make(s & 1 ? IDS : IDR);
  PropellerCodeLayoutParameters q; Par r; q.set_fallthrough_weight(r.ft); q.set_forward_jump_weight(r.fw); q.set_backward_jump_weight(r.bw); q.set_forward_jump_distance(r.fd); q.set_backward_jump_distance(r.bd); q.set_chain_split(csplit); q.set_chain_split_threshold(th); q.set_call_chain_clustering(true); q.set_split_functions(true); q.set_reorder_hot_blocks(true); q.set_inter_function_reordering(inter);
  PropellerCodeLayoutScorer scorer(q); PropellerStats::CodeLayoutStats st; absl::flat_hash_map<int, std::vector<std::vector<CFGNode::IntraCfgId>>> init; if (o == 5) { std::vector<std::vector<CFGNode::IntraCfgId>> v = {{{0, 0}, {2, 0}}, {{3, 0}, {1, 0}}}; init[p.idx[0]] = v; init[77] = {}; }
  auto run = [&](NodeChainBuilder B) {
    B.InitNodeChains(); Steps S{p, r, inter, csplit, th, B}; int single = 0, multi = 0, made[5] = {}; for (auto& [i, x] : B.chains()) { int n = 0; for (auto& b : x->node_bundles()) n += (int)b->nodes().size(); (n > 1 ? multi : single)++; } vp_assert(st.n_single_node_chains == single && st.n_multi_node_chains == multi, "initial chains are counted");
    if (o == 5) { vp_assert(B.chains().size() == 2, "given chains"); auto a = B.chains().find({p.idx[0], {0, 0}}), b = B.chains().find({p.idx[0], {3, 0}}); vp_assert(a != B.chains().end() && b != B.chains().end() && a->second->node_bundles().size() == 2 && a->second->GetLastNode() == p.node[2] && b->second->GetLastNode() == p.node[1], "given chains"); }
    B.InitChainEdges(); B.InitChainAssemblies(); S.check(); int steps = 0;
    while (!B.node_chain_assemblies().empty() && steps < 8) { NodeChainAssembly a = B.node_chain_assemblies().GetBestAssembly(); S.best(&a); made[(int)a.merge_order()]++; size_t n = B.chains().size(); B.MergeChains(a); vp_assert(B.chains().size() + 1 == n, "two chains become one"); S.check(); steps++; }
    S.best(nullptr); vp_assert(steps < 8, "merging ends");
    if (!inter && !B.chains().empty()) { std::vector<Ch*> v; for (auto& x : S.ch) { auto before = [&](Ch& a, Ch& b) { if (p.bb[b.b[0].n[0]] == 0) return false; if (p.bb[a.b[0].n[0]] == 0) return true; int64_t u = (int64_t)a.c->freq() * (b.c->size() > 1 ? b.c->size() : 1), w = (int64_t)b.c->freq() * (a.c->size() > 1 ? a.c->size() : 1); return u != w ? u > w : a.c->id() < b.c->id(); }; size_t i = 0; while (i < v.size() && before(*v[i], x)) i++; v.insert(v.begin() + i, &x); } std::vector<int> want; for (auto* x : v) for (auto& b : x->b) for (int n : b.n) want.push_back(n); made[0] += (int)v.size() - 1;
      B.CoalesceChains(); S.check(); vp_assert(B.chains().size() == 1, "one chain"); size_t k = 0; bool same = true; for (auto& b : S.ch[0].b) for (int n : b.n) { same &= k < want.size() && want[k] == n; k++; } vp_assert(same && k == want.size(), "chains follow the entry in order of density"); }
    for (int i = 0; i < 5; i++) { auto it = st.n_assemblies_by_merge_order.find((ChainMergeOrder)i); vp_assert((it == st.n_assemblies_by_merge_order.end() ? 0 : it->second) == made[i], "merges are counted"); }
    vp_observe("steps", steps);
  };
  if (inter) run(NodeChainBuilder::CreateNodeChainBuilder<NodeChainAssemblyBalancedTreeQueue>(scorer, p.cfgs, init, st)); else run(NodeChainBuilder::CreateNodeChainBuilder<NodeChainAssemblyIterativeQueue>(scorer, p.cfgs, init, st));
  vp_reach("end"); vp_must_reach("end");
}

// P09: chains of calls are joined into clusters.
extern "C" void clusters() {
  int c = vp_cfg(), s = c % 8, o = c / 8; Prog p; static const int SZ[][4] = {{16, 8, 0, 24}, {70, 33, 12, 5}, {600, 0, 300, 16}, {4, 4, 4, 900}}, SG[][2] = {{20, 11}, {0, 40}, {8, 8}, {5000, 100}}, SH[] = {9, 90, 1, 2000}; p.blocks(0, 4, SZ[s % 4]); p.blocks(1, 2, SG[(s + o) % 4]); p.blocks(2, 1, &SH[(s + o / 2) % 4]);
  bool inter = o & 1; int cap = o == 2 || o == 3 ? 45 : 1 << 21; bool ccc = o != 6 && o != 7, sect = o == 4 || o == 5;
  static const ED E[][6] = {{{0, 4, 1}, {2, 6, 1}, {5, 6, 1}, {6, 0, 1}, {0, 2, 0}, {4, 1, 2}}, {{4, 0, 1}, {4, 6, 1}, {6, 4, 1}, {3, 4, 1}, {1, 3, 0}, {6, 5, 2}}, {{6, 0, 1}, {6, 4, 1}, {1, 4, 1}, {0, 6, 1}, {2, 1, 0}, {0, 3, 0}}, {{0, 6, 1}, {4, 6, 0}, {6, 6, 1}, {5, 0, 1}, {3, 1, 0}, {4, 5, 0}}, {{3, 4, 1}, {4, 6, 1}, {0, 3, 0}, {1, 2, 0}, {6, 3, 2}, {2, 4, 1}}, {{0, 4, 1}, {4, 0, 1}, {0, 6, 1}, {6, 4, 1}, {2, 3, 0}, {0, 1, 0}}, {{1, 0, 1}, {5, 4, 1}, {2, 4, 1}, {5, 0, 1}, {0, 6, 2}, {0, 2, 0}}, {{2, 6, 1}, {3, 6, 1}, {4, 6, 1}, {1, 4, 1}, {0, 1, 0}, {1, 2, 0}}};
  static const int K[] = {97, 40, 255}; for (int i = 0; i < 6; i++) { p.ed.push_back(E[s][i]); p.w.push_back(i < (vp_tier() ? 4 : 3) ? (int64_t)vp_bytes(1, "weight") * (i == 1 ? 4 : 1) : K[i - 3]); }
  static const int IDS[] = {3, 8, 5}, IDR[] = {9, 4, 6}; p.make(s & 1 ? IDS : IDR, sect); PropellerCodeLayoutParameters q; q.set_call_chain_clustering(ccc); q.set_inter_function_reordering(inter); q.set_cluster_merge_size_threshold(cap);
  static const int WHOLE[][5] = {{0, 2, 3, 1, -1}, {4, 5, -1}, {6, -1}}, SPLIT[][5] = {{0, 2, -1}, {4, 5, -1}, {3, 1, -1}, {6, -1}}; int nc = inter ? 4 : 3, of[MB], chn[4][4], len[4] = {}; std::vector<std::unique_ptr<const NodeChain>> v;
  struct Cl { std::vector<int> ch; int64_t size = 0, fr = 0; int id = 0; bool gone = false; } cl[4]; int64_t to[4] = {}, cs[4] = {}, cf[4] = {}; int at[4];
  for (int i = 0; i < nc; i++) { const int* x = inter ? SPLIT[i] : WHOLE[i]; std::vector<const CFGNode*> ns; for (; *x >= 0; x++) { ns.push_back(p.node[*x]); chn[i][len[i]++] = *x; of[*x] = i; cs[i] += p.size[*x]; cf[i] += p.fr[*x]; } v.push_back(std::make_unique<const NodeChain>(std::move(ns), i & 1 ? NodeChain::BundleMode::kBundleEachSingleNode : NodeChain::BundleMode::kBundleAllNodesTogether)); cl[i].ch = {i}; cl[i].size = cs[i]; cl[i].fr = cf[i]; cl[i].id = p.idx[p.fn[chn[i][0]]] * 100 + p.bb[chn[i][0]]; at[i] = i; vp_assert(v[i]->size() == cs[i] && v[i]->freq() == cf[i], "size and frequency of a chain"); }
  auto skip = [&](const ED& e) { return e.k == 2 || (sect && (p.fn[e.f] == 1) != (p.fn[e.t] == 1)); };
  for (size_t i = 0; i < p.ed.size(); i++) { auto& e = p.ed[i]; if (!skip(e) && of[e.f] != of[e.t]) to[of[e.t]] += p.w[i]; }
  auto out = ChainClusterBuilder(q, std::move(v)).BuildClusters(); std::vector<int> ord, fin;
  if (ccc) {
    for (int i = 0; i < nc; i++) { if (to[i] == 0) continue; size_t k = 0; while (k < ord.size() && (to[ord[k]] != to[i] ? to[ord[k]] > to[i] : cl[ord[k]].id < cl[i].id)) k++; ord.insert(ord.begin() + k, i); }
    for (int i : ord) { if (cf[i] * 200 < (cs[i] > 1 ? cs[i] : 1)) continue; Cl& me = cl[at[i]]; if (me.size > cap) continue; int64_t from[4] = {}; bool any[4] = {};
      for (size_t k = 0; k < p.ed.size(); k++) { auto& e = p.ed[k]; if (of[e.t] != i || (!inter && e.t != chn[i][0]) || skip(e)) continue; if (p.w[k] == 0 || p.w[k] * 10 < p.fr[e.t]) continue; int b = at[of[e.f]]; if (b == at[i]) continue; Cl& x = cl[b]; if (x.size > cap || 8 * x.size * (me.fr + x.fr) < x.fr * (me.size + x.size)) continue; from[b] += p.w[k]; any[b] = true; }
      int b = -1; for (int k = 0; k < nc; k++) if (any[k] && (b < 0 || (from[k] != from[b] ? from[k] > from[b] : cl[k].id > cl[b].id))) b = k; if (b < 0) continue; int old = at[i]; for (int y : me.ch) { cl[b].ch.push_back(y); at[y] = b; } cl[b].size += me.size; cl[b].fr += me.fr; cl[old].gone = true; }
  }
  for (int i = 0; i < nc; i++) { if (cl[i].gone) continue; size_t k = 0; auto first = [&](Cl& a, Cl& b) { int64_t u = a.fr * (b.size > 1 ? b.size : 1), w = b.fr * (a.size > 1 ? a.size : 1); return ccc && u != w ? u > w : a.id < b.id; }; while (k < fin.size() && first(cl[fin[k]], cl[i])) k++; fin.insert(fin.begin() + k, i); }
  vp_assert(out.size() == fin.size(), "number of clusters"); if (out.size() != fin.size()) return;
  for (size_t i = 0; i < fin.size(); i++) { Cl& x = cl[fin[i]]; std::vector<int> got, want; out[i]->VisitEachNodeRef([&](const CFGNode& n) { for (int k = 0; k < p.n; k++) if (p.node[k] == &n) got.push_back(k); }); for (int y : x.ch) for (int k = 0; k < len[y]; k++) want.push_back(chn[y][k]); vp_assert(got == want, "a cluster joins callers with their callees"); vp_assert(out[i]->size() == x.size && out[i]->freq() == x.fr, "size and frequency of a cluster"); vp_assert(out[i]->exec_density() == (double)(int)x.fr / (double)(x.size > 1 ? x.size : 1), "density"); }
  vp_observe("clusters", fin.size()); vp_reach("end"); vp_must_reach("end");
}
