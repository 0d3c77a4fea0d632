// P01: control flow graphs; P05: the graph built from branch counts.
#include "branch_aggregation.h"
#include "llvm_propeller_binary_address_mapper.h"
#include "llvm_propeller_cfg.h"
#include "llvm_propeller_program_cfg.h"
#include "llvm_propeller_program_cfg_builder.h"
#include "vp.h"
#include <memory>
#include <string>
#include <vector>
using namespace devtools_crosstool_autofdo;
using llvm::object::BBAddrMap;
using MD = BBAddrMap::BBEntry::Metadata;
namespace {
typedef CFGEdge::Kind K;
const K KS[] = {K::kBranchOrFallthough, K::kCall, K::kRet};
struct RE { int f, t; int64_t w; int kinds; };   // reference edge between global block numbers; mask of kinds
int64_t mx(int64_t a, int64_t b) { return a > b ? a : b; }
// how often a block runs: the heaviest of its calls, of the returns to it, and the sums of jumps out and entries
int64_t freq(const std::vector<RE>& es, int n) { int64_t co = 0, ri = 0, in = 0, out = 0; for (auto& e : es) { if (e.f == n) { if (e.kinds == 2) co = mx(co, e.w); else out += e.w; } if (e.t == n) { if (e.kinds == 4) ri = mx(ri, e.w); else in += e.w; } } return mx(mx(co, ri), mx(in, out)); }
RE* find(std::vector<RE>& es, int f, int t) { for (auto& e : es) if (e.f == f && e.t == t) return &e; return nullptr; }
llvm::SmallVector<llvm::StringRef, 3> nm(const char* s) { llvm::SmallVector<llvm::StringRef, 3> v; v.push_back(s); return v; }
struct Blk { int fn, bb; uint64_t a; int size; bool ret, ft, pad; };
const BinaryAddressMapper* gm;
}
extern "C" void builder() {
  int c = vp_cfg(), mode = c % 3, first = c / 3 % 6, shape = c / 18; const int NB = 5; static const int FN[] = {0, 0, 0, 1, 1}; std::vector<Blk> b; std::vector<BBAddrMap> maps; std::vector<BbHandle> hs; absl::btree_set<int> sel; absl::flat_hash_map<int, BinaryAddressMapper::FunctionSymbolInfo> sym;
  bool other = shape & 1;   // the functions are in different sections
  for (int i = 0; i < NB; i++) {
    int f = FN[i], bb = f ? i - 3 : i; uint64_t a = 0x1000 + i * 16 + f * 64; if (bb == 0) { BBAddrMap m; m.BBRanges.emplace_back(); m.BBRanges[0].BaseAddress = a; maps.push_back(m); sel.insert(f); sym[f].section_name = f && other ? ".text.b" : ".text"; sym[f].aliases.push_back(f ? "g" : "f"); }
    bool known = i == 2 || i == 4; Blk k{f, bb, a, i == 1 ? 16 : 16, i == 2 ? true : vp_anybool("returns"), i == 2 ? false : vp_anybool("falls through"), i == 1}; (void)known;
    maps[f].BBRanges[0].BBEntries.emplace_back(20 + bb, (uint32_t)(a - maps[f].BBRanges[0].BaseAddress), k.size, MD{k.ret, false, k.pad, k.ft, false}); hs.push_back({f, bb}); b.push_back(k);
  }
  BinaryAddressMapper m(sel, maps, hs, sym); BranchAggregation ag; std::vector<RE> es; int64_t ft[NB][NB] = {}; bool fta[NB][NB] = {}; int64_t byKind[3] = {}, dubious = 0, total = 0; int recorded = 0, made = 0;
  auto add = [&](int f, int t, int64_t w, int kind) { byKind[kind] += w; RE* e = find(es, f, t); if (!e) { es.push_back({f, t, 0, 0}); e = &es.back(); made++; } e->w += w; e->kinds |= 1 << kind; };
  auto blk = [&](uint64_t a) { for (int i = 0; i < NB; i++) if (a >= b[i].a && a < b[i].a + 16) return i; return -1; };
  int nb = mode == 0 ? 2 : mode == 1 ? 1 : 0, nf = mode == 0 ? 0 : mode == 1 ? 1 + vp_tier() : 2;
  for (int i = 0; i < nb; i++) {
    int fi = i == 0 ? first : vp_choose(NB + 1, "from"); uint64_t from = fi == NB ? 0x9000 : b[fi].a + 12; int ti = vp_choose(NB + (i == 0), "to"); uint64_t to = ti == NB ? 0x9000 : b[ti].a + (vp_choose(2, "inside") ? 4 : 0); int64_t w = 1 + vp_bytes(3, "count"); if (ag.branch_counters.find({.from = from, .to = to}) != ag.branch_counters.end()) vp_stop();
    ag.branch_counters[{.from = from, .to = to}] = w; recorded++; int fb = blk(from), tb = blk(to); if (tb < 0) continue; uint64_t start = b[tb].fn ? b[3].a : b[0].a; bool call = to == start;
    if ((fb < 0 || b[fb].ret || b[fb].fn != b[tb].fn) && !call && to == b[tb].a) { ft[tb - 1][tb] += w; fta[tb - 1][tb] = true; tb--; }   // back from a call that ends a block
    if (fb < 0) continue; if (!b[fb].ret && b[tb].a != to) dubious += w; total += w; add(fb, tb, w, call ? 1 : to != b[tb].a || b[fb].ret ? 2 : 0);
  }
  for (int i = 0; i < nf; i++) {
    int fi = i == 0 ? first : vp_choose(NB + 1, "from"), ti = vp_choose(NB + (i == 0), "to"); uint64_t from = fi == NB ? 0x9000 : b[fi].a + 4 * (i & 1), to = ti == NB ? 0x9000 : b[ti].a + 12; int64_t w = 1 + vp_bytes(3, "count"); if (ag.fallthrough_counters.find({.from = from, .to = to}) != ag.fallthrough_counters.end()) vp_stop();
    ag.fallthrough_counters[{.from = from, .to = to}] = w; int fb = blk(from), tb = blk(to); if (fb >= 0 && tb >= 0) { ft[fb][tb] += w; fta[fb][tb] = true; }
  }
  bool bad = recorded > 0 && (dubious * 10 > total * 3 || made == 0);
  for (int f = 0; f < NB; f++) for (int t = f + 1; t < NB; t++) if (fta[f][t] && b[f].fn == b[t].fn) { bool can = true; for (int i = f; i < t && can; i++) can = b[i].ft; if (can) for (int i = f; i < t; i++) add(i, i + 1, ft[f][t], 0); }
  // an earlier graph of the first function to add to
  bool pre = shape & 2; int64_t w0 = 0; std::unique_ptr<ProgramCfg> old; PropellerStats st; 
  if (pre) { std::vector<std::unique_ptr<CFGNode>> ns; for (int i = 0; i < 3; i++) ns.push_back(std::make_unique<CFGNode>(b[i].a, i, 20 + i, b[i].size, maps[0].getBBEntries()[i].MD, 0)); absl::flat_hash_map<int, std::unique_ptr<ControlFlowGraph>> cs; cs.insert({0, std::make_unique<ControlFlowGraph>(".text", 0, std::nullopt, nm("f"), std::move(ns))}); old = std::make_unique<ProgramCfg>(std::move(cs)); }
  auto r = ProgramCfgBuilder(&m, st, std::move(old)).Build(ag, nullptr);
  vp_assert(r.ok() == !bad, "refused only if too many jumps go astray, or none is usable"); if (!r.ok()) { vp_reach("refused"); return; }
  ProgramCfg& p = **r; int hot = 0, pads = 0, cfgs = 0; size_t edges = 0, inter = 0; bool hotf[2] = {};
  for (int i = 0; i < NB; i++) { bool h = false; for (auto& e : es) h |= e.f == i || e.t == i; if (h) { hot++; if (b[i].pad) pads++; hotf[b[i].fn] = true; } }
  for (auto* g : p.GetCfgs()) { int fn = g->function_index(); vp_assert(fn == 0 || fn == 1, "function"); vp_assert(cfgs == 0 || fn == 1, "in order"); cfgs++; vp_assert(p.GetCfgByIndex(fn) == g, "by index"); vp_assert(g->GetPrimaryName() == (fn ? "g" : "f") && g->section_name() == (fn && other ? ".text.b" : ".text"), "name and section"); edges += g->intra_edges().size(); inter += g->inter_edges().size(); vp_assert(g->nodes().size() == (fn ? 2u : 3u), "blocks"); for (size_t i = 0; i < g->nodes().size(); i++) { const Blk& k = b[i + 3 * fn]; CFGNode& n = *g->nodes()[i]; vp_assert(n.addr() == k.a && n.bb_index() == (int)i && n.bb_id() == 20 + (int)i && n.size() == k.size && n.has_return() == k.ret && n.can_fallthrough() == k.ft && n.is_landing_pad() == k.pad && n.node_index() == (int)i && !n.is_cloned(), "block"); } }
  for (int f = 0; f < 2; f++) vp_assert((p.GetCfgByIndex(f) != nullptr) == hotf[f], "functions with counts are kept");
  vp_assert(edges + inter == es.size(), "number of edges");
  for (auto& e : es) {
    ControlFlowGraph* g = const_cast<ControlFlowGraph*>(p.GetCfgByIndex(b[e.f].fn)); const ControlFlowGraph* h = p.GetCfgByIndex(b[e.t].fn); if (!g || !h) return; CFGNode &n = *g->nodes()[b[e.f].bb], &t = *h->nodes()[b[e.t].bb]; CFGEdge* x = nullptr; int found = 0; for (K k : KS) if (CFGEdge* y = n.GetEdgeTo(t, k)) { x = y; found++; vp_assert(e.kinds >> (k == K::kCall ? 1 : k == K::kRet ? 2 : 0) & 1, "kind of an edge"); } vp_assert(found == 1, "one edge"); if (!x) return;
    vp_assert(x->weight() == e.w, "weight of an edge"); bool same = b[e.f].fn == b[e.t].fn; vp_assert(x->inter_section() == (!same && other), "between sections"); int k = 0; for (auto* y : same ? t.intra_ins() : t.inter_ins()) k += y == x; for (auto* y : same ? n.intra_outs() : n.inter_outs()) k += y == x; for (auto& y : same ? g->intra_edges() : g->inter_edges()) k += y.get() == x; vp_assert(k == 3, "both ends and the graph know an edge");
  }
  bool clear = true; for (auto& e : es) clear &= (e.kinds & (e.kinds - 1)) == 0;
  if (clear) for (int i = 0; i < NB; i++) if (auto* g = p.GetCfgByIndex(b[i].fn)) vp_assert(g->nodes()[b[i].bb]->CalculateFrequency() == freq(es, i), "frequency of a block");
  vp_assert(st.cfg_stats.total_edges_created() == (int64_t)es.size(), "edges are counted"); for (int k = 0; k < 3; k++) { auto it = st.cfg_stats.total_edge_weight_by_kind.find(KS[k]); vp_assert((it == st.cfg_stats.total_edge_weight_by_kind.end() ? 0 : it->second) == byKind[k], "weights are counted"); }
  vp_assert(st.cfg_stats.hot_basic_blocks == hot && st.cfg_stats.hot_empty_basic_blocks == 0 && st.cfg_stats.cfgs_with_hot_landing_pads == (pads > 0), "hot blocks are counted"); vp_assert(st.cfg_stats.cfgs_created == (pre ? 1 : 2) && st.cfg_stats.nodes_created == (pre ? 2 : 5), "graphs are counted");
  vp_observe("edges", es.size()); vp_reach("built"); if (mode != 1 || first < NB) vp_must_reach("built");
}

// Edges, frequencies and hot blocks of graphs with any edges.
extern "C" void graph() {
  int cc = vp_cfg(), t0 = cc % 5, mode = cc / 10, c = (cc / 5 & 1 ? 3 : 0) | (t0 & 1) << 2, ne = 3 + vp_tier(); const int NB = 5; static const int FN[] = {0, 0, 0, 1, 1}; bool pad[NB]; int size[NB]; absl::flat_hash_map<int, std::unique_ptr<ControlFlowGraph>> cs;
  int ids[2] = {c & 1 ? 9 : 3, c & 1 ? 4 : 8};
  for (int f = 0; f < 2; f++) { std::vector<std::unique_ptr<CFGNode>> ns; for (int i = 0; i < (f ? 2 : 3); i++) { int g = i + 3 * f; pad[g] = i == 1 && vp_anybool("landing pad"); size[g] = i == 1 ? 0 : 7 + i; ns.push_back(std::make_unique<CFGNode>(0x1000 + g * 16, i, 20 + i, size[g], MD{false, false, pad[g], true, false}, ids[f])); } cs.insert({ids[f], std::make_unique<ControlFlowGraph>(f && (c & 2) ? ".text.b" : ".text", ids[f], std::nullopt, nm(f ? "g" : "f"), std::move(ns))}); }
  ProgramCfg p(std::move(cs)); ControlFlowGraph* g[2] = {const_cast<ControlFlowGraph*>(p.GetCfgByIndex(ids[0])), const_cast<ControlFlowGraph*>(p.GetCfgByIndex(ids[1]))}; auto node = [&](int i) -> CFGNode& { return *g[FN[i]]->nodes()[FN[i] ? i - 3 : i]; };
  std::vector<RE> es;
  for (int i = 0; i < ne; i++) {
    int f = i == 0 ? c >> 2 & 1 ? 3 : 0 : i == 2 ? 2 + vp_choose(3, "from") : i == 3 ? 1 : mode == 2 ? 3 * vp_choose(2, "from") : vp_choose(NB, "from"), t = i == 0 ? t0 : i == 1 ? 2 : i == 3 ? 2 : 1 + vp_choose(2, "to"), k = mode == 1 ? 0 : i == 2 || mode == 2 ? t0 % 3 : vp_choose(3, "kind"); int64_t w = vp_bytes(2, "weight"); RE* e = find(es, f, t); if (e && e->kinds != 1 << k) vp_stop();
    CFGEdge* x = g[FN[f]]->CreateOrUpdateEdge(&node(f), &node(t), (int)w, KS[k], (c & 2) && FN[f] != FN[t]); if (!e) { es.push_back({f, t, 0, 1 << k}); e = &es.back(); } e->w += w; vp_assert(x->src() == &node(f) && x->sink() == &node(t) && x->kind() == KS[k] && x->weight() == e->w, "edge");
    vp_assert(x->IsCall() == (k == 1) && x->IsReturn() == (k == 2) && x->IsBranchOrFallthrough() == (k == 0) && x->inter_section() == ((c & 2) && FN[f] != FN[t]), "kind of an edge");
  }
  int64_t fr[NB]; size_t hot[2] = {}, hp[2] = {}, he[2] = {}; for (int i = 0; i < NB; i++) { fr[i] = freq(es, i); vp_assert(node(i).CalculateFrequency() == fr[i], "frequency"); size_t ii = 0, io = 0, xi = 0, xo = 0; for (auto& e : es) { bool in = FN[e.f] == FN[e.t]; if (e.f == i) (in ? io : xo)++; if (e.t == i) (in ? ii : xi)++; } vp_assert(node(i).intra_ins().size() == ii && node(i).intra_outs().size() == io && node(i).inter_ins().size() == xi && node(i).inter_outs().size() == xo, "edges of a block"); }
  for (int i = 0; i < NB; i++) { hot[FN[i]] += fr[i] != 0; hp[FN[i]] += fr[i] != 0 && pad[i]; he[FN[i]] += fr[i] != 0 && size[i] == 0; }
  for (int f = 0; f < 2; f++) { auto s = g[f]->GetNodeFrequencyStats(); vp_assert((size_t)s.n_hot_blocks == hot[f] && (size_t)s.n_hot_landing_pads == hp[f] && (size_t)s.n_hot_empty_blocks == he[f], "hot blocks"); vp_assert(g[f]->has_hot_landing_pads() == (hp[f] > 0), "hot landing pads"); bool any = false; for (auto& e : es) any |= FN[e.f] == f || FN[e.t] == f; vp_assert(g[f]->is_hot() == any, "graph with edges"); vp_assert(g[f]->n_landing_pads() == (f ? pad[4] : pad[1]), "landing pads"); }
  // hot joins
  if (mode == 1) {
  int nt = (int)vp_bytes(2, "block threshold"), et = (int)vp_bytes(2, "edge threshold"); auto hj = p.GetHotJoinNodes(nt, et); size_t maps = 0;
  for (int f = 0; f < 2; f++) { size_t n = 0; auto it = hj.find(ids[f]); for (int i = f ? 3 : 0; i < (f ? 5 : 3); i++) { int bb = f ? i - 3 : i, ins = 0; for (auto& e : es) if (e.t == i && e.f != i && FN[e.f] == f && e.kinds == 1 && e.w >= et) ins++; bool j = bb != 0 && fr[i] >= nt && ins >= 2; n += j; vp_assert((it != hj.end() && it->second.contains(bb)) == j, "hot join"); } vp_assert((it != hj.end() ? it->second.size() : 0) == n, "hot joins"); maps += n > 0; } vp_assert(hj.size() == maps, "functions with hot joins"); }
  // the threshold: the lowest frequency such that at least the given share of the hot blocks is no more frequent
  if (mode == 2) {
  static const int PC[] = {50, 100, 0, 34, 75, 20, 99, 67}; int pc = PC[vp_choose(2, "percentile") + 2 * (cc % 4)], n = (int)(hot[0] + hot[1]), k = n * pc / 100; int64_t th = p.GetNodeFrequencyThreshold(pc); if (k == 0) vp_assert(th == 0, "no threshold"); else { int le = 0, lt = 0; bool is = false; for (int i = 0; i < NB; i++) if (fr[i]) { le += fr[i] <= th; lt += fr[i] < th; is |= fr[i] == th; } vp_assert(is && le >= k && lt < k, "frequency threshold"); } }
  // graphs in order, by section and by name
  auto v = p.GetCfgs(); vp_assert(v.size() == 2 && v[0]->function_index() < v[1]->function_index() && p.GetCfgByIndex(5) == nullptr, "in order"); auto bs = p.GetCfgsBySectionName(); vp_assert(bs.size() == (c & 2 ? 2u : 1u) && bs[".text"].size() == (c & 2 ? 1u : 2u), "by section"); auto bn = p.cfgs_by_name(); vp_assert(bn.size() == 2 && bn.at("f") == g[0] && bn.at("g") == g[1] && p.cfgs_by_index().at(ids[1]) == g[1], "by name and index");
  // taking weight away
  CFGEdge* x = node(es[0].f).GetEdgeTo(node(es[0].t), KS[es[0].kinds >> 1]); vp_assert(x != nullptr && node(es[0].f).HasEdgeTo(node(es[0].t), KS[es[0].kinds >> 1]), "edge found"); if (!x) return; int d = (int)vp_bytes(2, "taken away"), low = d < es[0].w ? d : (int)es[0].w; vp_assert(x->DecrementWeight(d) == low && x->weight() == es[0].w - low, "weight is taken away");
  vp_observe("freq", (uint64_t)fr[0]); vp_reach("end"); vp_must_reach("end");
}
// Cloned paths and copied graphs.
extern "C" void clones() {
  int c = vp_cfg(); std::vector<std::unique_ptr<CFGNode>> ns; const int NB = 4; bool pad[NB]; MD md[NB]; for (int i = 0; i < NB; i++) { pad[i] = i == 2 && vp_anybool("landing pad"); md[i] = MD{i == 1 && vp_anybool("returns"), false, pad[i], i != 2, false}; ns.push_back(std::make_unique<CFGNode>(0x1000 + i * 16, i, 20 + 3 * i, 5 + i, md[i], 6)); }
  ControlFlowGraph g(".text.q", 6, std::nullopt, nm("f"), std::move(ns)); int count[NB] = {}; struct Cl { int bb, num; }; std::vector<Cl> cl; std::vector<std::vector<Cl>> paths; int np = 2 + vp_tier(); int pads = pad[2];
  for (int i = 0; i < np; i++) { int pred = vp_choose(2, "predecessor"); std::vector<int> path; int len = 1 + vp_choose(2, "length"); for (int k = 0; k < len; k++) path.push_back(1 + vp_choose(3, "block")); g.ClonePath(pred, path); paths.push_back({{pred, 0}}); for (int b : path) { cl.push_back({b, ++count[b]}); paths.back().push_back(cl.back()); pads += pad[b]; } }
  auto chk = [&](const ControlFlowGraph& q, bool full) {
    vp_assert(q.nodes().size() == NB + cl.size() && q.n_landing_pads() == pads, "blocks with clones"); for (size_t i = 0; i < q.nodes().size(); i++) { int b = i < NB ? (int)i : cl[i - NB].bb, num = i < NB ? 0 : cl[i - NB].num; CFGNode& n = *q.nodes()[i]; vp_assert(n.bb_index() == b && n.clone_number() == num && n.is_cloned() == (num > 0) && n.node_index() == (int)i && n.bb_id() == 20 + 3 * b && n.size() == 5 + b && n.addr() == 0x1000 + b * 16 && n.function_index() == 6 && n.has_return() == md[b].HasReturn && n.can_fallthrough() == md[b].CanFallThrough && n.is_landing_pad() == pad[b], "a clone is like its original"); vp_assert(&q.GetNodeById({b, num}) == &n, "blocks are found by number and clone"); if (n.is_entry()) vp_assert(q.GetEntryNode() == &n || num, "entry"); }
    for (int b = 0; b < NB; b++) { auto all = q.GetAllClonesForBbIndex(b); vp_assert(all.size() == (size_t)count[b] + 1, "clones of a block"); for (size_t k = 0; k < all.size(); k++) vp_assert(all[k] == &q.GetNodeById({b, (int)k}), "in order"); }
    if (!full) return; vp_assert(q.clone_paths().size() == paths.size(), "paths"); for (size_t i = 0; i < paths.size() && i < q.clone_paths().size(); i++) { auto& v = q.clone_paths()[i]; vp_assert(v.size() == paths[i].size(), "path length"); for (size_t k = 0; k < paths[i].size() && k < v.size(); k++) vp_assert(v[k].bb_id == 20 + 3 * paths[i][k].bb && v[k].intra_cfg_id.bb_index == paths[i][k].bb && v[k].intra_cfg_id.clone_number == paths[i][k].num, "block of a path"); }
  };
  chk(g, true); int e1 = (int)g.nodes().size() - 1 - vp_choose(2, "from"), e2 = c; int w1 = (int)vp_bytes(3, "weight"), w2 = (int)vp_bytes(3, "weight"); CFGNode &a = *g.nodes()[e1], &b = *g.nodes()[e2]; g.CreateEdge(&a, &b, w1, K::kBranchOrFallthough, false); if (&a != &b) g.CreateEdge(&b, &a, w2, K::kCall, false);
  std::vector<std::unique_ptr<CFGNode>> os; os.push_back(std::make_unique<CFGNode>(0x2000, 0, 1, 1, md[0], 7)); ControlFlowGraph o(".text", 7, std::nullopt, nm("o"), std::move(os)); g.CreateEdge(&a, o.GetEntryNode(), 5, K::kCall, true); o.CreateEdge(o.GetEntryNode(), &b, 6, K::kRet, true);
  auto q = CloneCfg(g); chk(*q, false); vp_assert(q->section_name() == ".text.q" && q->function_index() == 6 && q->GetPrimaryName() == "f" && q->inter_edges().empty() && q->intra_edges().size() == g.intra_edges().size(), "copy"); for (size_t i = 0; i < g.intra_edges().size() && i < q->intra_edges().size(); i++) { auto &x = *g.intra_edges()[i], &y = *q->intra_edges()[i]; vp_assert(y.weight() == x.weight() && y.kind() == x.kind() && y.src() != x.src() && y.src()->intra_cfg_id() == x.src()->intra_cfg_id() && y.sink()->intra_cfg_id() == x.sink()->intra_cfg_id() && y.src() == &q->GetNodeById(x.src()->intra_cfg_id()), "copied edge"); }
  for (auto& n : q->nodes()) vp_assert(n->inter_ins().empty() && n->inter_outs().empty(), "no edges to other functions");
  vp_observe("blocks", g.nodes().size()); vp_reach("end"); vp_must_reach("end");
}
