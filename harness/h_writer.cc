// P06: the text of a layout profile.
#include "llvm_propeller_cfg.h"
#include "llvm_propeller_profile.h"
#include "llvm_propeller_profile_writer.h"
#include "llvm_propeller_program_cfg.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/Path.h"
#include "vp.h"
#include <memory>
#include <string>
#include <vector>
using namespace devtools_crosstool_autofdo;
using llvm::object::BBAddrMap;
using MD = BBAddrMap::BBEntry::Metadata;
static bool gDir;
namespace llvm::sys { namespace fs { std::error_code create_directory(const Twine&, bool, perms) { gDir = true; return {}; } }
  namespace path { void append(SmallVectorImpl<char>& p, const Twine& a, const Twine&, const Twine&, const Twine&) { SmallString<64> t; StringRef s = a.toStringRef(t); p.push_back('/'); p.append(s.begin(), s.end()); } } }
namespace {
typedef CFGEdge::Kind K;
std::string dec(uint64_t v) { std::string s; do { s.insert(s.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return s; }
void same(const char* name, const std::string& want, const char* what) {
  vpf::Node* x = vpf::find(name, false); vp_assert(x != nullptr, what); if (!x) return; vp_assert(x->n == want.size(), what); if (x->n != want.size()) { vp_dbg("got", x->n); vp_dbg("want", want.size()); return; }
  bool ok = true; for (size_t i = 0; i < x->n; i++) ok &= x->d[i] == (unsigned char)want[i]; vp_assert(ok, what);
}
struct Fn { int idx; const char* sec; std::vector<std::string> names; const char* mod; std::vector<int> id; std::vector<std::vector<int>> cl; std::vector<int> li; int cold = 0; std::vector<int> cloneOf; CFGNode::FullIntraCfgId full(int n) const { int b = n, c = 0; if (n >= (int)id.size()) { b = cloneOf[n - id.size()]; c = 1; for (int k = 0; k < n - (int)id.size(); k++) c += cloneOf[k] == b; } return {id[b], {b, c}}; } int nodes() const { return (int)(id.size() + cloneOf.size()); } };
struct Ed { int f, a, g, b; K k; int64_t w; };
}
extern "C" void writer() {
  int c = vp_cfg(); bool v1 = c & 1, verbose = c & 2, two = c & 4, mods = c & 8; int mode = c / 16;   // mode 0: clusters, 1: a cloned path, 2: the graph files
  Fn F[2]; F[0].idx = 4; F[0].sec = ".text.b"; F[0].names = {"f", "falias", "f3"}; F[0].mod = mods ? "a/mod.c" : nullptr; F[0].id = {0, 7, 12, 105}; F[1].idx = c & 1 ? 9 : 2; F[1].sec = two ? ".text.a" : ".text.b"; F[1].names = {"g"}; F[1].mod = mods && (c & 2) ? "m2" : nullptr; F[1].id = {3, 1};
  F[0].id[1 + c % 3] = 200 + vp_bytes(2, "block id"); if (mode == 1) { F[0].cloneOf = {1, 2, 1}; }
  // clusters of f: any non-empty set of blocks, the entry first, in two orders, cut in two anywhere
  int mask = mode == 0 ? 1 + vp_choose(15, "blocks") : 15, rev = vp_choose(2, "order"); std::vector<int> b; if (mask & 1) b.push_back(0); if (rev) { for (int i = 3; i >= 1; i--) if (mask >> i & 1) b.push_back(i); } else for (int i = 1; i < 4; i++) if (mask >> i & 1) b.push_back(i); if (mode == 1) { b.insert(b.begin() + 1, 4); b.push_back(6); if (rev) b.push_back(5); }
  int cut = b.size() > 1 ? vp_choose((int)b.size(), "cut") : 0; F[0].cl.push_back(std::vector<int>(b.begin(), cut ? b.begin() + cut : b.end())); if (cut) F[0].cl.push_back(std::vector<int>(b.begin() + cut, b.end())); if (cut && mode == 0 && vp_choose(2, "entry last")) std::swap(F[0].cl[0], F[0].cl[1]);
  static const std::vector<std::vector<int>> G[] = {{{0, 1}}, {{1}}, {{1}, {0}}, {{0}}}; F[1].cl = G[mode ? c & 3 : vp_choose(4, "blocks of g")];
  int n0 = (int)F[0].cl.size(), n1 = (int)F[1].cl.size(), o = vp_choose(2, "first function"); if (two) { for (int i = 0; i < n0; i++) F[0].li.push_back(o ? n0 - 1 - i : i); for (int i = 0; i < n1; i++) F[1].li.push_back(i); } else if (o == 0) { for (int i = 0; i < n0; i++) F[0].li.push_back(i ? n0 + n1 - 1 : 0); for (int i = 0; i < n1; i++) F[1].li.push_back(1 + i); F[1].cold = 1; } else { for (int i = 0; i < n0; i++) F[0].li.push_back(n0 + n1 - 1 - i); for (int i = 0; i < n1; i++) F[1].li.push_back(i); F[0].cold = 1; }
  // the flow graphs
  std::vector<Ed> E = {{0, 0, 0, 1, K::kBranchOrFallthough, 0}, {0, 1, 0, 3, K::kBranchOrFallthough, 5}, {0, 0, 0, 2, K::kBranchOrFallthough, 40}, {0, 2, 0, 0, K::kCall, 9}, {0, 1, 1, 0, K::kCall, 12}, {1, 0, 1, 1, K::kBranchOrFallthough, 3}, {1, 1, 0, 1, K::kRet, 11}}; E[0].w = verbose || mode == 2 ? vp_bytes(1, "weight") : 8; if (mode == 1) E.push_back({0, 0, 0, 4, K::kBranchOrFallthough, 6});
  PropellerProfile P; std::vector<std::vector<CFGNode*>> N(2); std::vector<ControlFlowGraph*> C(2); absl::flat_hash_map<int, std::unique_ptr<ControlFlowGraph>> cs;
  for (int f = 0; f < 2; f++) { std::vector<std::unique_ptr<CFGNode>> ns; for (int i = 0; i < (int)F[f].id.size(); i++) ns.push_back(std::make_unique<CFGNode>(0x1000 + f * 0xab00 + i * 16, i, F[f].id[i], 16 - i, MD{}, F[f].idx, 70 + i)); llvm::SmallVector<llvm::StringRef, 3> nm; for (auto& s : F[f].names) nm.push_back(s); std::optional<llvm::StringRef> m; if (F[f].mod) m = F[f].mod; auto g = std::make_unique<ControlFlowGraph>(F[f].sec, F[f].idx, m, nm, std::move(ns)); C[f] = g.get(); cs.insert({F[f].idx, std::move(g)}); }
  if (mode == 1) { int p1[] = {1, 2}, p2[] = {1}; C[0]->ClonePath(0, absl::MakeConstSpan(p1, 2)); C[0]->ClonePath(3, absl::MakeConstSpan(p2, 1)); }
  for (int f = 0; f < 2; f++) for (auto& n : C[f]->nodes()) N[f].push_back(n.get()); for (auto& e : E) C[e.f]->CreateEdge(N[e.f][e.a], N[e.g][e.b], (int)e.w, e.k, two && e.f != e.g);
  P.program_cfg = std::make_unique<ProgramCfg>(std::move(cs)); double sc[] = {1.5, 2.25, 3, 0.125};
  for (int k = 0; k < 2; k++) { int f = (k + o) & 1; FunctionClusterInfo i; i.function_index = F[f].idx; i.cold_cluster_layout_index = F[f].cold; i.original_score = {sc[f], sc[f + 1]}; i.optimized_score = {sc[f + 2], sc[3 - f]}; for (size_t x = 0; x < F[f].cl.size(); x++) { FunctionClusterInfo::BBCluster q(F[f].li[x]); for (int n : F[f].cl[x]) q.full_bb_ids.push_back(F[f].full(n)); i.clusters.push_back(q); } P.functions_cluster_info_by_section_name[F[f].sec].push_back(i); }
  PropellerOptions O; O.set_cluster_out_name("cc.txt"); O.set_symbol_order_out_name("ld.txt"); O.set_cluster_out_version(v1 ? VERSION_1 : VERSION_0); O.set_verbose_cluster_output(verbose); if (mode == 2) O.set_cfg_dump_dir_name("dir");
  if (mode == 1 && !v1) { vp_expect_fatal(1); PropellerProfileWriter(O).Write(P); vp_assert(false, "cloned paths need version 1"); return; }
  PropellerProfileWriter(O).Write(P);
  // what the files must say
  std::string cc = v1 ? "v1\n" : "", ld, ix = "Function.Name Function.Address N_Nodes N_Clusters Original.ExtTSP.Score Optimized.ExtTSP.Score\n"; auto id = [&](const Fn& f, int n) { auto x = f.full(n); return dec(x.bb_id) + (x.intra_cfg_id.clone_number ? "." + dec(x.intra_cfg_id.clone_number) : std::string()); };
  auto freq = [&](int f, int n) { return (int64_t)N[f][n]->CalculateFrequency(); };   // P01 decides frequencies
  for (const char* sec : {".text.a", ".text.b"}) {
    std::vector<int> fs; for (int k = 0; k < 2; k++) { int f = (k + o) & 1; if (!strcmp(F[f].sec, sec)) fs.push_back(f); } if (fs.empty()) continue; if (verbose) cc += std::string("#section ") + sec + "\n"; std::vector<std::string> order(8), cold(2);
    for (int f : fs) { Fn& x = F[f]; std::string names; for (auto& n : x.names) names += (names.empty() ? "" : v1 ? " " : "/") + n; if (v1) { if (x.mod) cc += std::string("m ") + x.mod + "\n"; cc += "f " + names + "\n"; } else cc += "!" + names + (x.mod ? std::string(" M=") + x.mod : "") + "\n";
      if (mode == 1 && f == 0) { cc += "p" + dec(x.id[0]) + " " + dec(x.id[1]) + " " + dec(x.id[2]) + "\n"; cc += "p" + dec(x.id[3]) + " " + dec(x.id[1]) + "\n"; }
      if (verbose) { static const char* T[] = {"#ext-tsp score: [intra: 1.500000 -> 3.000000] [inter: 2.250000 -> 0.125000]\n", "#ext-tsp score: [intra: 2.250000 -> 0.125000] [inter: 3.000000 -> 3.000000]\n"}; cc += T[f]; cc += "#entry-freq " + dec(freq(f, 0)) + "\n"; }
      bool entry = false; int placed = 0; for (size_t k = 0; k < x.cl.size(); k++) { cc += v1 ? "c" : "!!"; for (size_t j = 0; j < x.cl[k].size(); j++) { if (j) cc += " "; cc += id(x, x.cl[k][j]); placed++; } cc += "\n"; bool first = x.cl[k][0] == 0; entry |= first; for (auto& n : x.names) order[x.li[k]] += n + (first ? "" : ".__part." + dec(k)) + "\n"; }
      if (placed != x.nodes()) for (auto& n : x.names) cold[x.cold] += n + (entry ? ".cold" : "") + "\n";
      if (verbose) for (int n = 0; n < x.nodes(); n++) { cc += "#cfg-prof " + dec(F[f].full(n).bb_id) + ":" + dec(freq(f, n)); for (auto& e : E) if (e.f == f && e.a == n && e.g == f && e.k == K::kBranchOrFallthough) cc += " " + dec(F[f].full(e.b).bb_id) + ":" + dec(e.w); cc += "\n"; }
      static const char* IX[2][2] = {{"f 0x1000 4 ", " 1.5 3\n"}, {"g 0xbb00 2 ", " 2.25 0.125\n"}}; ix += IX[f][0] + dec(x.cl.size()) + IX[f][1];
      if (mode == 2) { std::string d = "digraph {\nlabel=\"" + x.names[0] + "#" + dec(x.idx) + "\"\nforcelabels=true;\n"; for (int n = 0; n < x.nodes(); n++) d += dec(x.id[n]) + " [xlabel=\"" + dec(70 + n) + "#" + dec(16 - n) + "#" + dec(n) + "\", color = \"black\" ];\n"; int at[8]; for (int& i : at) i = -9; for (size_t k = 0; k < x.cl.size(); k++) for (size_t j = 0; j < x.cl[k].size(); j++) at[x.cl[k][j]] = x.li[k] + (int)j; for (auto& e : E) if (e.f == f && e.g == f) d += dec(x.id[e.a]) + " -> " + dec(x.id[e.b]) + "[ label=\"" + (e.k == K::kCall ? "C" : "B") + "#" + dec(e.w) + "\", color =\"" + (at[e.a] >= 0 && at[e.b] == at[e.a] + 1 ? "red" : "black") + "\"];\n"; d += "}\n"; same(f ? "dir/0xbb00.dot" : "dir/0x1000.dot", d, "drawing of a flow graph"); }
    }
    for (auto& s : order) ld += s; for (auto& s : cold) ld += s;
  }
  same("cc.txt", cc, "clusters for the compiler"); same("ld.txt", ld, "symbol order for the linker"); vp_assert(gDir == (mode == 2), "directory for the flow graphs"); if (mode == 2) same("dir/cfg-index.txt", ix, "index of the flow graphs");
  vp_observe("bytes", cc.size()); vp_reach("end"); vp_must_reach("end");
}
