// P11: the saved form of a program's graphs.
#include "llvm_propeller_cfg.h"
#include "llvm_propeller_program_cfg_proto_builder.h"
#include "google/protobuf/text_format.h"
#include "vp.h"
#include <fcntl.h>
#include <memory>
#include <string>
#include <vector>
using namespace devtools_crosstool_autofdo;
using MD = llvm::object::BBAddrMap::BBEntry::Metadata;
namespace { int opened; std::string openName; bool noOpen; int openFlags; }
extern "C" int open(const char* n, int flags, ...) { opened++; openName = n; openFlags = flags; return noOpen ? -1 : 7; }
extern "C" int open64(const char* n, int flags, ...) { return open(n, flags); }
namespace {
typedef CFGEdge::Kind K; const K KS[] = {K::kBranchOrFallthough, K::kCall, K::kRet};
const CFGEdgePb::Kind PK[] = {CFGEdgePb::BRANCH_OR_FALLTHROUGH, CFGEdgePb::CALL, CFGEdgePb::RETURN};
struct E { int f, t, k; uint32_t w; };
}
extern "C" void save() {
  int cfg = vp_cfg(), nf = 1 + (cfg & 1), ne = 2 + (cfg >> 1 & 1) + vp_tier(); int ids[2] = {(int)vp_bytes(3, "function"), 0}; ids[1] = ids[0] + 1;
  if (nf > 1 && vp_choose(2, "order")) std::swap(ids[0], ids[1]);
  absl::flat_hash_map<int, std::unique_ptr<ControlFlowGraph>> cs; static const int NB[] = {3, 2}; int size[5], id[5]; bool r[5], t[5], p[5], ft[5];
  for (int f = 0; f < nf; f++) {
    std::vector<std::unique_ptr<CFGNode>> ns;
    for (int i = 0; i < NB[f]; i++) { int g = i + 3 * f; size[g] = (int)vp_bytes(3, "size"); id[g] = (int)vp_bytes(2, "id"); bool any = g == (f ? 4 : 1); r[g] = any ? vp_anybool("returns") : i == 0; t[g] = any ? vp_anybool("tail call") : i == 2; p[g] = any ? vp_anybool("landing pad") : g == 3; ft[g] = any ? vp_anybool("falls through") : i != 2; ns.push_back(std::make_unique<CFGNode>(0x1000 + g * 16, i, id[g], size[g], MD{r[g], t[g], p[g], ft[g], false}, ids[f])); }
    llvm::SmallVector<llvm::StringRef, 3> nm; nm.push_back(f ? "g" : "f"); if (cfg & 4) nm.push_back(f ? "g2" : "f2"); cs.insert({ids[f], std::make_unique<ControlFlowGraph>(f ? ".text.b" : ".text", ids[f], std::nullopt, nm, std::move(ns))});
  }
  ControlFlowGraph* g[2] = {cs[ids[0]].get(), nf > 1 ? cs[ids[1]].get() : nullptr}; std::vector<E> es;
  for (int i = 0; i < ne; i++) {   // edges within a function; no two the same way
    int f = nf > 1 && i == 1; E e{3 * f + (int)vp_choose(NB[f], "from"), 3 * f + (int)vp_choose(NB[f], "to"), i == 2 ? (cfg & 1) + (int)(vp_tier() ? vp_choose(2, "kind") : 0) : (int)vp_choose(3, "kind"), (uint32_t)vp_bytes(3, "weight")}; for (auto& x : es) if (x.f == e.f && x.t == e.t) vp_stop();
    es.push_back(e); g[f]->CreateEdge(g[f]->nodes()[e.f - 3 * f].get(), g[f]->nodes()[e.t - 3 * f].get(), e.w, KS[e.k], false);
  }
  ProgramCfgProtoBuilder b; bool file = cfg & 8; noOpen = file && vp_choose(2, "cannot open"); bool ok = b.InitWriter(file ? "out.txt" : "");
  vp_assert(ok == !noOpen, "an output that cannot be opened is an error"); vp_assert(opened == file && (!file || (openName == "out.txt" && (openFlags & O_TRUNC) && (openFlags & O_CREAT))), "output opened"); if (!ok) { vp_reach("no file"); return; }
  b.AddCfgs(cs); const ProgramCfgPb& pb = b.program_cfg_pb(); vp_assert(pb.cfg_size() == nf, "one graph per function");
  for (int f = 0; f < nf; f++) {
    const ControlFlowGraphPb* c = nullptr; int seen = 0; for (int i = 0; i < pb.cfg_size(); i++) if (pb.cfg(i).name(0) == (f ? "g" : "f")) c = &pb.cfg(i), seen++;
    vp_assert(seen == 1, "each function once"); if (!c) return;
    vp_assert(c->function_index() == (uint32_t)ids[f] && c->section_name() == (f ? ".text.b" : ".text"), "index and section"); vp_assert(c->name_size() == (cfg & 4 ? 2 : 1) && (!(cfg & 4) || c->name(1) == (f ? "g2" : "f2")), "names"); vp_assert(c->node_size() == NB[f], "blocks");
    for (int i = 0; i < NB[f] && i < c->node_size(); i++) {
      const CFGNodePb& n = c->node(i); int k = i + 3 * f; vp_assert(n.size() == (uint64_t)size[k] && n.bb_id() == (uint32_t)id[k], "size and identifier of a block");
      vp_assert(n.metadata().has_return() == r[k] && n.metadata().has_tail_call() == t[k] && n.metadata().is_landing_pad() == p[k] && n.metadata().can_fallthrough() == ft[k], "properties of a block");
      int want = 0; for (auto& e : es) if (e.f == k) { want++; int hit = 0; for (int j = 0; j < n.out_edges_size(); j++) { const CFGEdgePb& x = n.out_edges(j); if (x.sink().bb_index() == (uint32_t)(e.t - 3 * f) && x.kind() == PK[e.k]) { hit++; vp_assert(x.weight() == e.w && x.sink().function_index() == (uint32_t)ids[f], "weight and target of an edge"); } } vp_assert(hit == 1, "each edge once"); }
      vp_assert(n.out_edges_size() == want, "edges of a block");
    }
  }
  using namespace google::protobuf;
  if (file) {
    int fail = vp_choose(3, "failure"); TextFormat::failing = fail == 1; io::FileOutputStream::failing = fail == 2; vp_assert(b.WriteAndClose() == (fail == 0), "failures to write are reported"); vp_assert(TextFormat::prints == 1 && TextFormat::printed == &pb && TextFormat::fd == 7, "everything is written to the output");
    if (!fail) { vp_assert(io::FileOutputStream::closed == 1, "the output is closed"); ProgramCfgProtoBuilder q; TextFormat::source = &pb; noOpen = vp_choose(2, "cannot open again"); vp_assert(q.Read("in.txt") == !noOpen && openName == "in.txt", "reading back"); if (!noOpen) { vp_assert(q.program_cfg_pb().cfg_size() == nf, "graphs read back"); vp_reach("read back"); } vp_must_reach("read back"); }
  }
  vp_observe("edges", es.size()); vp_reach("saved"); vp_must_reach("saved");
}
