// P08: building layout options.
#include "llvm_propeller_options_builder.h"
#include "vp.h"
#include <string>
#include <vector>
using namespace devtools_crosstool_autofdo;
namespace {
struct V { bool has; uint64_t n; std::string s; };
using Snap = std::vector<V>;
enum { NPAR = 12 };
void params(const PropellerCodeLayoutParameters& p, Snap& o) {
#define F(x) o.push_back({p.has_##x(), (uint64_t)p.x(), ""});
  F(fallthrough_weight) F(forward_jump_weight) F(backward_jump_weight) F(forward_jump_distance) F(backward_jump_distance) F(chain_split)
  F(chain_split_threshold) F(call_chain_clustering) F(cluster_merge_size_threshold) F(split_functions) F(reorder_hot_blocks) F(inter_function_reordering)
#undef F
}
Snap snap(const PropellerOptions& p) {
  Snap o; params(p.code_layout_params(), o);
#define F(x) o.push_back({p.has_##x(), (uint64_t)p.x(), ""});
  F(ignore_build_id) F(verbose_cluster_output) F(http) F(output_module_name) F(filter_non_text_functions) F(cluster_out_version)   // 12..17
#undef F
#define F(x) o.push_back({p.has_##x(), 0, p.x()});
  F(binary_name) F(cluster_out_name) F(symbol_order_out_name) F(profiled_binary_name) F(cfg_dump_dir_name)   // 18..22
#undef F
  o.push_back({p.has_code_layout_params(), 0, ""});   // 23
  for (auto& n : p.profile_names()) o.push_back({true, 0, n});
  for (auto& n : p.input_profiles()) { o.push_back({n.has_name(), 0, n.name()}); o.push_back({n.has_type(), (uint64_t)n.type(), ""}); }
  return o;
}
void same(const Snap& a, const Snap& b, const char* what) {
  vp_assert(a.size() == b.size(), what); if (a.size() != b.size()) return;
  for (size_t i = 0; i < a.size(); i++) { vp_assert(a[i].has == b[i].has, what); vp_assert(a[i].n == b[i].n, what); vp_assert(a[i].s == b[i].s, what); }
}
std::string str(const char* nm) { int n = vp_choose(2, "length"); std::string s; for (int i = 0; i < n; i++) { char c = vp_any<char>(nm); vp_assume(c != 0); s += c; } return s; }
template <class B> void setparam(B& b, int k, uint32_t v, bool f);
PropellerCodeLayoutParametersBuilder* setP(PropellerCodeLayoutParametersBuilder& b, int k, uint32_t v, bool f) {
  switch (k) {
    case 0: return &b.SetFallthroughWeight(v); case 1: return &b.SetForwardJumpWeight(v); case 2: return &b.SetBackwardJumpWeight(v); case 3: return &b.SetForwardJumpDistance(v);
    case 4: return &b.SetBackwardJumpDistance(v); case 5: return &b.SetChainSplit(f); case 6: return &b.SetChainSplitThreshold(v); case 7: return &b.SetCallChainClustering(f);
    case 8: return &b.SetClusterMergeSizeThreshold(v); case 9: return &b.SetSplitFunctions(f); case 10: return &b.SetReorderHotBlocks(f); default: return &b.SetInterFunctionReordering(f);
  }
}
PropellerOptionsBuilder* setO(PropellerOptionsBuilder& b, int k, uint32_t v, bool f) {
  switch (k) {
    case 0: return &b.SetCodeLayoutParamsFallthroughWeight(v); case 1: return &b.SetCodeLayoutParamsForwardJumpWeight(v); case 2: return &b.SetCodeLayoutParamsBackwardJumpWeight(v);
    case 3: return &b.SetCodeLayoutParamsForwardJumpDistance(v); case 4: return &b.SetCodeLayoutParamsBackwardJumpDistance(v); case 5: return &b.SetCodeLayoutParamsChainSplit(f);
    case 6: return &b.SetCodeLayoutParamsChainSplitThreshold(v); case 7: return &b.SetCodeLayoutParamsCallChainClustering(f); case 8: return &b.SetCodeLayoutParamsClusterMergeSizeThreshold(v);
    case 9: return &b.SetCodeLayoutParamsSplitFunctions(f); case 10: return &b.SetCodeLayoutParamsReorderHotBlocks(f); default: return &b.SetCodeLayoutParamsInterFunctionReordering(f);
  }
}
bool isbool(int k) { return k == 5 || k == 7 || k >= 9; }
int setparams(PropellerCodeLayoutParametersBuilder& b, Snap& m) {
  int k = vp_choose(NPAR, "parameter"); uint32_t v = vp_any<uint32_t>("value"); bool f = vp_anybool("flag");
  vp_assert(setP(b, k, v, f) == &b, "setters chain"); m[k] = {true, isbool(k) ? (uint64_t)f : v, ""}; return k;
}
}
extern "C" void options() {
  PropellerOptionsBuilder ob; Snap m = snap(ob); std::vector<V> names, inputs;
  int n = 2 + vp_tier();
  for (int i = 0; i < n; i++) {
    PropellerOptionsBuilder* r = &ob; int k = vp_choose(27, "setter"); bool f = vp_anybool("flag"); uint32_t v = vp_any<uint32_t>("value"); std::string s;
    if (k < NPAR) { r = setO(ob, k, v, f); m[k] = {true, isbool(k) ? (uint64_t)f : v, ""}; m[23].has = true; }
    else if (k < 17) { r = k == 12 ? &ob.SetIgnoreBuildId(f) : k == 13 ? &ob.SetVerboseClusterOutput(f) : k == 14 ? &ob.SetHttp(f) : k == 15 ? &ob.SetOutputModuleName(f) : &ob.SetFilterNonTextFunctions(f); m[k] = {true, f, ""}; }
    else if (k == 17) { auto ver = (ClusterEncodingVersion)vp_below(3, "version"); r = &ob.SetClusterOutVersion(ver); m[k] = {true, (uint64_t)ver, ""}; }
    else if (k < 23) { s = str("name"); r = k == 18 ? &ob.SetBinaryName(s) : k == 19 ? &ob.SetClusterOutName(s) : k == 20 ? &ob.SetSymbolOrderOutName(s) : k == 21 ? &ob.SetProfiledBinaryName(s) : &ob.SetCfgDumpDirName(s); m[k] = {true, 0, s}; }
    else if (k == 23) { s = str("profile"); r = &ob.AddProfileNames(s); names.push_back({true, 0, s}); }
    else if (k == 24) {
      InputProfileBuilder ib; V a{false, 0, ""}, b{false, 0, ""};
      if (f) { s = str("input"); vp_assert(&ib.SetName(s) == &ib, "setters chain"); a = {true, 0, s}; }
      if (v & 1) { auto t = (ProfileType)vp_below(4, "type"); vp_assert(&ib.SetType(t) == &ib, "setters chain"); b = {true, (uint64_t)t, ""}; }
      if (v & 2) { InputProfile c = ib; InputProfileBuilder ib2(c); r = &ob.AddInputProfiles(ib2); } else r = &ob.AddInputProfiles(ib);
      inputs.push_back(a); inputs.push_back(b);
    } else if (k == 25) {
      PropellerCodeLayoutParametersBuilder pb; Snap pm; params(pb, pm); setparams(pb, pm);
      if (f) { PropellerCodeLayoutParameters c = pb; PropellerCodeLayoutParametersBuilder pb2(c); setparams(pb2, pm); r = &ob.SetCodeLayoutParams(pb2); } else r = &ob.SetCodeLayoutParams(pb);
      for (int j = 0; j < NPAR; j++) m[j] = pm[j]; m[23].has = true;
    } else { PropellerOptions c = ob; PropellerOptionsBuilder o2(c); same(snap(o2), snap(ob), "a builder can start from given options"); PropellerOptionsBuilder o3(std::move(c)); ob = o3; }
    vp_assert(r == &ob, "setters chain");
    Snap w = m; for (auto& x : names) w.push_back(x); for (auto& x : inputs) w.push_back(x);
    same(snap(ob), w, "exactly the fields that were set");
  }
  PropellerOptions fin = ob; vp_assert(fin.code_layout_params().fallthrough_weight() == m[0].n, "built options");
  vp_observe("weight", fin.code_layout_params().fallthrough_weight());
  vp_reach("end"); vp_must_reach("end");
}
