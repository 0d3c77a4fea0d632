// P10: generating a propeller profile from start to finish. The stages are stand-ins that log what they are given; the code that drives them is the repository's.
#include "vp.h"
#include "binary_address_branch.h"
#include "frequencies_branch_aggregator.h"
#include "lbr_branch_aggregator.h"
#include "llvm_propeller_binary_address_mapper.h"
#include "llvm_propeller_code_layout.h"
#include "llvm_propeller_file_perf_data_provider.h"
#include "llvm_propeller_perf_branch_frequencies_aggregator.h"
#include "llvm_propeller_perf_lbr_aggregator.h"
#include "llvm_propeller_profile_computer.h"
#include "llvm_propeller_profile_generator.h"
#include "llvm_propeller_profile_writer.h"
#include "llvm_propeller_program_cfg_builder.h"
#include "llvm_propeller_telemetry_reporter.h"
#include "status_consumer_registry.h"
#include "status_provider.h"
#include <memory>
#include <string>
#include <vector>
using namespace devtools_crosstool_autofdo;
using std::string; using std::vector;
namespace {
struct Buf : llvm::MemoryBuffer { static char d[8]; Buf() { init(d, d + 7, true); } BufferKind getBufferKind() const override { return MemoryBuffer_Malloc; } }; char Buf::d[8] = "PERFDAT";
enum Fail { F_NONE, F_READ, F_PERF, F_MAP, F_BUILD, NFAIL };
int fail; bool spe, builtin;
uint64_t bf[2], bt[2], xf, xt; int64_t bn[2], xn; const llvm::MemoryBuffer* elf;   // what the profile aggregates to; the binary
// what happened
vector<string> names; int reads, perfs, maps, builds, layouts, writes, reports, started, stopped, open_; bool late; int order; string wrote;
const BinaryContent* seen; const ProgramCfg* cfg; PropellerStats* stats0; StatusProvider* status;
vector<int> prog;
void tick() { if (status) { prog.push_back(status->GetProgress()); vp_assert(open_ == 1 && !status->IsDone(), "progress is reported while working"); } }
absl::Status err(int k) { return absl::InternalError(absl::StrCat("stage ", k)); }
void drain(PerfDataProvider& p) { for (int i = 0; i < 8; i++) { auto n = p.GetNext(); vp_assert(n.ok(), "next profile"); if (!n->has_value()) return; } vp_assert(false, "profiles end"); }
struct Own : PerfDataProvider { int n = 0; absl::StatusOr<std::optional<BufferHandle>> GetNext() override { if (n++ > 1) return std::nullopt; names.push_back("own"); return BufferHandle{.description = "own", .buffer = std::make_unique<Buf>()}; } };
struct Con : StatusConsumer { void Start(StatusProvider& s) override { started++; open_++; status = &s; vp_assert(s.GetProgress() >= 0 && s.GetProgress() <= 100, "a status at the start"); } void Stop() override { stopped++; open_--; if (status) status->GetProgress(); } };
}
namespace devtools_crosstool_autofdo {
string PropellerStats::DebugString() const { return "statistics"; }
absl::StatusOr<std::unique_ptr<BinaryContent>> GetBinaryContent(absl::string_view name) {
  tick(); vp_assert(name == "the binary", "the binary of the options is read"); reads++; if (fail == F_READ) return err(F_READ);
  auto c = std::make_unique<BinaryContent>(); c->file_name = "the binary"; c->file_content = std::make_unique<Buf>(); c->build_id = "id"; return c;
}
absl::StatusOr<std::optional<PerfDataProvider::BufferHandle>> FilePerfDataProvider::GetNext() {
  if (index_ >= (int)file_names_.size()) return std::nullopt;
  names.push_back(file_names_[index_++]); return BufferHandle{.description = "x", .buffer = std::make_unique<Buf>()};
}
absl::StatusOr<LbrAggregation> PerfLbrAggregator::AggregateLbrData(const PropellerOptions& o, const BinaryContent& b, PropellerStats& st) {
  tick(); vp_assert(!spe, "kind of profile"); vp_assert(o.binary_name() == "the binary" && o.cluster_out_name() == "out" && b.build_id == "id", "options and binary"); perfs++; drain(*perf_data_provider_); st.profile_stats.br_counters_accumulated += 5; if (fail == F_PERF) return err(F_PERF);
  LbrAggregation a; for (int i = 0; i < 2; i++) a.branch_counters[{.from = bf[i], .to = bt[i]}] += bn[i]; a.fallthrough_counters[{.from = xf, .to = xt}] = xn; return a;
}
absl::StatusOr<BranchFrequencies> PerfBranchFrequenciesAggregator::AggregateBranchFrequencies(const PropellerOptions& o, const BinaryContent& b, PropellerStats& st) {
  tick(); vp_assert(spe, "kind of profile"); vp_assert(o.binary_name() == "the binary" && o.cluster_out_name() == "out" && b.build_id == "id", "options and binary"); perfs++; drain(*perf_data_provider_); st.profile_stats.br_counters_accumulated += 5; if (fail == F_PERF) return err(F_PERF);
  BranchFrequencies f; for (int i = 0; i < 2; i++) f.taken_branch_counters[{.from = bf[i], .to = bt[i]}] += bn[i]; f.not_taken_branch_counters[{.address = xf}] = xn; return f;
}
BinaryAddressMapper::BinaryAddressMapper(absl::btree_set<int> s, vector<llvm::object::BBAddrMap> m, vector<BbHandle> h, absl::flat_hash_map<int, FunctionSymbolInfo> i) : selected_functions_(std::move(s)), bb_handles_(std::move(h)), bb_addr_map_(std::move(m)), symbol_info_map_(std::move(i)) {}
std::optional<int> BinaryAddressMapper::FindBbHandleIndexUsingBinaryAddress(uint64_t, BranchDirection) const { return std::nullopt; }
bool BinaryAddressMapper::CanFallThrough(int, int) const { return false; }
absl::StatusOr<std::unique_ptr<BinaryAddressMapper>> BuildBinaryAddressMapper(const PropellerOptions& o, const BinaryContent& b, PropellerStats& st, const absl::flat_hash_set<uint64_t>* hot) {
  tick(); maps++; vp_assert(o.binary_name() == "the binary" && b.build_id == "id" && b.file_content, "options and binary"); seen = &b; stats0 = &st; elf = b.file_content.get();
  vp_assert(hot != nullptr, "hot addresses are given");
  vector<uint64_t> w; for (int i = 0; i < 2; i++) { w.push_back(bf[i]); w.push_back(bt[i]); } w.push_back(xf); if (!spe) w.push_back(xt);
  for (uint64_t a : w) vp_assert(hot->contains(a), "every profiled address is hot");
  uint64_t q = vp_bytes(6, "address"); bool in = false; for (uint64_t a : w) in |= a == q; vp_assert(hot->contains(q) == in, "only profiled addresses are hot");
  if (fail == F_MAP) return err(F_MAP);
  return std::make_unique<BinaryAddressMapper>(absl::btree_set<int>{}, vector<llvm::object::BBAddrMap>{}, vector<BbHandle>{}, absl::flat_hash_map<int, BinaryAddressMapper::FunctionSymbolInfo>{});
}
absl::StatusOr<std::unique_ptr<ProgramCfg>> ProgramCfgBuilder::Build(const BranchAggregation& a, std::unique_ptr<llvm::MemoryBuffer> f, Addr2Cu* cu) && {
  tick(); builds++; vp_assert(binary_address_mapper_ && stats_ == stats0 && f && f.get() == elf && !cu, "mapper, statistics and binary"); vp_assert(cfgs_.empty(), "a new program"); stats_->cfg_stats.cfgs_created += 3;
  int64_t t = 0; vector<std::pair<uint64_t, uint64_t>> k; for (int i = 0; i < 2; i++) { t += bn[i]; bool dup = false; for (auto& e : k) dup |= e.first == bf[i] && e.second == bt[i]; if (!dup) k.push_back({bf[i], bt[i]}); }
  vp_assert(a.branch_counters.size() == k.size() && a.GetNumberOfBranchCounters() == t, "every branch");
  for (int i = 0; i < 2; i++) { auto it = a.branch_counters.find({.from = bf[i], .to = bt[i]}); int64_t w = bn[i]; if (bf[0] == bf[1] && bt[0] == bt[1]) w = t; vp_assert(it != a.branch_counters.end() && it->second == w, "count of a branch"); }
  if (!spe) { auto it = a.fallthrough_counters.find({.from = xf, .to = xt}); vp_assert(a.fallthrough_counters.size() == 1 && it != a.fallthrough_counters.end() && it->second == xn, "fall-throughs"); }
  if (fail == F_BUILD) return err(F_BUILD);
  auto p = std::make_unique<ProgramCfg>(absl::flat_hash_map<int, std::unique_ptr<ControlFlowGraph>>{}, std::move(f)); cfg = p.get(); return p;
}
absl::btree_map<llvm::StringRef, vector<FunctionClusterInfo>> GenerateLayoutBySection(const ProgramCfg& p, const PropellerCodeLayoutParameters& q, PropellerStats::CodeLayoutStats& st) {
  tick(); layouts++; vp_assert(&p == cfg && &st == &stats0->code_layout_stats, "the program that was built"); vp_assert(q.chain_split_threshold() == 77, "layout parameters");
  absl::btree_map<llvm::StringRef, vector<FunctionClusterInfo>> r; r[".text"].push_back({.function_index = 7}); return r;
}
void PropellerProfileWriter::Write(const PropellerProfile& p) const {
  tick(); writes++; wrote = options_.cluster_out_name(); vp_assert(p.program_cfg.get() == cfg && cfg, "the program that was laid out"); auto& m = p.functions_cluster_info_by_section_name; auto it = m.find(".text");
  vp_assert(m.size() == 1 && it != m.end() && it->second.size() == 1 && it->second[0].function_index == 7, "the layout"); vp_assert(options_.cluster_out_version() == ClusterEncodingVersion::VERSION_1, "options of the writer"); vp_assert(!reports, "reports come last");
}
}
extern "C" void pipeline() {
  int c = vp_cfg(), np = c & 3; bool own = c & 4; builtin = !own; fail = vp_choose(NFAIL, "failing stage");
  PropellerOptions o; o.set_binary_name("the binary"); o.set_cluster_out_name("out"); o.set_cluster_out_version(ClusterEncodingVersion::VERSION_1); o.mutable_code_layout_params()->set_chain_split_threshold(77);
  for (int i = 0; i < 2; i++) { bf[i] = vp_bytes(6, "from"); bt[i] = vp_bytes(6, "to"); bn[i] = (int64_t)vp_bytes(6, "count"); } xf = vp_bytes(6, "from"); xt = vp_bytes(6, "to"); xn = (int64_t)vp_bytes(6, "count");
  if (bf[0] == bf[1] && bt[0] == bt[1]) {}
  static const char* nm[] = {"one", "two", "three"}; vector<string> given; int kinds = 0, kind = 0; bool module = vp_choose(2, "module names"); if (module) o.set_output_module_name(true);
  for (int i = 0; i < np; i++) { int k = vp_choose(4, "kind"); auto* p = o.add_input_profiles(); p->set_name(nm[i]); given.push_back(nm[i]); if (k || vp_choose(2, "kind is given")) p->set_type((ProfileType)k); int e = k ? k : (int)PERF_LBR; if (!i || !(kinds & 1 << e)) {} kinds |= 1 << e; kind = e; }
  bool old = !own && np == 1 && vp_choose(2, "deprecated names"); if (old) o.add_profile_names("old");
  bool mixed = kinds & (kinds - 1), http = vp_choose(2, "http"); if (http) o.set_http(true); if (own) kind = vp_choose(4, "kind of own data");
  spe = kind == PERF_SPE; auto& reg = StatusConsumerRegistry::GetInstance(); reg.Register(std::make_unique<Con>()); bool two = vp_choose(2, "reporters");
  for (int i = 0; i <= two; i++) RegisterPropellerTelemetryReporter([i](const BinaryContent& b, const PropellerStats& s) { vp_assert(reports == i && writes == 1, "reporters in order, after writing"); reports++; vp_assert(b.file_name == "the binary" && b.build_id == "id", "reported binary"); vp_assert(&s == stats0 && s.profile_stats.br_counters_accumulated == 5 && s.cfg_stats.cfgs_created == 3, "reported statistics"); });
  absl::Status s = own ? GeneratePropellerProfiles(o, std::make_unique<Own>(), (ProfileType)kind) : GeneratePropellerProfiles(o);
  bool bad = own ? kind != PERF_LBR && kind != PERF_SPE : old || !np || mixed || (kind != PERF_LBR && kind != PERF_SPE);
  if (bad) { vp_assert(s.code() == absl::StatusCode::kInvalidArgument, "refused"); vp_assert(!writes && !perfs && !reads && names.empty() && !reports && !started && !stopped, "nothing is done for what is refused"); vp_observe("refused", np); vp_reach("refused"); vp_must_reach("refused"); return; }
  vp_assert(started == (http ? 1 : 0) && stopped == started && !open_, "status consumers are stopped");
  if (fail && !(module && fail == F_BUILD)) { vp_assert(!s.ok() && s.message() == absl::StrCat("stage ", fail), "the failure is returned"); }
  else if (module) vp_assert(s.code() == absl::StatusCode::kFailedPrecondition, "module names need debug information");
  else { vp_assert(s.ok(), "generated"); vp_assert(writes == 1 && layouts == 1 && builds == 1 && maps == 1 && perfs == 1 && wrote == "out", "each stage once"); vp_assert(reports == 1 + two, "every reporter"); }
  if (fail || module) vp_assert(!writes && !reports, "nothing is written after a failure");
  if (perfs) { vp_assert(names.size() == (own ? 2u : given.size()), "every profile"); for (size_t i = 0; i < names.size(); i++) vp_assert(names[i] == (own ? string("own") : given[i]), "profiles in order"); }
  if (fail != F_READ) vp_assert(perfs == 1, "the profiles are read once");
  for (size_t i = 0; i + 1 < prog.size(); i++) vp_assert(prog[i] <= prog[i + 1], "progress does not go back");
  if (http && !fail && !module) { vp_assert(prog.size() >= 6, "stages seen"); vp_assert(prog.front() < 10 && prog.back() > 90, "progress"); }
  vp_observe("written", writes); vp_reach(fail || module ? "failed" : "done"); vp_must_reach("failed"); vp_must_reach("done");
}
// The profile computer used on its own.
extern "C" void computer() {
  int c = vp_cfg(), np = c & 3; bool own = c & 4; fail = vp_choose(NFAIL, "failing stage"); spe = false;
  PropellerOptions o; o.set_binary_name("the binary"); o.set_cluster_out_name("out"); o.mutable_code_layout_params()->set_chain_split_threshold(77);
  for (int i = 0; i < 2; i++) { bf[i] = vp_bytes(6, "from"); bt[i] = vp_bytes(6, "to"); bn[i] = (int64_t)vp_bytes(6, "count"); } xf = vp_bytes(6, "from"); xt = vp_bytes(6, "to"); xn = (int64_t)vp_bytes(6, "count");
  static const char* nm[] = {"one", "two", "three"}; vector<string> given; bool bad = false; if (!own && vp_choose(2, "old name")) { o.add_profile_names("old"); given.push_back("old"); }
  for (int i = 0; i < np; i++) { int k = vp_choose(4, "kind"); auto* p = o.add_input_profiles(); p->set_name(nm[i]); given.push_back(nm[i]); if (k) p->set_type((ProfileType)k); bad |= k > 1; }
  auto r = own ? PropellerProfileComputer::Create(o, std::make_unique<Own>()) : PropellerProfileComputer::Create(o);
  if (bad) { vp_assert(r.status().code() == absl::StatusCode::kInvalidArgument, "other kinds are refused"); vp_assert(!reads && names.empty(), "nothing is read"); vp_reach("refused"); vp_observe("refused", np); return; }
  if (fail == F_READ) { vp_assert(!r.ok() && r.status().message() == "stage 1", "unreadable binary"); vp_reach("failed"); return; }
  vp_assert(r.ok(), "created"); vp_assert(reads == 1 && names.empty(), "profiles are read when needed");
  bool st = vp_choose(2, "status"); DefaultStatusProvider a("map"), b("layout"); auto p = (*r)->ComputeProfile(st ? &a : nullptr, st ? &b : nullptr);
  vp_assert(p.ok() == !fail, "outcome"); if (fail) vp_assert(p.status().message() == absl::StrCat("stage ", fail), "the failure is returned");
  vp_assert(names.size() == (own ? 2u : given.size()), "every profile"); if (!own) for (size_t i = 0; i < names.size(); i++) vp_assert(names[i] == given[i], "profiles in order");
  if (!fail) { vp_assert(p->program_cfg.get() == cfg && cfg->cfgs_by_index().empty() && p->functions_cluster_info_by_section_name.size() == 1, "the profile"); vp_assert((*r)->stats().profile_stats.br_counters_accumulated == 5 && (*r)->stats().cfg_stats.cfgs_created == 3, "statistics"); }
  if (st) vp_assert(a.IsDone() == !fail && b.IsDone() == !fail, "status");
  vp_observe("written", writes); vp_reach(fail ? "failed" : "done"); vp_must_reach("failed"); vp_must_reach("done");
}
