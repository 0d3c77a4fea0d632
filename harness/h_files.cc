// S10: aggregating several perf files.
#include "vp.h"
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "llvm_propeller_options.pb.h"
#include "llvm_propeller_perf_branch_frequencies_aggregator.h"
#include "llvm_propeller_perf_lbr_aggregator.h"
#include "llvm_propeller_statistics.h"
#include "mini_disassembler.h"
#include "quipper/perf_reader.h"
using namespace devtools_crosstool_autofdo;
namespace {
struct Buf : llvm::MemoryBuffer { static char d[8]; Buf() { init(d, d + 7, true); } BufferKind getBufferKind() const override { return MemoryBuffer_Malloc; } }; char Buf::d[8] = "PERFDAT";
struct File { int kind, name; bool id; };
// Each file becomes the scenario when it is handed out.
struct Files : PerfDataProvider {
  const std::vector<File>* f; std::function<void(int)> setup; bool err; size_t at = 0; int* calls;
  absl::StatusOr<std::optional<BufferHandle>> GetNext() override { (*calls)++; if (at == f->size()) { if (err) return absl::UnavailableError("no more"); return std::nullopt; } setup(at++); BufferHandle h; h.description = "perf.data"; h.buffer.reset(new Buf); return std::optional<BufferHandle>(std::move(h)); }
};
bool gDis;
int kindOf(uint64_t a) { return a & 8 ? 2 : a & 4 ? 1 : 0; }   // 0 branch, 1 other instruction, 2 no instruction
}
// The disassembler is the LLVM one in the real tool.
namespace devtools_crosstool_autofdo {
absl::StatusOr<absl::Nonnull<std::unique_ptr<MiniDisassembler>>> MiniDisassembler::Create(const llvm::object::ObjectFile* o) { if (!gDis) return absl::InternalError("no target"); return std::unique_ptr<MiniDisassembler>(new MiniDisassembler(o)); }
absl::StatusOr<llvm::MCInst> MiniDisassembler::DisassembleOne(uint64_t a) { if (kindOf(a) == 2) return absl::InternalError("bytes"); llvm::MCInst i; i.setOpcode(kindOf(a)); return i; }
bool MiniDisassembler::MayAffectControlFlow(const llvm::MCInst& i) { return i.getOpcode() == 0; }
llvm::StringRef MiniDisassembler::GetInstructionName(const llvm::MCInst&) const { return "insn"; }
}
extern "C" void files() {
  int c = vp_cfg(); bool lbr = c & 1; static const char* NM[] = {"/bin/prog", "/bin/other", "/bin/deployed"}; PropellerOptions o; o.set_binary_name("/bin/prog"); bool profiled = vp_choose(2, "profiled name"), ignore = vp_choose(2, "ignore build id"); if (profiled) o.set_profiled_binary_name("/bin/deployed"); if (ignore) o.set_ignore_build_id(true);
  BinaryContent b; b.file_name = "/bin/prog"; if (c & 2) b.build_id = "ab"; int n = 1 + (c >> 2 & 1) + vp_tier(); std::vector<File> fs; for (int i = 0; i < n; i++) { File f; f.kind = i ? vp_choose(3, "file") : 2; f.name = vp_choose(3, "mapped"); f.id = vp_choose(2, "has build id"); fs.push_back(f); }
  std::vector<std::vector<std::pair<uint64_t, uint64_t>>> recs(n); for (int i = 0; i < n; i++) for (int j = 0; j < 2; j++) { static const uint64_t K[] = {0x1100, 0x1104, 0x1108, 0x3000}; uint64_t fr = i + j ? K[(i == 0 || n == 1) ? vp_choose(4, "from") : j ? 1 : 0] : 0x1000 + (vp_bytes(2, "from") & 0xfff0), to = 0x1800 + 4 * j; recs[i].push_back({fr, to}); }
  Files* p = new Files; int calls = 0; p->f = &fs; p->calls = &calls; p->err = (c & 4) && vp_choose(2, "provider fails"); p->setup = [&](int i) {
    auto& s = quipper::vp_scenario(); s = quipper::VpScenario(); s.readable = fs[i].kind != 0; s.parsable = fs[i].kind != 1;
    auto* e = s.events.Add(); e->mutable_header()->set_type(quipper::PERF_RECORD_MMAP); auto* m = e->mutable_mmap_event(); m->set_filename(NM[fs[i].name]); m->set_start(0x1000); m->set_len(0x1000); m->set_pid(100 + i); m->set_pgoff(0); if (fs[i].id) { auto* q = s.build_ids.Add(); q->set_filename(NM[fs[i].name]); q->set_build_id_hash("\xab"); }
    if (lbr) { auto* v = s.events.Add(); v->mutable_header()->set_type(quipper::PERF_RECORD_SAMPLE); v->mutable_sample_event()->set_pid(100 + i); for (auto& r : recs[i]) { auto* x = v->mutable_sample_event()->bs.Add(); x->set_from_ip(r.first); x->set_to_ip(r.second); } }
    else { s.events.Add()->mutable_auxtrace_event()->set_trace_data(std::string(1, 0)); s.spe.resize(1); for (auto& r : recs[i]) { quipper::ArmSpeDecoder::Record x; x.event.retired = x.op.is_br_eret = x.context.el1 = true; x.context.id = 100 + i; x.ip.addr = r.first; x.tgt_br_ip.addr = r.second; s.spe[0].push_back(x); } }
  };
  PropellerStats st; st.profile_stats.binary_mmap_num = 3; st.profile_stats.br_counters_accumulated = 40; gDis = !(c & 8) || vp_choose(2, "disassembler"); int parsed = 0; std::map<std::pair<uint64_t, uint64_t>, int64_t> br; std::map<uint64_t, int64_t> src; int64_t total = 0;
  for (int i = 0; i < n; i++) { if (fs[i].kind != 2) continue; bool sel; if (profiled) sel = fs[i].name == 2; else if (ignore) sel = fs[i].name == 0; else sel = (c & 2) && fs[i].id; if (!sel) continue; parsed++; for (auto& r : recs[i]) { uint64_t f = r.first >= 0x1000 && r.first < 0x2000 ? r.first : ~0ull; br[{f, r.second}]++; total++; if (f != ~0ull) src[f]++; } }
  auto stats = [&] { vp_assert(st.profile_stats.perf_file_parsed == parsed && st.profile_stats.binary_mmap_num == 3 + parsed, "files and mappings counted"); vp_assert(st.profile_stats.br_counters_accumulated == 40 + (uint64_t)total, "branches counted"); };
  auto same = [&](auto& got) { vp_assert(got.size() == br.size(), "number of branches"); for (auto& x : br) { auto i = got.find({x.first.first, x.first.second}); vp_assert(i != got.end() && i->second == x.second, "branch"); } };
  bool ok = !p->err && parsed; vp_reach(ok ? "ok" : p->err ? "error" : "nothing"); vp_must_reach("ok"); bool err = p->err;
  if (lbr) {
    PerfLbrAggregator a((std::unique_ptr<PerfDataProvider>(p))); auto got = a.AggregateLbrData(o, b, st); vp_assert(got.ok() == (ok && gDis), "aggregated"); if (err) vp_assert(got.status().code() == absl::StatusCode::kUnavailable, "the error of the source"); if (!err) vp_assert(calls == n + 1, "every file read once"); if (!got.ok()) return; stats(); same(got->branch_counters);
    PropellerStats::DisassemblyStats w; for (auto& x : src) (kindOf(x.first) == 2 ? w.could_not_disassemble : kindOf(x.first) == 1 ? w.cant_affect_control_flow : w.may_affect_control_flow).Increment(x.second); auto eq = [](auto& x, auto& y) { return x.absolute == y.absolute && x.weighted == y.weighted; };
    vp_assert(eq(w.could_not_disassemble, st.disassembly_stats.could_not_disassemble) && eq(w.may_affect_control_flow, st.disassembly_stats.may_affect_control_flow) && eq(w.cant_affect_control_flow, st.disassembly_stats.cant_affect_control_flow), "instructions at branch sources");
  } else {
    PerfBranchFrequenciesAggregator a((std::unique_ptr<PerfDataProvider>(p))); auto got = a.AggregateBranchFrequencies(o, b, st); vp_assert(got.ok() == ok, "aggregated"); if (err) vp_assert(got.status().code() == absl::StatusCode::kUnavailable, "the error of the source"); if (!err) vp_assert(calls == n + 1, "every file read once"); if (!got.ok()) return; stats(); same(got->taken_branch_counters); vp_assert(got->not_taken_branch_counters.empty(), "no other branches");
  }
  vp_observe("total", total);
}
