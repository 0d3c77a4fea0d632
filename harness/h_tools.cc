// T03: the command line tools that create profiles.
#include "vp.h"
#include <fstream>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace { std::map<std::string, std::string>& listFiles() { static std::map<std::string, std::string> m; return m; } int listReads; }
namespace std {
struct vpifstream { const string* s = nullptr; size_t at = 0; bool ok = true; explicit vpifstream(const string& n) { listReads++; auto i = listFiles().find(n); if (i != listFiles().end()) s = &i->second; else ok = false; } explicit operator bool() const { return ok; } bool is_open() const { return s; } bool good() const { return ok; } bool operator!() const { return !ok; } void close() {} };
inline vpifstream& getline(vpifstream& f, string& o) { if (!f.s || f.at >= f.s->size()) { f.ok = false; return f; } size_t e = f.at; while (e < f.s->size() && (*f.s)[e] != '\n') e++; o = f.s->substr(f.at, e - f.at); f.at = e + 1; return f; }
}
#define ifstream vpifstream
#define main tool_main
#if TOOL == 1
#include "create_llvm_prof.cc"
#elif TOOL == 2
#include "create_gcov.cc"
#else
#include "sample_merger.cc"
#endif
#undef main
#include "profile_writer.h"
using namespace devtools_crosstool_autofdo;
namespace {
// what the tool asked for
struct { int created = 0, generated = 0, merged = 0, written = 0; std::string profile, profiler, out, binary, kind; std::vector<std::string> inputs; bool syms = false, check = false, writerLost = false, disc = false; uint64_t format = 0; bool answer = true; } did;
ProfileWriter* lastWriter;
int run() { char* a[] = {(char*)"tool", nullptr}; return tool_main(1, a); }
const char* pick(const char* what, std::vector<const char*> v) { return v[vp_choose(v.size(), what)]; }
}
#if TOOL != 3
namespace devtools_crosstool_autofdo {
bool ProfileCreator::CreateProfile(const std::string& p, const std::string& r, ProfileWriter* w, const std::string& o, bool s, bool c) {
  did.created++; did.profile = p; did.profiler = r; did.out = o; did.binary = binary_; did.syms = s; did.check = c;
#if TOOL == 1
  did.disc = absl::GetFlag(FLAGS_use_discriminator_encoding);
#endif
  if (!w) did.writerLost = true; else w->WriteToFile(o); return did.answer;
}
#if TOOL == 2
bool AutoFDOProfileWriter::WriteToFile(const std::string&) { did.written++; did.kind = "gcov"; did.format = gcov_version_; return true; }
#endif
}
#endif
#if TOOL == 1
ABSL_FLAG(bool, use_discriminator_encoding, false, "");
namespace { PropellerOptions* seen; }
namespace devtools_crosstool_autofdo {
bool LLVMProfileWriter::WriteToFile(const std::string&) { did.written++; did.kind = "llvm"; did.format = format_; return true; }
absl::Status GeneratePropellerProfiles(const PropellerOptions& o) { did.generated++; seen = new PropellerOptions(o); if (!did.answer) return absl::InternalError("failed"); return absl::OkStatus(); }
}
extern "C" void llvmprof() {
  int c = vp_cfg(); static const char* FORMAT[] = {"text", "binary", "extbinary", "propeller", "json"}; std::string format = FORMAT[c % 5]; bool prop = c % 5 == 3; did.answer = vp_choose(2, "works");
  std::string out = pick("out", {"", "o", "p"}), gcov = pick("gcov", {"", "o"}), profile = pick("profile", {"perf.data", "a;b", "@list", "", "@none", "a;;b;"}), profiler = pick("profiler", {"perf", "perf_spe", "text"}); bool ign = vp_choose(2, "ignore"), list = vp_choose(2, "symbol list");
  std::string one; one.push_back((char)vp_any<unsigned char>("letter")); one.push_back((char)vp_any<unsigned char>("letter")); vp_assume((one[0] != '\n') & (one[1] != '\n') & (one[0] != 0) & (one[1] != 0)); if (profile == "@list") listFiles()["list"] = "x/1\n#c\n\n" + one + "\nlast";
  absl::SetFlag(&FLAGS_format, format); absl::SetFlag(&FLAGS_out, out); absl::SetFlag(&FLAGS_gcov, gcov); absl::SetFlag(&FLAGS_profile, profile); absl::SetFlag(&FLAGS_profiler, profiler); absl::SetFlag(&FLAGS_binary, std::string("bin")); absl::SetFlag(&FLAGS_ignore_build_id, ign); absl::SetFlag(&FLAGS_prof_sym_list, list);
  int r = run(); std::string to = gcov.empty() ? out : gcov; bool bad = (!gcov.empty() && !out.empty() && gcov != out) || to.empty() || (ign && !prop); bool multi = profile == "a;b" || profile == "a;;b;" || profile[0] == '@';
  if (!prop) bad |= multi || c % 5 == 4 || (list && format != "extbinary");
  vp_reach(bad ? "refused" : "run"); vp_must_reach("refused"); if (c % 5 != 4) vp_must_reach("run"); vp_assert((r == 0) == (!bad && did.answer), "exit status"); vp_assert(did.created == (!bad && !prop) && did.generated == (!bad && prop), "what is created"); vp_observe("status", r == 0); if (bad) return;
  if (!prop) {
    vp_assert(did.profile == profile && did.profiler == profiler && did.out == to && did.binary == "bin" && did.syms == list && !did.check, "profile, kind, binary and output"); vp_assert(!did.writerLost && did.kind == "llvm" && did.format == (uint64_t)(c % 5 == 0 ? llvm::sampleprof::SPF_Text : c % 5 == 1 ? llvm::sampleprof::SPF_Binary : llvm::sampleprof::SPF_Ext_Binary), "format"); vp_assert(did.disc, "discriminators are encoded");
  } else {
    std::vector<std::string> in; if (profile == "@list") { in = {"x/1", one, "last"}; if (one[0] == '#') in.erase(in.begin() + 1); } else if (profile == "@none") ; else if (multi) in = {"a", "b"}; else if (!profile.empty()) in = {profile};
    ProfileType t = profiler == "perf" ? PERF_LBR : profiler == "perf_spe" ? PERF_SPE : PROFILE_TYPE_UNSPECIFIED; vp_assert(seen->input_profiles_size() == (int)in.size(), "number of profiles");
    for (size_t i = 0; i < in.size() && (int)i < seen->input_profiles_size(); i++) { vp_assert(seen->input_profiles(i).name() == in[i], "profile"); vp_assert(seen->input_profiles(i).type() == t, "kind of a profile"); }
    vp_assert(seen->binary_name() == "bin" && seen->cluster_out_name() == to && seen->ignore_build_id() == ign, "binary and output");
  }
}
extern "C" void layoutoptions() {
  bool b[8]; for (auto& x : b) x = vp_choose(2, "flag"); uint32_t thr = vp_any<uint32_t>("threshold"), fw = vp_any<uint32_t>("forward"), bw = vp_any<uint32_t>("backward"); int ver = vp_choose(3, "version"); std::string dump = pick("dump", {"", "d"}), sym = pick("order", {"", "s"}), prof = pick("profiled", {"", "n"}); 
  absl::SetFlag(&FLAGS_format, std::string("propeller")); absl::SetFlag(&FLAGS_out, std::string("o")); absl::SetFlag(&FLAGS_propeller_cfg_dump_dir, dump); absl::SetFlag(&FLAGS_propeller_symorder, sym); absl::SetFlag(&FLAGS_profiled_binary_name, prof); absl::SetFlag(&FLAGS_propeller_chain_split_threshold, thr); absl::SetFlag(&FLAGS_propeller_forward_jump_distance, fw); absl::SetFlag(&FLAGS_propeller_backward_jump_distance, bw);
  absl::SetFlag(&FLAGS_propeller_chain_split, b[0]); absl::SetFlag(&FLAGS_propeller_verbose_cluster_output, b[1]); absl::SetFlag(&FLAGS_propeller_call_chain_clustering, b[2]); absl::SetFlag(&FLAGS_propeller_inter_function_ordering, b[3]); absl::SetFlag(&FLAGS_http, b[4]); absl::SetFlag(&FLAGS_propeller_split_only, b[5]); absl::SetFlag(&FLAGS_propeller_layout_only, b[6]); absl::SetFlag(&FLAGS_propeller_output_module_name, b[7]); absl::SetFlag(&FLAGS_propeller_cluster_encoding_version, ver);
  int r = run(); bool bad = b[5] && b[6]; vp_assert((r == 0) == !bad && did.generated == !bad && !did.created, "contradictory options are refused"); vp_reach(bad ? "refused" : "run"); vp_must_reach("refused"); vp_must_reach("run"); vp_observe("status", r == 0); if (bad) return;
  auto& o = *seen; auto& p = o.code_layout_params(); vp_assert(p.chain_split() == b[0] && o.verbose_cluster_output() == b[1] && p.call_chain_clustering() == b[2] && p.inter_function_reordering() == b[3] && o.http() == b[4] && p.reorder_hot_blocks() == !b[5] && p.split_functions() == !b[6] && o.output_module_name() == b[7], "switches"); vp_assert((int)o.cluster_out_version() == ver, "version");
  vp_assert(p.chain_split_threshold() == thr && p.forward_jump_distance() == fw && p.backward_jump_distance() == bw, "distances"); vp_assert(o.cfg_dump_dir_name() == dump && o.symbol_order_out_name() == sym && o.profiled_binary_name() == prof, "names");
}
#elif TOOL == 2
ABSL_FLAG(uint64_t, gcov_version, 0x3430372a, "");
extern "C" void creategcov() {
  std::string profile = pick("profile", {"perf.data", "x"}), profiler = pick("profiler", {"perf", "text"}), bin = pick("binary", {"a.out", "b"}), out = pick("out", {"o", "fbdata.afdo"}); uint32_t v = vp_any<uint32_t>("version"); did.answer = vp_choose(2, "works"); absl::SetFlag(&FLAGS_profile, profile); absl::SetFlag(&FLAGS_profiler, profiler); absl::SetFlag(&FLAGS_binary, bin); absl::SetFlag(&FLAGS_gcov, out); absl::SetFlag(&FLAGS_gcov_version, (uint64_t)v);
  int r = run(); vp_assert((r == 0) == did.answer, "exit status"); vp_assert(did.created == 1 && did.profile == profile && did.profiler == profiler && did.binary == bin && did.out == out && !did.syms && !did.check && !did.writerLost && did.kind == "gcov" && did.format == v, "profile, kind, binary, output and version"); vp_observe("status", r == 0); vp_reach("run"); vp_must_reach("run");
}
#else
namespace devtools_crosstool_autofdo {
bool MergeSample(const std::vector<std::string>& f, const std::string& k, absl::string_view b, absl::string_view o) { did.merged++; did.inputs = f; did.profiler = k; did.binary = std::string(b); did.out = std::string(o); return did.answer; }
}
extern "C" void samplemerger() {
  std::string profile = pick("profile", {"one", ""}), kind = pick("profiler", {"perf", "text"}), bin = pick("binary", {"a.out", "b"}), out = pick("out", {"o", "data.txt"}); std::vector<std::string> many; int n = vp_choose(4, "profiles"); for (int i = 0; i < n; i++) many.push_back(pick("name", {"p", "q", ""})); did.answer = vp_choose(2, "works");
  absl::SetFlag(&FLAGS_profile, profile); absl::SetFlag(&FLAGS_profiles, many); absl::SetFlag(&FLAGS_profiler, kind); absl::SetFlag(&FLAGS_binary, bin); absl::SetFlag(&FLAGS_output_file, out); int r = run(); if (!n) many.push_back(profile);
  vp_assert((r == 0) == did.answer, "exit status"); vp_assert(did.merged == 1 && did.inputs == many && did.profiler == kind && did.binary == bin && did.out == out, "inputs, kind, binary and output"); vp_observe("status", r == 0); vp_reach("run"); vp_must_reach("run");
}
#endif
