// S11: SPE perf files read for AutoFDO, and perf files handed out in order.
#include "vp.h"
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "spe_sample_reader.h"
#include "llvm_propeller_binary_content.h"
#include "llvm_propeller_file_perf_data_provider.h"
#include "mini_disassembler.h"
#include "symbol_map.h"
#include "llvm/Object/ELFObjectFile.h"
#include "quipper/perf_reader.h"
#include "elfgen.h"
using namespace devtools_crosstool_autofdo;
typedef std::map<std::pair<uint64_t, uint64_t>, uint64_t> M2;
namespace {
struct Buf : llvm::MemoryBuffer { std::string s; Buf(const std::string& x) : s(x) { init(s.data(), s.data() + s.size(), false); } BufferKind getBufferKind() const override { return MemoryBuffer_Malloc; } };
struct File { std::string name; int kind; bool id; M2 taken; std::map<uint64_t, uint64_t> not_taken; };
std::vector<File> fs; std::vector<std::vector<quipper::ArmSpeDecoder::Record>> recs; std::vector<std::string> opened; bool gBin = true, gDis = true; int gMach = EM_AARCH64; std::string gId; unsigned char* img; size_t imgn; int kernelAsked = -1;
const char* MAPS[] = {"/bin/prog", "/opt/prog-2", "/bin/other"};
bool isBr(uint64_t a) { return (a & 0xf) == 0xc; }
}
llvm::ErrorOr<std::unique_ptr<llvm::MemoryBuffer>> llvm::MemoryBuffer::getFile(const llvm::Twine& n, bool, bool, bool, std::optional<llvm::Align>) {
  llvm::SmallString<32> b; std::string q = n.toStringRef(b).str(); opened.push_back(q);
  for (size_t i = 0; i < fs.size(); i++) if (fs[i].name == q && fs[i].kind) {
    auto& s = quipper::vp_scenario(); s = quipper::VpScenario(); s.parsable = s.readable = fs[i].kind != 1;
    if (!recs.empty()) {
      auto* e = s.events.Add(); e->mutable_header()->set_type(quipper::PERF_RECORD_MMAP); auto* m = e->mutable_mmap_event(); m->set_filename(MAPS[fs[i].kind == 1 ? 0 : fs[i].kind - 2]); m->set_start(0x1000); m->set_len(0x1000); m->set_pid(100); m->set_pgoff(0);
      if (fs[i].id) { auto* d = s.build_ids.Add(); d->set_filename(MAPS[fs[i].kind == 1 ? 0 : fs[i].kind - 2]); d->set_build_id_hash("\xab"); }
      s.events.Add()->mutable_auxtrace_event()->set_trace_data(std::string(1, 0)); s.spe.push_back(recs[i]);
    }
    return std::unique_ptr<llvm::MemoryBuffer>(new Buf(q));
  }
  return std::make_error_code(std::errc::no_such_file_or_directory);
}
namespace devtools_crosstool_autofdo {
absl::StatusOr<std::unique_ptr<BinaryContent>> GetBinaryContent(absl::string_view n) {
  if (!gBin) return absl::FailedPreconditionError("no binary"); auto b = std::make_unique<BinaryContent>(); b->file_name = std::string(n); b->build_id = gId; b->segments.push_back({0x400, 0x1000, 0x1000});
  auto o = llvm::object::ELFObjectFile<llvm::object::ELF64LE>::create(llvm::MemoryBufferRef(llvm::StringRef((char*)img, imgn), "b"), false); if (!o) vp_stop(); b->object_file = std::make_unique<llvm::object::ELFObjectFile<llvm::object::ELF64LE>>(std::move(*o)); return b;
}
absl::StatusOr<absl::Nonnull<std::unique_ptr<MiniDisassembler>>> MiniDisassembler::Create(const llvm::object::ObjectFile* o) { if (!gDis || !o) return absl::InternalError("no target"); return std::unique_ptr<MiniDisassembler>(new MiniDisassembler(o)); }
absl::StatusOr<bool> MiniDisassembler::MayAffectControlFlow(uint64_t a) { return isBr(a); }
// the binary's segments are decided by S09 and D-properties
void SymbolMap::BuildSymbolMap() {}
void SymbolMap::initSuffixElisionPolicy() {}
void SymbolMap::ReadLoadableExecSegmentInfo(bool k) { kernelAsked = k; add_loadable_exec_segment(0x400, 0x1000); }
}
extern "C" void spefiles() {
  int c = vp_cfg(); bool dis = c & 1, two = c & 2; gId = c & 4 ? "ab" : ""; int env = vp_choose(4, "environment"); elfgen::Image<elfgen::A64> im(ET_EXEC, gMach = env == 1 ? EM_X86_64 : EM_AARCH64); im.add("", SHT_NULL, ""); imgn = im.finish(&img);
  gBin = env != 2; gDis = env != 3; static const char* PAT[] = {"prog", "^/bin/prog$", "-2"}; int pat = env || (c & 4) ? 0 : vp_choose(3, "pattern"); M2 br, rg; auto off = [](uint64_t a) { return a - 0x1000 + 0x400; };
  int n = 1 + two; PerfSpeDataSampleReader r(dis ? PerfSpeDataSampleReader::BranchIdStrategy::kDisassembly : PerfSpeDataSampleReader::BranchIdStrategy::kSampling, "f0", PAT[pat], "/bin/b");
  for (int i = 0; i < n; i++) {
    File f; f.name = i ? "f1" : "f0"; f.kind = i ? 2 + vp_choose(2, "mapped") : env ? 2 : vp_choose(5, "file"); f.id = (c & 4) && vp_choose(2, "has build id"); std::vector<quipper::ArmSpeDecoder::Record> v; int nr = i ? 1 : 2 + vp_tier();
    for (int j = 0; j < nr; j++) {
      quipper::ArmSpeDecoder::Record x; x.event.retired = x.op.is_br_eret = x.op.br_eret.br_cond = x.context.el1 = true; x.context.id = 100; uint64_t fr = j == 0 && !i ? 0x1100 + 4 * vp_below(8, "from") : 0x110c, to = j ? 0x1100 : vp_choose(2, "to") ? 0x1108 : 0x1110; bool nt = j && vp_choose(2, "not taken"); x.event.cond_not_taken = nt; x.ip.addr = fr; x.tgt_br_ip.addr = to; v.push_back(x); if (nt) f.not_taken[fr]++; else f.taken[{fr, to}]++;
    }
    recs.push_back(v); fs.push_back(f);
  }
  bool any = false;
  for (int i = 0; i < n; i++) {
    File& f = fs[i]; bool sel = f.kind >= 2 && (!gId.empty() ? f.id : pat == 0 ? f.kind < 4 : pat == 1 ? f.kind == 2 : f.kind == 3), ok = sel && gBin && gMach == EM_AARCH64 && (gDis || !dis); kernelAsked = -1; size_t was = opened.size();
    bool got = i == 0 ? r.ReadAndSetTotalCount() : r.Append(f.name); if (i) vp_assert(got == ok, "files of the binary are read, others refused"); any |= ok; if (gBin && gMach == EM_AARCH64) vp_assert(opened.size() == was + 1 && opened.back() == f.name, "the file asked for");
    if (ok) {
      vp_assert(kernelAsked == 0, "user mode"); std::map<uint64_t, uint64_t> in; for (auto& x : f.taken) { br[{off(x.first.first), off(x.first.second)}] += x.second; in[x.first.second] += x.second; }
      auto branch = [&](uint64_t a) { if (dis) return isBr(a); bool b = false; for (auto& x : f.taken) b |= x.first.first == a; for (auto& x : f.not_taken) b |= x.first == a; return b; };
      uint64_t w = 0; for (auto it = in.begin(); it != in.end(); ++it) { uint64_t a = it->first, end = std::next(it) == in.end() ? a + 0x1000 : std::next(it)->first, st = a; w += it->second; for (; a < end && w; a += 4) { bool b = branch(a); if (b || a + 4 >= end) { rg[{off(st), off(a)}] += w; st = a + 4; if (b) { auto q = f.not_taken.find(a); w = q == f.not_taken.end() ? 0 : q->second; } } } }
    }
    auto same = [&](auto& m, M2& w) { vp_assert(m.size() == w.size(), "number of entries"); for (auto& x : w) { auto q = m.find(x.first); vp_assert(q != m.end() && q->second == x.second, "count"); } };
    same(r.branch_count_map(), br); same(r.range_count_map(), rg); if (i == 0) { uint64_t t = 0; for (auto& x : rg) t += (x.first.second - x.first.first + 1) * x.second; (void)t; vp_assert(got == ok, "read"); }
  }
  vp_observe("branches", br.size()); vp_reach(any ? "read" : "refused"); vp_must_reach("read"); vp_must_reach("refused");
}
// Several files, in order.
extern "C" void provider() {
  int n = vp_cfg() & 3; bool all = vp_cfg() & 4; std::vector<std::string> names; for (int i = 0; i < n; i++) { File f; f.name = std::string("f") + (char)('0' + vp_choose(2, "name")) ; f.kind = vp_choose(2, "there") ? 2 : 0; for (auto& x : fs) if (x.name == f.name) f.kind = x.kind; names.push_back(f.name); fs.push_back(f); }
  GenericFilePerfDataProvider p(names); int bad = n; for (int i = n; i--;) if (!fs[i].kind) bad = i;
  auto check = [&](PerfDataProvider::BufferHandle& h, int i) { std::string b = h.buffer->getBuffer().str(); vp_assert(b == names[i], "content of the file"); vp_assert(h.description == std::string("[") + (char)('1' + i) + "/" + (char)('0' + n) + "] " + names[i], "description"); };
  if (all) { auto g = p.GetAllAvailableOrNext(); vp_assert(g.ok() == (bad == n), "an unreadable file is an error"); if (g.ok()) { vp_assert((int)g->size() == n, "every file"); for (int i = 0; i < n && i < (int)g->size(); i++) check((*g)[i], i); auto h = p.GetAllAvailableOrNext(); vp_assert(h.ok() && h->empty(), "nothing twice"); } }
  else for (int i = 0; i <= n; i++) { auto g = p.GetNext(); if (i == bad && bad < n) { vp_assert(!g.ok(), "an unreadable file is an error"); break; } vp_assert(g.ok(), "read"); if (!g.ok()) break; vp_assert(g->has_value() == (i < n), "end of the files"); if (g->has_value()) check(**g, i); }
  vp_observe("bad", bad); vp_reach(bad == n ? "ok" : "bad"); vp_must_reach("ok");
}
