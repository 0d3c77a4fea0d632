// T02: sample files, and prefetch hints, become profiles.
#include "profile_creator.h"
#include "addr2line.h"
#include "profile_writer.h"
#include "sample_reader.h"
#include "symref.h"
#include "elfgen.h"
#include "quipper/perf_reader.h"
using namespace rf;
using namespace elfgen;
ABSL_DECLARE_FLAG(std::string, focus_binary_re);
ABSL_DECLARE_FLAG(bool, use_lbr);
namespace {
struct F { const char* name; const char* orig; uint64_t lo; int n; };
const F FN[] = {{"aa", "aa", 0x401000, 3}, {"aa.cold", "aa", 0x401008, 2}, {"b", "b", 0x40100a, 2}};
enum { NF = 3, D = 0x400000 };
struct Frame { const char* fn; uint32_t line, disc; };
std::vector<Frame> st[NF][3];
bool nobinary;
uint64_t off(const Frame& s) { return (uint64_t)(s.line - 10) << 32 | s.disc; }
int fnOf(uint64_t a) { for (int f = 0; f < NF; f++) if (a >= FN[f].lo && a < FN[f].lo + FN[f].n) return f; return -1; }
struct Fake : Addr2line {
  Fake() : Addr2line("a.out") {}
  bool Prepare() override { return true; }
  void GetInlineStack(uint64_t a, SourceStack* s) const override { int f = fnOf(a); if (f >= 0) for (auto& x : st[f][a - FN[f].lo]) s->push_back(SourceInfo(x.fn, "dir", "f.c", 10, x.line, x.disc)); }
};
void binary(const char* file) {
  Image<A64> im(ET_EXEC, EM_X86_64); im.add("", SHT_NULL, ""); std::string b; Str s; Elf64_Sym z{}; put(b, z);
  for (auto& f : FN) { Elf64_Sym y{}; y.st_name = s.add(f.name); y.st_value = f.lo; y.st_size = f.n; y.st_info = 16 + STT_FUNC; y.st_shndx = 1; put(b, y); }
  int ix = im.add(".symtab", SHT_SYMTAB, b); im.sh[ix].sh_entsize = sizeof z; im.sh[ix].sh_link = ix + 1; im.add(".strtab", SHT_STRTAB, s.s);
  Elf64_Phdr p{}; p.p_type = PT_LOAD; p.p_flags = PF_R | PF_X; p.p_offset = 0x1000; p.p_vaddr = 0x401000; im.ph.push_back(p); unsigned char* d; size_t n = im.finish(&d); vpe::add(file, d, n);
}
void sources(int shape) {
  st[0][0] = {{"aa", 11, 0}}; st[0][1] = {{"d", 12, vp_any<uint16_t>("disc")}, {"aa", 13, 2}}; st[0][2] = shape & 1 ? std::vector<Frame>{} : std::vector<Frame>{{"aa", 11, 5}};
  st[1][0] = {{"aa", 15, 0}}; st[1][1] = {{"aa", 11, 0}}; st[2][0] = {{"b", 10 + (uint32_t)vp_below(3, "line"), 0}}; st[2][1] = {{"e", 14, 0}, {"b", 11, 0}};
}
void text(const char* file, const std::string& t) { FILE* f = fopen(file, "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
std::string body(const char* file) { std::string r; FILE* f = fopen(file, "r"); if (!f) return "?"; char c; while (fread(&c, 1, 1, f) == 1) r += c; fclose(f); return r; }
struct Writer : ProfileWriter {
  Map* want; bool answer; int calls = 0; std::string file;
  bool WriteToFile(const std::string& f) override { calls++; file = f; check(*symbol_map_, *want, "profile handed to the writer"); vp_observe("functions", symbol_map_->map().size()); return answer; }
};
struct Cnt { struct E { uint64_t a, b, n; }; std::vector<E> e; void add(uint64_t a, uint64_t b, uint64_t n) { for (auto& x : e) if (x.a == a && x.b == b) { x.n += n; return; } e.push_back({a, b, n}); } };
}
namespace devtools_crosstool_autofdo { Addr2line* Addr2line::Create(absl::string_view b) { vp_assert(b == "a.out", "debug information of the binary"); return nobinary ? nullptr : new Fake; } }
// prefetch hints, one per line: address in hexadecimal, distance, kind
extern "C" void prefetch() {
  int c = vp_cfg(), n = c & 1 ? 3 : 2, broken = c & 2 ? 1 + (int)vp_choose(3, "defect") : 0; binary("a.out"); sources(c >> 2); std::string t; Map want; want.f.reserve(NF); Fn fn[NF]; bool on[NF] = {}; uint64_t at[3];
  static const uint64_t P[][4] = {{0x401000, 0x401002, 0x40100b, 0x401100}, {0x401000, 0x401001, 0x401008, 0x401009}, {0x401000, 0x40100b, 0x40100a, 0x401002}}; static const char* TY[] = {"NTA", "T0", "NTA_or_T2"};
  for (int i = 0; i < n; i++) {
    at[i] = P[i][vp_choose(i < 2 ? 4 : 2, "address")]; int64_t v = 0; bool neg = vp_choose(2, "negative"); int nd = i ? 1 : 2; std::string digits; for (int k = 0; k < nd; k++) { int d = vp_below(10, "digit"); v = v * 10 + d; digits += (char)('0' + d); } if (i == 1) { v = v * 10000000000ll + 1; digits += "0000000001"; }
    const char* ty = TY[i < 2 && !(i && n == 3) ? vp_choose(i ? 3 : 2, "kind") : 1]; char h[17]; int k = 16; h[16] = 0; for (uint64_t a = at[i]; a; a >>= 4) h[--k] = "0123456789abcdef"[a & 15]; bool bad = broken && i == 1;
    t += bad && broken == 1 ? "xyz" : h + k; t += bad && broken == 2 ? ";" : ","; if (neg) t += '-'; t += digits; t += bad && broken == 3 ? "," : std::string(",") + ty; t += bad && broken == 3 ? "" : "\n"; if (bad && broken == 3) break;
    if (bad) { t += "401000,5,NTA\n"; break; }
    int f = fnOf(at[i]); if (f < 0) continue; int index = 0; for (int j = 0; j < i; j++) index += at[j] == at[i]; bool first = !on[f]; on[f] = true;
    auto& s = st[f][at[i] - FN[f].lo]; if (s.empty()) continue; Fn* q = &fn[f]; uint64_t bogus = first ? 1 : 0; q->total += bogus; for (int k = (int)s.size() - 1; k > 0; k--) { q = &q->call(off(s[k]), s[k - 1].fn); q->total += bogus; }
    q->tgt(off(s[0]), std::string("__prefetch_") + ty + "_" + (char)('0' + index)) = neg ? 0 - (uint64_t)v : (uint64_t)v;
  }
  text("hints.txt", t); for (int f = 0; f < NF; f++) if (on[f]) want.get(FN[f].orig).add(fn[f]);
  ProfileCreator pc("a.out"); Writer w; w.want = &want; w.answer = vp_choose(2, "writer's answer"); bool ok = pc.CreateProfile("hints.txt", "prefetch", &w, "out.prof"); vp_assert(ok == w.answer && w.calls == 1 && w.file == "out.prof", "profile written"); vp_assert(pc.TotalSamples() == 0, "no samples");
  vp_reach(want.f.size() ? "some" : "none"); vp_must_reach("some");
}
// text samples of a binary
extern "C" void create() {
  int c = vp_cfg(); binary("a.out"); sources(0); const char* prof[] = {"text", "text", "text", "gprof", "prefetch", "text"}; Map want; want.f.reserve(NF); nobinary = c == 5 || c == 4; bool lbr = c != 1; absl::SetFlag(&FLAGS_use_lbr, lbr);
  std::string dn, dm; auto digits = [](int k, std::string& t) { uint64_t v = 0; while (k--) { int d = vp_below(10, "digit"); v = v * 10 + d; t += (char)('0' + d); } return v; }; uint64_t n = digits(3, dn), m = digits(1, dm);
  if (c != 2) text("in.txt", lbr ? "2\n1000-1002:" + dn + "\n1000-1001:" + dm + "\n1\n100b:9\n0\n" : "0\n2\n1000:" + dn + "\n1002:" + dm + "\n0\n");
  if ((lbr ? n * 3 + m * 2 : n + m) > 10) {
    uint64_t v[3] = {lbr ? n + m : n, lbr ? n + m : 0, lbr ? n : m}; Fn& T = want.get("aa"); T.total = v[0] + v[1] + v[2]; Pos& a = T.at(off(st[0][0][0])); a.n = v[0]; a.inst = 2; Pos& b = T.at(off(st[0][2][0])); b.n = v[2]; b.inst = 1; Fn& q = T.call(off(st[0][1][1]), "d"); q.total = v[1]; Pos& p = q.at(off(st[0][1][0])); p.n = v[1]; p.inst = 1; T.at(off(st[1][0][0])).inst = 1;
  } else if (c <= 1) vp_stop();
  ProfileCreator pc("a.out"); Writer out; out.want = &want; out.answer = true; bool ok = pc.CreateProfile("in.txt", prof[c], &out, "out.prof"); vp_assert(ok == (c <= 1), "exactly readable samples of a known kind make a profile"); vp_assert(out.calls == ok, "nothing is written otherwise");
  if (c <= 1) { vp_assert(pc.TotalSamples() == n + m, "total"); vp_assert(!pc.IsKernelSample(), "not the kernel"); uint64_t all = ProfileCreator::GetTotalCountFromTextProfile("in.txt"); vp_assert(all == n + m, "total of the text file"); }
  else if (c <= 3) vp_assert(c == 3 || ProfileCreator::GetTotalCountFromTextProfile("in.txt") == 0, "missing file");
  vp_reach("end"); vp_must_reach("end");
}
// merging sample files
extern "C" void mergesample() {
  int c = vp_cfg(), bad = vp_choose(4, "defect"); Cnt R, A, B; std::vector<std::string> in; static const char* NM[] = {"old.txt", "a.txt", "b.txt"}; bool old = c & 1;
  // defects: 1 missing input, 2 the existing output is no sample file, 3 unknown kind of samples
  for (int i = 0; i < 3; i++) {
    if (i == 0 && !old) continue;
    TextSampleReaderWriter w(NM[i]); uint64_t a = vp_choose(2, "address") ? 0x1000 : 0x2000, n = vp_below(5, "count");
    if (i != 1 || !(c & 2)) { w.IncRange(a, a + 16, n); R.add(a, a + 16, n); } if (i != 2) { w.IncAddress(a, n + 1); A.add(a, 0, n + 1); } if (c & 2) { w.IncBranch(a, 0x3000, n); B.add(a, 0x3000, n); }
    w.Write(nullptr);
  }
  in.push_back(c & 4 ? "" : "a.txt"); in.push_back(bad == 1 ? "none.txt" : c & 4 ? "a.txt" : ""); in.push_back("b.txt"); if (bad == 2) { if (!old) vp_stop(); text("old.txt", "x\n"); } std::string before = body("old.txt");
  bool ok = MergeSample(in, bad == 3 ? "gprof" : "text", "a.out", "old.txt");
  vp_assert(ok == !bad, "exactly readable samples are merged"); if (!ok) { vp_assert(body("old.txt") == before, "the output is left alone"); vp_reach("bad"); }
  else { TextSampleReaderWriter r("old.txt"); vp_assert(r.ReadAndSetTotalCount(), "output is readable"); vp_assert(r.range_count_map().size() == R.e.size() && r.address_count_map().size() == A.e.size() && r.branch_count_map().size() == B.e.size(), "merged samples"); for (auto& x : R.e) { auto i = r.range_count_map().find({x.a, x.b}); vp_assert(i != r.range_count_map().end() && i->second == x.n, "ranges add up"); } for (auto& x : A.e) { auto i = r.address_count_map().find(x.a); vp_assert(i != r.address_count_map().end() && i->second == x.n, "addresses add up"); } for (auto& x : B.e) { auto i = r.branch_count_map().find({x.a, x.b}); vp_assert(i != r.branch_count_map().end() && i->second == x.n, "branches add up"); } vp_reach("good"); }
  vp_observe("ok", ok); vp_must_reach("good"); vp_must_reach("bad");
}
// which samples of the recording belong to the binary
extern "C" void perf() {
  static const char* BN[] = {"a.out", "dir/a.out", "a.out.unstripped", "/x/y/a.out.unstripped.2", "b"}; static const char* DS[] = {"/usr/bin/a.out", "a.out", "/usr/bin/a.out.unstripped", "/usr/bin/b", "/usr/bin/a.outx", "/lib/other"}; int c = vp_cfg(), bn = c % 5; bool re = c >= 5;
  int idlen = re ? 0 : (int)vp_choose(3, "identifier") * 8; std::string id; for (int i = 0; i < idlen; i++) id += i < 2 ? vp_any<char>("id") : (char)(i * 7);
  { Image<A64> im(ET_EXEC, EM_X86_64); im.add("", SHT_NULL, ""); if (idlen) { std::string nt; uint32_t h[3] = {4, (uint32_t)id.size(), 3}; nt.append((char*)h, 12); nt.append("GNU\0", 4); nt += id; im.add(".note.gnu.build-id", SHT_NOTE, nt); } unsigned char* d; size_t n = im.finish(&d); vpe::add(BN[bn], d, n); }
  if (re) absl::SetFlag(&FLAGS_focus_binary_re, std::string("^/usr/.*out$"));
  auto& s = quipper::vp_scenario(); s.file = "perf.data"; static quipper::DSOInfo dso; static quipper::PerfDataProto_PerfEvent ev; ev.mutable_header()->set_type(quipper::PERF_RECORD_SAMPLE);
  // a recording may list build ids, always of twenty bytes; with one that is the binary's, the name it goes with decides
  bool listed = idlen && vp_choose(2, "listed"), same = false; if (listed) { std::string x = id; x.resize(20, 0); int flip = vp_choose(3, "difference"); if (flip == 1) x[19] = 5; if (flip == 2) x[0] ^= 1; same = flip == 0; auto& b = *s.build_ids.Add(); b.set_filename("/lib/other"); b.set_build_id_hash(x); }
  int d = vp_choose(6, "object"); dso.name = DS[d]; uint64_t a = vp_any<uint64_t>("address"); quipper::ParsedEvent p; p.event_ptr = &ev; p.dso_and_offset.dso_info_ = &dso; p.dso_and_offset.offset_ = a; s.parsed.push_back(p);
  static const bool MY[][6] = {{1, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0}, {0, 0, 0, 1, 0, 0}}; bool mine = re ? d == 0 : idlen ? same && d == 5 : MY[bn][d];
  ProfileCreator pc(BN[bn]); vp_assert(pc.ReadSample("perf.data", "perf"), "read"); vp_assert(pc.TotalSamples() == (mine ? 1 : 0), "exactly the samples of the binary"); vp_assert(pc.sample_reader().GetSampleCountOrZero(a) == pc.TotalSamples(), "at their address");
  vp_observe("total", pc.TotalSamples()); vp_reach(mine ? "mine" : "other"); vp_must_reach("mine"); vp_must_reach("other");
}
