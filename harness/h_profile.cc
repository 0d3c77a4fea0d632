// S03: samples of a binary become a source-level profile.
#include "profile.h"
#include "addr2line.h"
#include "sample_reader.h"
#include "symref.h"
#include "elfgen.h"
using namespace rf;
using namespace elfgen;
ABSL_DECLARE_FLAG(bool, use_lbr);
ABSL_DECLARE_FLAG(bool, llc_misses);
ABSL_DECLARE_FLAG(double, sample_threshold_frac);
namespace {
struct F { const char* name; const char* orig; uint64_t lo; int n; };
const F FN[] = {{"aa", "aa", 0x401000, 3}, {"aa.cold", "aa", 0x401008, 2}, {"b", "b", 0x40100a, 2}, {"cc.llvm.7", "cc", 0x401010, 1}};
enum { NF = 4 };
struct Frame { const char* fn; uint32_t line, disc; };
std::vector<Frame> st[NF][3];     // source stack of every instruction
uint64_t off(const Frame& s) { return (uint64_t)(s.line - 10) << 32 | s.disc; }
SourceStack stack(int f, int i) { SourceStack r; for (auto& x : st[f][i]) r.push_back(SourceInfo(x.fn, "dir", "f.c", 10, x.line, x.disc)); return r; }
int fnOf(uint64_t a) { for (int f = 0; f < NF; f++) if (a >= FN[f].lo && a < FN[f].lo + FN[f].n) return f; return -1; }
struct Fake : Addr2line { Fake() : Addr2line("a.out") {} bool Prepare() override { return true; } void GetInlineStack(uint64_t a, SourceStack* s) const override { int f = fnOf(a); if (f >= 0) *s = stack(f, a - FN[f].lo); } };
struct Reader : SampleReader {
  bool Read() override { return true; } AddressCountMap& A() { return address_count_map_; } RangeCountMap& R() { return range_count_map_; } BranchCountMap& B() { return branch_count_map_; } AddressTimestampMap& T() { return address_timestamp_map_; }
};
void binary() {
  Image<A64> im(ET_EXEC, EM_X86_64); im.add("", SHT_NULL, ""); std::string b; Str s; Elf64_Sym z{}; put(b, z);
  for (auto& f : FN) { Elf64_Sym y{}; y.st_name = s.add(f.name); y.st_value = f.lo; y.st_size = f.n; y.st_info = 16 + STT_FUNC; y.st_shndx = 1; put(b, y); }
  int ix = im.add(".symtab", SHT_SYMTAB, b); im.sh[ix].sh_entsize = sizeof z; im.sh[ix].sh_link = ix + 1; im.add(".strtab", SHT_STRTAB, s.s);
  Elf64_Phdr p{}; p.p_type = PT_LOAD; p.p_flags = PF_R | PF_X; p.p_offset = 0x1000; p.p_vaddr = 0x401000; im.ph.push_back(p); unsigned char* d; size_t n = im.finish(&d); vpe::add("a.out", d, n);
}
enum { D = 0x400000 };     // addresses less file offsets
void sources(int shape) {
  st[0][0] = {{"aa", 11, 0}}; st[0][1] = {{"d", 12, vp_any<uint16_t>("disc")}, {"aa", 13, 2}}; st[0][2] = {{"aa", 11, shape & 1 ? (uint32_t)vp_any<uint16_t>("disc") : 5u}};
  st[1][0] = {{"aa", 15, 0}}; st[1][1] = {{"d", 12, 7}, {"aa", 13, 2}}; st[2][0] = {{"b", 11, 0}}; st[2][1] = shape & 2 ? std::vector<Frame>{} : std::vector<Frame>{{"d", 10 + (uint32_t)vp_below(3, "line"), 1}, {"e", 14, 0}, {"b", 11, 0}}; st[3][0] = {{"cc", 11, 0}};
}
uint64_t cnt(const char* n) { return vp_bytes(5, n); }
struct Rg { uint64_t a, b, n; };
// what the profile must hold for the given samples
void expect(Map& out, const std::vector<Rg>& R, const std::vector<Rg>& A, std::vector<Rg> B, uint64_t thr, bool lbr) {
  if (B.size() == 2 && (B[1].a < B[0].a || (B[1].a == B[0].a && B[1].b < B[0].b))) std::swap(B[0], B[1]);   // of several calls with one location and target the last one counts
  uint64_t agg[NF] = {}; bool ranged[NF] = {}, emit[NF]; Fn fn[NF];
  for (int f = 0; f < NF; f++) { for (auto& r : R) if (fnOf(r.a) == f) { ranged[f] = true; agg[f] += r.n * (1 + r.b - r.a); } if (!ranged[f]) for (auto& a : A) if (fnOf(a.a) == f) agg[f] += a.n; }
  for (int f = 0; f < NF; f++) { uint64_t t = 0; for (int g = 0; g < NF; g++) if (!strcmp(FN[f].orig, FN[g].orig)) t += agg[g]; emit[f] = t > thr; }
  for (int f = 0; f < NF; f++) if (emit[f]) {
    Fn& T = fn[f]; auto at = [&](int i, uint64_t c, int inst) { auto& s = st[f][i]; if (s.empty()) return; Fn* g = &T; g->total += c; for (int k = (int)s.size() - 1; k > 0; k--) { g = &g->call(off(s[k]), s[k - 1].fn); g->total += c; } Pos& p = g->at(off(s[0])); if (c > p.n) p.n = c; p.inst += inst; };
    for (int i = 0; i < FN[f].n; i++) at(i, 0, 1);
    if (lbr && !ranged[f]) continue;
    for (int i = 0; i < FN[f].n; i++) { uint64_t a = FN[f].lo + i, c = 0; if (lbr) { for (auto& r : R) if (fnOf(r.a) == f && a >= r.a && a <= r.b) c += r.n; } else for (auto& x : A) if (x.a == a) c += x.n; at(i, c, 0); }
    for (auto& b : B) if (fnOf(b.a) == f) for (int g = 0; g < NF; g++) if (emit[g] && FN[g].lo == b.b) {
      fn[g].head += b.n; auto& s = st[f][b.a - FN[f].lo]; if (s.empty()) continue; Fn* q = &T; for (int k = (int)s.size() - 1; k > 0; k--) q = &q->call(off(s[k]), s[k - 1].fn); q->tgt(off(s[0]), FN[g].orig) = b.n;
    }
  }
  out.f.reserve(NF); for (int f = 0; f < NF; f++) if (emit[f]) out.get(FN[f].orig).add(fn[f]);
}
}
extern "C" void compute() {
  int c = vp_cfg(), mode = c % 4; binary(); sources(c / 4); SymbolMap m("a.out"); m.ReadLoadableExecSegmentInfo(false); m.set_addr2line(std::make_unique<Fake>()); Reader rd; std::vector<Rg> R, A, B; bool lbr = mode != 3; absl::SetFlag(&FLAGS_use_lbr, lbr);
  auto place = [&](const char* n, std::initializer_list<uint64_t> l) { return l.begin()[vp_choose(l.size(), n)]; };
  auto range = [&](uint64_t a, uint64_t len) { uint64_t n = cnt("count"); for (auto& r : R) if (r.a == a && r.b == a + len) { vp_stop(); } R.push_back({a, a + len, n}); rd.R()[{a - D, a + len - D}] = n; };
  auto branch = [&](uint64_t a, uint64_t b) { uint64_t n = cnt("taken"); for (auto& r : B) if (r.a == a && r.b == b) vp_stop(); B.push_back({a, b, n}); rd.B()[{a - D, b - D}] = n; };
  // 0: two ranges; 1: one range and two branches; 2: ranges and samples; 3: samples only
  if (mode == 0) { range(place("begin", {0x401000, 0x401001, 0x401002, 0x401007, 0x401008, 0x40100b}), vp_choose(4, "length")); range(place("begin", {0x401000, 0x401001, 0x401008, 0x40100a, 0x401010}), vp_choose(3, "length")); }
  if (mode == 1) { range(0x401000, place("length", {1, 2, 5})); range(0x40100a, 1); branch(place("from", {0x401000, 0x401001, 0x401009, 0x40100b}), place("to", {0x401000, 0x401001, 0x401008, 0x40100a, 0x401010})); branch(place("from", {0x401002, 0x40100a, 0x40100b, 0x401005}), place("to", {0x401000, 0x40100a, 0x401008, 0x401020})); }
  if (mode >= 2) { int k = mode == 2 ? 2 : 3; for (int i = 0; i < k; i++) { uint64_t a = i == 0 ? place("sample", {0x401000, 0x401008, 0x401007}) : i == 1 ? place("sample", {0x401001, 0x401009, 0x40100a, 0x401010}) : place("sample", {0x401002, 0x40100b}), n = cnt("samples"); A.push_back({a, a, n}); rd.A()[a - D] = n; } if (mode == 2) range(place("begin", {0x401000, 0x40100a}), 1); else branch(place("from", {0x401000, 0x401002}), place("to", {0x401000, 0x40100a})); }
  uint64_t ts = 0; int tf = vp_choose(3, "stamped"); if (tf < 2) { ts = vp_any<uint64_t>("time"); rd.T()[FN[tf * 2].lo + 1 - D] = ts; }
  vp_assert(rd.ReadAndSetTotalCount(), "read"); Profile p(&rd, "a.out", m.get_addr2line(), &m); p.ComputeProfile(); Map want; expect(want, R, A, B, 10, lbr); check(m, want, "source profile");
  if (tf < 2) { const Symbol* s = m.GetSymbolByName(FN[tf * 2].name); if (s) vp_assert(s->timestamp == ts, "time stamp of a function"); }
  vp_observe("functions", m.map().size()); vp_reach(m.map().size() ? "some" : "none"); vp_must_reach("some"); vp_must_reach("none");
}
// functions below the share of all samples are left out, hot and cold parts together
extern "C" void threshold() {
  binary(); sources(0); SymbolMap m("a.out"); m.ReadLoadableExecSegmentInfo(false); m.set_addr2line(std::make_unique<Fake>()); Reader rd; std::vector<Rg> R, none; static const uint64_t N[] = {0, 4, 6, 40}; absl::SetFlag(&FLAGS_sample_threshold_frac, vp_choose(2, "share") ? 0.5 : 0.25); double sh = absl::GetFlag(FLAGS_sample_threshold_frac); uint64_t total = 0;
  static const uint64_t P[] = {0x401001, 0x401008, 0x40100a, 0x401010, 0x401100};
  for (uint64_t a : P) { uint64_t n = N[vp_choose(4, "count")], l = a == 0x401001 ? 2 : 1; R.push_back({a, a + l - 1, n}); rd.R()[{a - D, a + l - 1 - D}] = n; total += n * l; }
  rd.ReadAndSetTotalCount(); vp_assert(rd.GetTotalCount() == total, "total"); Profile p(&rd, "a.out", m.get_addr2line(), &m); p.ComputeProfile(); uint64_t thr = total / (sh == 0.5 ? 2 : 4); if (thr < 10) thr = 10; vp_assert(m.count_threshold() == (int64_t)thr, "threshold"); Map want; expect(want, R, none, none, thr, true); check(m, want, "source profile");
  vp_observe("functions", m.map().size()); vp_reach(m.map().size() == 3 ? "all" : "some"); vp_must_reach("all"); vp_must_reach("some");
}
// cache miss samples become targets of their location
extern "C" void misses() {
  int c = vp_cfg(); binary(); sources(c); SymbolMap m("a.out"); m.ReadLoadableExecSegmentInfo(false); m.set_addr2line(std::make_unique<Fake>()); Reader rd; absl::SetFlag(&FLAGS_llc_misses, true); uint64_t P[] = {0x401000, 0x401002, 0x401009, 0x40100b, 0x401011}; Map want; want.f.reserve(NF); Fn fn[NF]; bool on[NF] = {}; 
  for (uint64_t a : P) if (vp_choose(2, "sampled")) {
    uint64_t n = cnt("misses"); rd.A()[a - D] = n; int f = fnOf(a); if (f < 0) continue; auto& s = st[f][a - FN[f].lo]; bool first = !on[f]; on[f] = true; if (s.empty()) continue; Fn* q = &fn[f]; if (first) q->total += 11; for (int k = (int)s.size() - 1; k > 0; k--) { q = &q->call(off(s[k]), s[k - 1].fn); if (first) q->total += 11; } q->tgt(off(s[0]), "__llc_misses__") = n;
  }
  vp_assert(rd.ReadAndSetTotalCount(), "read"); Profile p(&rd, "a.out", m.get_addr2line(), &m); p.ComputeProfile(); for (int f = 0; f < NF; f++) if (on[f]) want.get(FN[f].orig).add(fn[f]); check(m, want, "cache misses");
  vp_observe("functions", m.map().size());
}
