// S01: text sample files; S02: samples out of perf data.
#include "sample_reader.h"
#include "quipper/perf_reader.h"
#include "vp.h"
#include <string>
#include <vector>
using namespace devtools_crosstool_autofdo;
namespace {
// a multiset of keys with counts, independent of any ordering
struct Cnt { struct E { uint64_t a, b, n; }; std::vector<E> e; void add(uint64_t a, uint64_t b, uint64_t n = 1) { for (auto& x : e) if (x.a == a && x.b == b) { x.n += n; return; } e.push_back({a, b, n}); } };
template <class M> void same2(const M& m, const Cnt& c, const char* what) { vp_assert(m.size() == c.e.size(), what); for (auto& x : c.e) { auto i = m.find({x.a, x.b}); vp_assert(i != m.end(), what); if (i != m.end()) vp_assert(i->second == x.n, what); } }
void same1(const AddressCountMap& m, const Cnt& c, const char* what) { vp_assert(m.size() == c.e.size(), what); for (auto& x : c.e) { auto i = m.find(x.a); vp_assert(i != m.end(), what); if (i != m.end()) vp_assert(i->second == x.n, what); } }
struct All { Cnt r, a, b; };
void same(const SampleReader& s, const All& x, const char* what) { same2(s.range_count_map(), x.r, what); same1(s.address_count_map(), x.a, what); same2(s.branch_count_map(), x.b, what); }
uint64_t addr(int k) { static const uint64_t base[] = {0, 0x1230, 0x400000, 0x7ffff000, 0xfffffffff000}; return base[k % 5] + vp_bytes(1, "address"); }
uint64_t count() { static const uint64_t big[] = {4294967296, 1000000, 18446744073709551615ull}; int k = vp_choose(4, "count"); return k ? big[k - 1] : vp_bytes(1, "count"); }
void fill(TextSampleReaderWriter& w, All& x, int nr, int na, int nb, int k0) {
  for (int i = 0; i < nr; i++) { uint64_t a = addr(k0 + i), b = i == 0 ? a + vp_bytes(1, "length") : addr(k0 + i), n = i ? 3 : count(); if (n == 1) w.IncRange(a, b); else w.IncRange(a, b, n); x.r.add(a, b, n); }
  for (int i = 0; i < na; i++) { uint64_t a = addr(k0 + i / 2), n = i ? 7 : count(); if (n == 1) w.IncAddress(a); else w.IncAddress(a, n); x.a.add(a, 0, n); }
  for (int i = 0; i < nb; i++) { uint64_t a = addr(k0 + i + 1), b = addr(k0 + 3), n = i ? 5 : count(); if (n == 1) w.IncBranch(a, b); else w.IncBranch(a, b, n); x.b.add(a, b, n); }
}
void merge(All& d, const All& s) { for (auto& x : s.r.e) d.r.add(x.a, x.b, x.n); for (auto& x : s.a.e) d.a.add(x.a, x.b, x.n); for (auto& x : s.b.e) d.b.add(x.a, x.b, x.n); }
}
// Writing and reading back text samples, merging, appending.
extern "C" void text() {
  static const int SH[][3] = {{1, 0, 0}, {0, 2, 0}, {0, 0, 2}, {2, 1, 0}, {1, 1, 1}, {2, 0, 1}}; int c = vp_cfg(), sh = c % 6, k0 = c / 6; All x;
  TextSampleReaderWriter w("out.txt"); vp_assert(!w.IsFileExist(), "no file yet"); fill(w, x, SH[sh][0], SH[sh][1], SH[sh][2], k0); same(w, x, "recorded samples");
  vp_assert(w.Write(c & 1 ? "\n// auxiliary 12-34:5\n" : nullptr), "written"); vp_assert(w.IsFileExist(), "file written");
  TextSampleReaderWriter r("out.txt"); vp_assert(r.ReadAndSetTotalCount(), "read back"); same(r, x, "samples read back");
  All twice; merge(twice, x); merge(twice, x); vp_assert(r.Append("out.txt"), "appended"); same(r, twice, "appending adds up");
  vp_assert(!r.Append("none.txt"), "missing file"); same(r, twice, "a missing file changes nothing");
  TextSampleReaderWriter m; m.Merge(w); m.Merge(w); same(m, twice, "merging adds up"); same(w, x, "merged-in samples are unchanged");
  m.set_profile_file("m.txt"); vp_assert(m.Write(nullptr), "written"); TextSampleReaderWriter r2("m.txt"); vp_assert(r2.Append("m.txt"), "read"); same(r2, twice, "merged file"); r2.Clear(); same(r2, All(), "cleared");
  vp_observe("n", x.r.e.size()); vp_reach("end"); vp_must_reach("end");
}
// Totals and queries.
extern "C" void totals() {
  int c = vp_cfg(); bool ranges = c & 1; TextSampleReaderWriter w("out.txt"); static const uint64_t LEN[] = {1, 4, 1 << 20}; uint64_t total = 0, plain = 0; uint64_t a[3]; int n = 2 + (c >> 1);
  AddressCountMap preset; 
  for (int i = 0; i < n; i++) {
    a[i] = vp_bytes(6, "address"); for (int j = 0; j < i; j++) vp_assume(a[i] != a[j]); uint64_t k = vp_bytes(5, "count");
    if (ranges) { uint64_t l = LEN[vp_choose(3, "length")]; w.IncRange(a[i], a[i] + l - 1, k); total += k * l; plain += k; w.IncAddress(a[i] + 5, 9); } else { preset[a[i]] = k; total += k; plain += k; w.IncBranch(a[i], a[i], 4); }
  }
  if (!ranges) w.SetAddressCountMap(preset);
  vp_assert(w.GetTotalSampleCount() == plain, "total samples"); std::set<uint64_t> s = w.GetSampledAddresses(); vp_assert(s.size() == (size_t)n, "sampled addresses"); for (int i = 0; i < n; i++) vp_assert(s.count(a[i]) == 1, "sampled address");
  if (!ranges) { uint64_t q = vp_bytes(6, "query"), want = 0; for (auto& [x, k] : preset) if (x == q) want = k; vp_assert(w.GetSampleCountOrZero(q) == want, "samples of an address"); }
  struct R : SampleReader { const TextSampleReaderWriter& w; bool ok; R(const TextSampleReaderWriter& x, bool k) : w(x), ok(k) {} bool Read() override { range_count_map_ = w.range_count_map(); address_count_map_ = w.address_count_map(); branch_count_map_ = w.branch_count_map(); return ok; } };
  R r(w, true), bad(w, false); vp_assert(r.ReadAndSetTotalCount() && r.GetTotalCount() == total, "total count"); vp_assert(!bad.ReadAndSetTotalCount(), "errors are passed on"); vp_assert(!r.IsKernelSample(), "not a kernel");
  vp_observe("total", total);
}
// Any text file of the right shape, and broken ones.
extern "C" void parse() {
  int c = vp_cfg(); bool up = vp_choose(2, "upper"); All x; std::string t; auto hex = [&](uint64_t v, bool up) { static const char* D[] = {"0123456789abcdef", "0123456789ABCDEF"}; for (int i = 0; i < 3; i++) t += D[up][(v >> (8 - 4 * i)) & 15]; };
  auto h = [&] { uint64_t v = vp_bytes(1, "address") << 4 | 3; hex(v, up); return v; }; auto d = [&] { uint64_t v = 0; if (x.r.e.size() + x.a.e.size()) { t += "77"; return (uint64_t)77; } for (int i = 0; i < 2; i++) { int k = vp_below(10, "digit"); v = v * 10 + k; t += '0' + k; } return v; };
  int cut = vp_choose(5, "defect"); const char* sep = vp_choose(2, "newlines") ? "\n" : "\r\n \n";
  // defects: 1 range separator, 2 missing address, 3 branch separator, 4 truncated
  t += "2"; t += sep; for (int i = 0; i < 2; i++) { uint64_t a = h(); t += cut == 1 && i ? "+" : "-"; uint64_t b = h(); t += ":"; uint64_t n = d(); t += sep; x.r.add(a, b, n); }
  if (c) { t += "2"; t += sep; for (int i = 0; i < (cut == 2 ? 1 : 2); i++) { uint64_t a = h(); t += ":"; uint64_t n = d(); t += sep; x.a.add(a, 0, n); } } else { t += "0"; t += sep; if (cut == 2) return; }
  if (!(cut == 4 && !c)) { t += "1"; t += sep; if (!(cut == 4 && c)) { uint64_t a = h(); t += cut == 3 ? "-" : "->"; uint64_t b = h(); t += ":"; x.b.add(a, b, d()); t += sep; } }
  t += "trailing"; if (cut == 4) t.resize(t.size() - 8);
  FILE* f = fopen("in.txt", "w"); fwrite(t.data(), 1, t.size(), f); fclose(f);
  TextSampleReaderWriter r("in.txt"); bool ok = r.ReadAndSetTotalCount(); vp_assert(ok == (cut == 0), "exactly well-formed files are accepted"); if (ok) same(r, x, "samples of the file");
  vp_reach(ok ? "good" : "bad"); vp_must_reach("good"); vp_must_reach("bad"); vp_observe("ok", ok);
}
ABSL_DECLARE_FLAG(uint64_t, strip_dup_backedge_stride_limit);
namespace {
quipper::DSOInfo dso[6];
struct Loc { int d; uint64_t off; };
quipper::ParsedEvent::DSOAndOffset at(const Loc& l) { quipper::ParsedEvent::DSOAndOffset r; r.dso_info_ = l.d < 0 ? nullptr : &dso[l.d]; r.offset_ = l.off; return r; }
}
// Samples and branch records of the profiled binary become counts.
extern "C" void lbr() {
  int c = vp_cfg(), ne = 1 + (c & 1), nb = c & 1 ? 2 : 3 + vp_tier(); uint64_t limit = 0x1000; bool byId = c & 2; if (c & 4) { limit = vp_any<uint64_t>("limit"); absl::SetFlag(&FLAGS_strip_dup_backedge_stride_limit, limit); }
  dso[0].name = "/usr/bin/prog"; dso[1].name = "/lib/libc.so"; dso[2].name = "/other/prog2"; auto& s = quipper::vp_scenario(); s.file = "perf.data"; Cnt A, R, B; std::vector<std::pair<uint64_t, uint64_t>> ts;
  if (byId) { auto& b = *s.build_ids.Add(); b.set_filename("/usr/bin/prog"); b.set_build_id_hash("\xab\xcd"); auto& b2 = *s.build_ids.Add(); b2.set_filename("/other/prog2"); b2.set_build_id_hash("\xab\xce"); }
  auto mine = [&](const Loc& l) { return l.d == 0; }; static quipper::PerfDataProto_PerfEvent ev[3];
  for (int e = 0; e < ne; e++) {
    int ek = vp_choose(3, "event"); ev[e].mutable_header()->set_type(ek == 1 ? quipper::PERF_RECORD_MMAP : quipper::PERF_RECORD_SAMPLE); uint64_t t = vp_any<uint64_t>("time"); ev[e].set_timestamp(t);
    quipper::ParsedEvent p; p.event_ptr = ek == 2 ? nullptr : &ev[e]; Loc l{(int)vp_choose(e || (c & 4) ? 1 : 3, "object") - (ek == 2), vp_any<uint64_t>("address")}; p.dso_and_offset = at(l); std::vector<Loc> from, to; std::vector<uint32_t> spec; int n = e ? nb : vp_choose(nb + 1, "branches");
    for (int i = 0; i < n; i++) { Loc f{(int)vp_choose(i < 2 && !(c & 1) ? 2 : 1, "from object"), vp_any<uint64_t>("from")}, g{(int)vp_choose(i < 2 && !(c & 1) ? 2 : 1, "to object"), vp_any<uint64_t>("to")}; uint32_t sp = i < 2 || vp_tier() ? vp_choose(2, "speculation") : 0; if (!sp && (c & 1)) sp = quipper::PERF_BR_SPEC_CORRECT_PATH; from.push_back(f); to.push_back(g); spec.push_back(sp); quipper::ParsedEvent::BranchEntry be; be.from = at(f); be.to = at(g); be.spec = sp; p.branch_stack.push_back(be); }
    s.parsed.push_back(p); if (ek) continue;
    if (mine(l)) { A.add(l.off, 0); bool seen = false; for (auto& q : ts) seen |= q.first == l.off; if (!seen) ts.push_back({l.off, t}); }
    int st = 0; while (st < n && spec[st] == 1) st++;
    for (int i = st; i < n; i++) {
      if (i == st) { if (mine(from[i]) && mine(to[i])) B.add(from[i].off, to[i].off); continue; }
      if (spec[i] == 1 || !mine(to[i])) continue;
      if (i == 1 && from[0].off == from[1].off && to[0].off == to[1].off && from[0].off - to[0].off > limit) continue;   // the head of the stack is sometimes recorded twice
      uint64_t lo = to[i].off, hi = from[i - 1].off; if (hi < lo || hi - lo > 1048576) continue;
      R.add(lo, hi); if (mine(from[i])) B.add(from[i].off, to[i].off);
    }
  }
  PerfDataSampleReader r("perf.data", "^/usr/bin/prog$", byId ? "abcd" : ""); vp_assert(r.Append("perf.data"), "read"); same1(r.address_count_map(), A, "sampled addresses"); same2(r.range_count_map(), R, "ranges"); same2(r.branch_count_map(), B, "branches");
  vp_assert(r.address_timestamp_map().size() == ts.size(), "time stamps"); for (auto& q : ts) { auto i = r.address_timestamp_map().find(q.first); vp_assert(i != r.address_timestamp_map().end() && i->second == q.second, "the first time stamp of an address is kept"); }
  vp_assert(!r.IsKernelSample(), "not the kernel"); vp_observe("ranges", R.e.size()); vp_reach(R.e.empty() ? "none" : "range"); vp_must_reach("range");
}
// Which objects belong to the profiled binary.
extern "C" void match() {
  static const char* NM[] = {"/usr/bin/prog", "[kernel.kallsyms]", "/boot/vmlinux", "vmlinux", "/boot/vmlinux2", "linux"}; static const char* DS[] = {"/usr/bin/prog", "/usr/bin/prog2", "[kernel.kallsyms]", "[kernel.kallsyms]_stext", "[kernel.kallsyms]_text", "/boot/vmlinux", "/boot/vmlinux2", "linux", ""};
  auto& s = quipper::vp_scenario(); s.readable = vp_choose(2, "readable"); s.parsable = vp_choose(2, "parsable"); int c = vp_cfg(), n = c ? 2 : 0; std::string hash[2]; int nm[2]; bool kernel = false; bool want[9] = {}; bool any = false;
  for (int i = 0; i < n; i++) {
    nm[i] = vp_choose(6, "name"); if (i && nm[0] == nm[1]) vp_stop(); char x = vp_any<char>("hash"), y = i ? (char)0x12 : vp_any<char>("hash"); auto& b = *s.build_ids.Add(); b.set_filename(NM[nm[i]]); b.set_build_id_hash(std::string{x, y});
    if (x != (char)0x4f || y != 0x12) continue;
    any = true; bool k = nm[i] >= 1 && nm[i] <= 3; kernel |= k; for (int d = 0; d < 9; d++) if (k ? d >= 2 && d <= 4 : std::string(DS[d]) == NM[nm[i]]) want[d] = true;
  }
  int d = vp_choose(9, "object"); static quipper::PerfDataProto_PerfEvent ev; ev.mutable_header()->set_type(quipper::PERF_RECORD_SAMPLE); dso[0].name = DS[d]; quipper::ParsedEvent p; p.event_ptr = &ev; int reps = 1 + vp_choose(2, "repeated"); uint64_t a = vp_any<uint64_t>("address"); p.dso_and_offset = at({0, a}); for (int i = 0; i < reps; i++) s.parsed.push_back(p);
  if (!c) { any = true; const std::string q = DS[d]; want[d] = d == 0 || d == 1; }
  PerfDataSampleReader r("perf.data", c ? "." : "^/usr/bin/.*prog", c ? "4f12" : ""); bool ok = r.ReadAndSetTotalCount(); vp_assert(ok == (s.readable && s.parsable), "unreadable data is an error");
  if (ok) { vp_assert(r.GetTotalCount() == (any && want[d] ? reps : 0), "samples of exactly the profiled binary"); vp_assert(r.GetSampleCountOrZero(a) == r.GetTotalCount(), "at their address"); vp_assert(r.IsKernelSample() == (c && kernel), "kernel samples"); }
  vp_observe("total", r.GetTotalCount()); vp_reach(r.GetTotalCount() ? "matched" : "unmatched"); vp_must_reach("matched");
}
