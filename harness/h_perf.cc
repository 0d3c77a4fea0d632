// S09: translating runtime addresses, selecting the mappings of the profiled binary, and aggregating LBR and SPE data.
#include "vp.h"
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "perfdata_reader.h"
#include "branch_frequencies.h"
#include "lbr_aggregation.h"
#include "quipper/perf_reader.h"
#if defined(VP_AGG)
#include "llvm_propeller_perf_branch_frequencies_aggregator.h"
#include "llvm_propeller_options.pb.h"
#include "llvm_propeller_statistics.h"
#endif
using namespace devtools_crosstool_autofdo;
namespace {
const uint64_t BAD = ~0ull; const uint32_t KP = ~0u;
struct Buf : llvm::MemoryBuffer { static char d[8]; Buf() { init(d, d + 7, true); } BufferKind getBufferKind() const override { return MemoryBuffer_Malloc; } }; char Buf::d[8] = "PERFDAT";
PerfDataProvider::BufferHandle handle() { PerfDataProvider::BufferHandle h; h.description = "perf.data"; h.buffer.reset(new Buf); return h; }
bool has(const std::vector<std::string>& v, const std::string& s) { for (auto& x : v) if (x == s) return true; return false; }
std::string base(const std::string& s) { size_t p = s.rfind('/'); return p == std::string::npos ? s : s.substr(p + 1); }
struct Seg { uint64_t off, va, sz; };
// what a runtime address is in the binary
uint64_t trans(const std::vector<MMapEntry>& ms, bool kernel, bool pie, const std::vector<Seg>& segs, uint64_t a) {
  for (auto& m : ms) if (m.load_addr <= a && a < m.load_addr + m.load_size) {
    if (!kernel && !pie) return a;
    uint64_t f = a - m.load_addr + (kernel ? 0 : m.page_offset);
    for (size_t i = 0; i < segs.size(); i++) { uint64_t o = kernel ? segs[i].off - segs[0].off : segs[i].off; if (o <= f && f < o + segs[i].sz) return f - o + segs[i].va; }
    return BAD;
  }
  return BAD;
}
}
extern "C" void translate() {
  int c = vp_cfg(); BinaryContent b; b.is_pie = c & 1; int ns = c >> 1 & 1 ? 3 : c >> 2 & 1; std::vector<Seg> segs; static const uint64_t OFF[] = {0x1000, 0x2400, 0x8000}, VA[] = {0x401000, 0x7000, 0x100000};
  for (int i = 0; i < ns + !(c & 8); i++) { if (i == 3) break; Seg s{OFF[i], VA[i], i == 2 ? vp_bytes(4, "memsz") : vp_below(0x1401, "memsz")}; segs.push_back(s); b.segments.push_back({s.off, s.va, s.sz}); }
  std::vector<MMapEntry> user, kern; uint64_t sz = vp_bytes(2, "size"), po = vp_choose(2, "offset") ? 0x1000 : 0x1f00; user.emplace_back(7, 0x555500000000, sz, po, "/bin/prog"); user.emplace_back(7, 0x555500010000, 0x1000, 0x8000, "/bin/prog"); if (c & 16) user.emplace_back(7, 0xfffffffffffff000, 0x800, 0x2000, "/bin/prog");
  bool withKernel = c & 4; kern.emplace_back(KP, 0xffffffff81000000, vp_bytes(3, "kernel size"), 0xffffffff81000000, "[kernel.kallsyms]");
  BinaryMMaps mm; for (auto& e : user) mm[7].insert(e); if (withKernel) for (auto& e : kern) mm[KP].insert(e);
  PerfDataReader r(handle(), mm, &b); vp_assert(r.IsKernelMode() == withKernel, "kernel mode"); int who = vp_choose(3, "process"); static const uint64_t AT[] = {0x555500000000, 0x555500010000, 0xffffffff81000000, 0xfffffffffffff000};
  int w = who == 1 ? 2 : vp_choose(c & 16 ? 3 : 2, "region"); if (w == 2 && who != 1) w = 3; uint64_t a = AT[w] - 0x10 + (who == 1 ? vp_bytes(4, "address") : w == 3 ? vp_below(0x1008, "address") : vp_bytes(3, "address")); uint32_t pid = who == 0 ? 7 : who == 1 ? KP : 8;
  uint64_t want = who == 0 ? trans(user, false, b.is_pie, segs, a) : who == 1 && withKernel ? trans(kern, true, b.is_pie, segs, a) : BAD; uint64_t got = r.RuntimeAddressToBinaryAddress(pid, a); vp_assert(got == want, "binary address"); vp_observe("address", got); vp_reach(want == BAD ? "none" : "some"); vp_must_reach("none"); vp_must_reach("some");
}
extern "C" void buildids() {
  auto& s = quipper::vp_scenario(); int c = vp_cfg(), n = 2 + vp_tier(); static const char* NM[] = {"/bin/prog", "", "[anon:x]", "/anon_hugepage (deleted)", "[kernel.kallsyms]"}; std::vector<std::string> want; std::string id; unsigned char q[3]; for (int i = 0; i < 3; i++) q[i] = vp_any<uint8_t>("id");
  static const char H[] = "0123456789abcdef"; for (int i = 0; i < 3; i++) { id += H[q[i] >> 4]; id += H[q[i] & 15]; } if (c & 1) id.resize(4); if (c & 2) id += "0";
  for (int i = 0; i < n; i++) {
    auto* e = s.build_ids.Add(); int k = vp_choose(4, "kind"); const char* nm = NM[(vp_choose(3, "name") + (c >> 1)) % 5]; if (k != 1) e->set_filename(nm); std::string h; int len = k == 3 ? 2 : 3; bool same = !(c & 2) && len == (c & 1 ? 2 : 3); for (int j = 0; j < len; j++) { unsigned char v = vp_any<uint8_t>("hash"); h += (char)v; same &= v == q[j]; } if (k != 2) e->set_build_id_hash(h);
    if (k == 1 || k == 2 || !same) continue; std::string f = nm; if (f.empty() || f[0] == '[' && f[1] == 'a' || f.substr(0, 6) == "/anon_") continue; if (!has(want, f)) want.push_back(f);
  }
  quipper::PerfReader r; auto got = GetBuildIdNames(r, id); vp_assert(got.ok() == !want.empty(), "known build id"); if (!got.ok()) { vp_reach("unknown"); vp_must_reach("unknown"); return; }
  vp_assert(got->size() == want.size(), "number of names"); for (auto& f : want) vp_assert(got->count(f), "name"); vp_reach("known"); vp_must_reach("known"); vp_observe("names", want.size());
}
extern "C" void mmaps() {
  int c = vp_cfg(); auto& s = quipper::vp_scenario(); static const char* NM[] = {"/bin/prog", "/usr/prog", "[kernel.kallsyms]_text", "/bin/other", "prog"}; std::vector<std::string> names; std::vector<absl::string_view> given; BinaryContent b; b.file_name = "out/prog"; bool byId = false, idKnown = false;
  switch (c & 7) { case 0: names = {"/bin/prog"}; break; case 1: names = {"prog"}; break; case 2: names = {"[kernel.kallsyms]"}; break; case 3: names = {"/bin/prog", "/usr/prog"}; break; case 4: names = {"x/other", "y/prog"}; break; case 5: byId = idKnown = true; names = {"/usr/prog"}; break; case 6: byId = true; break; case 7: byId = idKnown = true; names = {"[kernel.kallsyms]"}; }
  static std::string keep[4]; if (!byId) for (size_t i = 0; i < names.size(); i++) { keep[i] = names[i]; given.push_back(keep[i]); } else if ((c & 7) != 6 || vp_choose(2, "own id")) b.build_id = "12ab"; if (idKnown) { auto* e = s.build_ids.Add(); e->set_filename(names[0]); e->set_build_id_hash(std::string("\x12\xab", 2)); } { auto* e = s.build_ids.Add(); e->set_filename("/bin/other"); e->set_build_id_hash(std::string("\x12\xac", 2)); }
  bool kernelName = names.size() == 1 && names[0] == "[kernel.kallsyms]", abs = !names.empty() && names[0][0] == '/';
  auto match = [&](const std::string& f) { if (kernelName) return f == "[kernel.kallsyms]" || f == "[kernel.kallsyms]_text" || f == "[kernel.kallsyms]_stext"; if (abs) return has(names, f); for (auto& x : names) if (base(x) == base(f)) return true; return false; };
  struct M { uint32_t pid; uint64_t a, n, o; std::string f; }; std::vector<M> want; bool bad = byId && !idKnown; int broken = (c & 8) ? vp_choose(3, "file") : 2; s.readable = broken != 0; s.parsable = broken != 1; if (broken != 2) bad = true;
  for (int i = 0; i < 3; i++) {
    if (i == 1) { auto* e = s.events.Add(); e->mutable_header()->set_type(quipper::PERF_RECORD_SAMPLE); e->mutable_sample_event()->set_pid(9); }
    auto* e = s.events.Add(); e->mutable_header()->set_type(quipper::PERF_RECORD_MMAP); auto* m = e->mutable_mmap_event(); int nm = i == 0 ? (c & 7) == 2 || (c & 7) == 7 ? 2 : vp_choose(2, "name") : i == 1 ? vp_choose(4, "name") : c >> 1 & 1; std::string f = NM[nm]; int miss = i == 1 ? vp_choose(7, "missing") : 9; uint32_t pid = i == 1 && vp_choose(2, "pid") ? 100 : (c & 7) == 2 ? KP : 101;
    uint64_t a = i == 0 ? 0x4000 : i == 1 ? 0x2000 + 0x1000 * vp_choose(4, "start") : 0x4800, n = i == 2 ? 0x800 : vp_bytes(2, "length"), o = i == 1 ? 0x100 * vp_choose(2, "offset") : 0; if (miss == 1) f = "";
    if (miss != 0) m->set_filename(f); if (miss != 2) m->set_start(a); if (miss != 3) m->set_len(n); if (miss != 4) m->set_pid(pid); if (miss == 5) o = 0; else m->set_pgoff(o); if (miss <= 4 || !match(f) || bad) continue;
    bool dup = false; for (auto& x : want) if (x.pid == pid) { if (x.a == a && x.n == n && x.o == o) dup = true; else if (!(a + n <= x.a || x.a + x.n <= a)) bad = true; } if (!dup) want.push_back({pid, a, n, o, f});
  }
  auto h = handle(); auto got = SelectMMaps(h, given, b); vp_assert(got.ok() == (!bad && !want.empty()), "selected"); vp_reach(bad ? "refused" : want.empty() ? "none" : "some"); if (!got.ok()) return; size_t n = 0; for (auto& p : *got) n += p.second.size(); vp_assert(n == want.size(), "number of mappings");
  for (auto& w : want) { auto i = got->find(w.pid); vp_assert(i != got->end(), "process"); if (i == got->end()) continue; bool f = false; for (auto& e : i->second) f |= e.load_addr == w.a && e.load_size == w.n && e.page_offset == w.o && e.file_name == w.f; vp_assert(f, "mapping"); } vp_must_reach("some"); vp_observe("mappings", n);
}
extern "C" void lbr() {
  int c = vp_cfg(); bool kernel = c & 1; auto& s = quipper::vp_scenario(); BinaryContent b; b.is_pie = kernel; b.segments.push_back({0x400, 0x1000, 0x1000}); BinaryMMaps mm; mm[kernel ? KP : 100].insert(MMapEntry(kernel ? KP : 100, 0x1000, 0x1000, 0, "/bin/prog")); mm[kernel ? 100 : 102].insert(MMapEntry(102, 0x7000, 0x1000, 0, "/bin/prog"));
  std::map<std::pair<uint64_t, uint64_t>, uint64_t> br, ft; static const uint64_t K[] = {0x1500, 0x1000, 0x2000, 0x1ff0}; int sym = 0;
  for (int i = 0; i < 2; i++) {
    auto* e = s.events.Add(); e->mutable_header()->set_type(quipper::PERF_RECORD_SAMPLE); auto* v = e->mutable_sample_event(); int who = i == 0 && !(c & 2) ? 0 : vp_choose(3, "process"); if (who < 2) v->set_pid(who ? 101 : 100); int n = i ? vp_choose(2, "entries") : 2 + (c >> 2 & 1); bool ok = kernel || who == 0; uint64_t last = BAD; std::vector<std::pair<uint64_t, uint64_t>> st;
    for (int j = 0; j < n; j++) { auto* x = v->bs.Add(); uint64_t f = i == 0 && sym < 2 && (j + (c >> 3)) % 2 == 0 ? (sym++, ((c & 2) ? 0x1f80 : 0xf80) + vp_bytes(1, "from")) : K[vp_choose(3, "from")], t = i == 0 && j == 1 ? 0xf80 + vp_bytes(1, "to") : K[(c + i + vp_choose(2, "to")) % 4]; x->set_from_ip(f); x->set_to_ip(t); auto tr = [](uint64_t a) { return a >= 0x1000 && a < 0x2000 ? a : BAD; }; st.push_back({tr(f), tr(t)}); }
    if (ok) for (int j = n - 1; j >= 0; j--) { br[st[j]]++; if (last != BAD && last <= st[j].first) ft[{last, st[j].first}]++; last = st[j].second; }
  }
  LbrAggregation a; bool again = c & 4; PerfDataReader r(handle(), mm, &b); r.AggregateLBR(&a); if (again) r.AggregateLBR(&a);   // reading more data adds to the counts
  vp_assert(a.branch_counters.size() == br.size() && a.fallthrough_counters.size() == ft.size(), "number of entries"); int64_t total = 0;
  for (auto& x : br) { auto i = a.branch_counters.find({x.first.first, x.first.second}); vp_assert(i != a.branch_counters.end() && i->second == (int64_t)x.second * (1 + again), "branches"); total += x.second; } for (auto& x : ft) { auto i = a.fallthrough_counters.find({x.first.first, x.first.second}); vp_assert(i != a.fallthrough_counters.end() && i->second == (int64_t)x.second * (1 + again), "fall-throughs"); }
  vp_observe("total", total); vp_reach(ft.empty() ? "no fall-through" : "fall-through"); vp_must_reach("fall-through");
}
extern "C" void spe() {
  int c = vp_cfg(); bool kernel = c & 1; auto& s = quipper::vp_scenario(); BinaryContent b; b.is_pie = kernel; b.segments.push_back({0x400, 0x1000, 0x1000}); BinaryMMaps mm; mm[kernel ? KP : 100].insert(MMapEntry(kernel ? KP : 100, 0x1000, 0x1000, 0, "/bin/prog")); s.spe.resize(2); s.events.Add()->mutable_auxtrace_event()->set_trace_data(std::string(1, 0)); { auto* e = s.events.Add(); e->mutable_header()->set_type(quipper::PERF_RECORD_SAMPLE); e->mutable_sample_event()->set_ip(4); } s.events.Add()->mutable_auxtrace_event()->set_trace_data(std::string(1, 1));
  std::map<std::pair<uint64_t, uint64_t>, uint64_t> br; std::map<uint64_t, uint64_t> nt; int n = 3; auto tr = [](uint64_t a) { return a >= 0x1000 && a < 0x2000 ? a : BAD; };
  for (int i = 0; i < n; i++) {
    quipper::ArmSpeDecoder::Record r; int k = vp_choose(i ? 3 : 2, "kind"), w = i == 1 ? vp_choose(4, "context") : 1; r.event.retired = k != 2 || (c & 2); r.op.is_br_eret = k != 2 || !(c & 2); r.op.br_eret.br_cond = i == 2 || (c & 4) || vp_choose(2, "conditional"); r.event.cond_not_taken = k != 1; r.context.el1 = w == 1; r.context.el2 = w == 2 || w == 3; r.context.id = w == 3 ? 101 : 100;
    r.ip.addr = i == 0 ? 0x1f80 + vp_bytes(1, "from") : (i & 1) ? 0x1500 : 0x1500 + 0x10 * vp_choose(2, "from"); r.tgt_br_ip.addr = i == 2 ? 0xf80 + vp_bytes(1, "to") : 0x1600; s.spe[i == 2].push_back(r);
    if (w == 0 || (!kernel && w == 3) || k == 2) continue; if (r.op.br_eret.br_cond && r.event.cond_not_taken) nt[tr(r.ip.addr)]++; else br[{tr(r.ip.addr), tr(r.tgt_br_ip.addr)}]++;
  }
  BranchFrequencies f; f.taken_branch_counters[{.from = 0x1500, .to = 0x1600}] = 5; br[{0x1500, 0x1600}] += 5; PerfDataReader r(handle(), mm, &b); vp_assert(r.AggregateSpe(f).ok(), "read"); vp_assert(f.taken_branch_counters.size() == br.size() && f.not_taken_branch_counters.size() == nt.size(), "number of entries");
  for (auto& x : br) { auto i = f.taken_branch_counters.find({x.first.first, x.first.second}); vp_assert(i != f.taken_branch_counters.end() && i->second == (int64_t)x.second, "taken"); } for (auto& x : nt) { auto i = f.not_taken_branch_counters.find({x.first}); vp_assert(i != f.not_taken_branch_counters.end() && i->second == (int64_t)x.second, "not taken"); }
  vp_observe("taken", br.size()); vp_reach(nt.empty() ? "no" : "some"); vp_must_reach("no"); vp_must_reach("some");
}
