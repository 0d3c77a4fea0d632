// S07: ranges inferred from branch frequencies; S08: ARM SPE records.
#include "vp.h"
#include <map>
#include <string>
#include <vector>
#include "sample_reader.h"
#include "simple_spe_sample_reader.h"
#include "quipper/perf_reader.h"
#if defined(HAVE_LLVM)
#include "branch_frequencies_autofdo_sample.h"
#include "branch_frequencies.h"
#include "spe_tid_pid_provider.h"
#endif
using namespace devtools_crosstool_autofdo;
typedef std::map<std::pair<uint64_t, uint64_t>, uint64_t> M2;
#if defined(HAVE_LLVM)
namespace { const uint64_t BAD = ~0ull; }
extern "C" void ranges() {
  int c = vp_cfg(), isz = 4; static const uint64_t P[] = {0x401000, 0x401004, 0x401008, 0x401010, 0x402020}; BranchFrequencies bf; std::map<uint64_t, uint64_t> in, nt; M2 br; bool isBr[9]; auto off = [](int64_t a) -> int64_t { return a - 0x400000; };
  for (int i = 0; i < 9; i++) isBr[i] = (i < 5 || i == 8) ? vp_choose(2, "branch") : (i & 1) || (c & 1);   // instructions 0x401000.. and 0x402020
  auto isBranch = [&](int64_t a) { return a >= 0x401000 && a < 0x401020 ? isBr[(a - 0x401000) / 4] : a == 0x402020 ? isBr[8] : (a & 0x3ff) == 0x3fc; };
  int ntk = 2 + vp_tier();
  for (int k = 0; k < ntk; k++) { uint64_t to = k == 0 ? P[(c >> 1) % 5] : vp_choose(4, "outside") == 0 ? BAD : P[vp_choose(5, "to")], from = k == 0 ? (vp_choose(2, "from outside") ? BAD : 0x401800) : 0x401000 + 4 * vp_choose(3, "from"); int64_t n = vp_bytes(5, "taken"); auto& x = bf.taken_branch_counters[{from, to}]; if (x) vp_stop(); x = n; if (to != BAD) in[to] += n; if (to != BAD && from != BAD) br[{from - 0x400000, to - 0x400000}] += n; }
  for (int k = 0; k < 2; k++) { uint64_t a = k ? 0x401008 + 8 * vp_choose(2, "not taken at") : 0x401000; int64_t n = vp_bytes(5, "not taken"); bf.not_taken_branch_counters[{a}] = n; nt[a] = n; }
  // what flows along the instructions
  M2 want; uint64_t w = 0, start = 0; uint64_t last = in.empty() ? 0 : in.rbegin()->first + 0x1000;
  auto it = in.begin();
  while (it != in.end() || w) {
    if (it == in.end()) break;
    uint64_t a = it->first, end = std::next(it) == in.end() ? last : std::next(it)->first; w += it->second; start = a;
    for (; a < end && w; a += isz) { bool b = isBranch(a); if (b || a + isz >= end) { want[{start - 0x400000, a - 0x400000}] += w; start = a + isz; if (b) w = nt.count(a) ? nt[a] : 0; } }
    ++it;
  }
  auto err = [&](int64_t a) -> absl::StatusOr<bool> { if (!isBranch(a)) return false; if (a == 0x401008) return absl::InternalError("no code"); return true; };   // unknown instructions count as branches
  auto r = ConvertBranchFrequenciesToAutofdoRangeSample(bf, err, off, isz); vp_assert(r.ok(), "converted"); if (!r.ok()) return;
  vp_assert(r->branch_counts.size() == br.size(), "branches"); for (auto& x : br) { auto i = r->branch_counts.find(x.first); vp_assert(i != r->branch_counts.end() && i->second == x.second, "branch count"); }
  vp_assert(r->range_counts.size() == want.size(), "number of ranges"); for (auto& x : want) { auto i = r->range_counts.find(x.first); vp_assert(i != r->range_counts.end(), "range"); if (i != r->range_counts.end()) vp_assert(i->second == x.second, "range count"); }
  vp_observe("ranges", want.size()); vp_reach(want.size() > 2 ? "many" : want.empty() ? "none" : "few"); vp_must_reach("many"); vp_must_reach("none");
}
// The process a record belongs to.
extern "C" void pids() {
  int c = vp_cfg(); google::protobuf::RepeatedPtrField<quipper::PerfDataProto_PerfEvent> ev; struct R { int64_t pid, tid; uint64_t t; }; std::vector<R> seen; int n = 2 + vp_tier();
  for (int i = 0; i < n; i++) {
    auto& e = *ev.Add(); int k = vp_choose(4, "event"); R r{0, 0, 0}; int p = i ? vp_choose(3, "pid") : 1, t = i ? vp_choose(3, "tid") : 1; uint64_t tm = i && vp_tier() ? vp_bytes(5, "time") : 0x600000; if (i && !vp_tier()) { int q = vp_choose(4, "time"); tm = q == 3 ? 0 : 0x500000 + 0x100000 * q; } r.pid = p ? 100 + p : 0; r.tid = t ? 200 + t : 0; r.t = tm;
    if (k == 0) { e.mutable_fork_event()->set_pid(r.pid); e.mutable_fork_event()->set_tid(r.tid); e.mutable_fork_event()->set_fork_time_ns(tm); }
    else if (k == 1) { e.mutable_sample_event()->set_pid(r.pid); e.mutable_sample_event()->set_tid(r.tid); e.mutable_sample_event()->set_sample_time_ns(tm); if (!tm) continue; }
    else { auto* s = k == 2 ? e.mutable_mmap_event()->mutable_sample_info() : e.mutable_comm_event()->mutable_sample_info(); s->set_pid(r.pid); s->set_tid(r.tid); s->set_sample_time_ns(tm); if (!tm) continue; }
    if (r.pid && r.tid) seen.push_back(r);
  }
  static const uint64_t MULT[] = {1, 1, 3, 0x2aaaaaab}, SH[] = {0, 1, 4, 31}; int mi = c & 3; bool shortTime = c & 4; uint64_t zero = 0x43210 + c * 0x101, cyc0 = vp_tier() ? vp_bytes(3, "base cycles") : 0xfff801;
  { auto& e = *ev.Add(); auto* t = e.mutable_time_conv_event(); t->set_time_mult(MULT[mi]); t->set_time_shift(SH[mi]); t->set_time_zero(zero); t->set_time_cycles(cyc0); t->set_time_mask(0xffffff); t->set_cap_user_time_short(shortTime); }
  SpeTidPidProvider p(ev); quipper::ArmSpeDecoder::Record rec; rec.context.el1 = vp_choose(2, "el1"); rec.context.el2 = !rec.context.el1 && vp_choose(2, "el2"); int q = rec.context.el1 || rec.context.el2 ? vp_choose(3, "context") : 1; rec.context.id = q ? 200 + q : 205; uint64_t ts = vp_bytes(mi == 3 ? 4 : 6, "timestamp"); rec.timestamp = ts;
  uint64_t cy = ts; if (shortTime) cy = cyc0 + ((ts - cyc0) & 0xffffff); uint64_t ns = zero + (cy >> SH[mi]) * MULT[mi] + (((cy & ((1ull << SH[mi]) - 1)) * MULT[mi]) >> SH[mi]);
  auto got = p.GetPid(rec);
  if (!rec.context.el1 && !rec.context.el2) { std::vector<int64_t> ps; for (auto& r : seen) { /* only processes actually recorded */ bool d = false; for (auto x : ps) d |= x == r.pid; if (!d) ps.push_back(r.pid); } if (ps.size() == 1) vp_assert(got.ok() && *got == ps[0], "the only process"); if (ps.empty()) vp_assert(!got.ok(), "no process known"); if (seen.size() == 2 && ps.size() == 2 && seen[0].tid != seen[1].tid) vp_assert(!got.ok(), "an ambiguous record is refused"); vp_observe("ok", got.ok()); return; }
  // the history of the thread: repeated entries of one process and later entries at the same time count once
  std::vector<R> h; for (auto& r : seen) if (r.tid == (int64_t)rec.context.id) { const R* lst = nullptr; for (auto& x : h) if (!lst || x.t > lst->t) lst = &x; if (lst && lst->pid == r.pid) continue; bool dup = false; for (auto& x : h) dup |= x.t == r.t; if (!dup) h.push_back(r); }
  const R* best = nullptr; for (auto& x : h) if (x.t <= ns && (!best || x.t > best->t)) best = &x; int64_t want = best ? best->pid : rec.context.id;
  vp_assert(got.ok() && *got == want, "process of a thread at that time"); vp_reach(best ? "known" : "unknown"); vp_must_reach("known"); vp_must_reach("unknown"); vp_observe("pid", want);
}
#else
typedef quipper::ArmSpeDecoder::Record Rec;
extern "C" void simple() {
  int c = vp_cfg(); auto& s = quipper::vp_scenario(); uint64_t base = 0x7f0000010000, pg = 0x3000; std::map<uint64_t, uint64_t> nt; M2 br; int ev = 0; 
  auto map = [&](const char* f, uint64_t a, uint64_t off) { auto* m = s.events.Add()->mutable_mmap_event(); m->set_filename(f); m->set_start(a); m->set_len(0x100); m->set_pgoff(off); };
  if (c & 1) map("/lib/libc.so", 0x7f0000020000, 0x9000); int scen = vp_choose(3, "scenario"); bool present = scen; if (present) map("/deploy/prog", base, pg); map("/x/prog.so", 0x7f0000030000, 0); if (present && (c & 1)) map("/other/prog", 0x7f0000040000, 0);
  s.spe.resize(2); int n = scen < 2 ? 1 : 3 + vp_tier(); size_t total = 0, retired = 0;
  // two addresses are free (mapped or not); the others are one of a few, the ends of the mapping and of the longest range included
  int sym = 0; auto at = [&](const char* nm, bool any) { if (any && sym++ < 1 + vp_tier()) return base - 0x10 + vp_below(0x130, nm); static const int64_t K[] = {0x40, 0xfc, -4, 0x100}; return base + K[vp_choose(vp_tier() ? 4 : 3, nm)]; };
  for (int i = 0; i < n; i++) {
    Rec r; int k = i == 0 && c < 4 ? 0 : vp_choose(i == 2 ? 3 : 4, "record"); r.event.retired = k != 3; r.op.is_br_eret = !(k == 3 && vp_choose(2, "kind")); if (k == 3) r.event.retired = !r.op.is_br_eret; r.op.br_eret.br_cond = k >= 1; r.event.cond_not_taken = k == 1 || (k == 0 && vp_choose(2, "odd"));   // 0: unconditional, 1: not taken, 2: taken conditional, 3: ignored
    r.ip.addr = (i == 1 && (c & 2)) ? 0 : at("from", i != 1); r.tgt_br_ip.addr = k == 1 ? 0 : (k == 2 && i == 2 && (c & 2)) ? 0 : at("to", i != 0); s.spe[(c & 4) && i].push_back(r);
    if (k == 3) continue; retired++; auto in = [&](uint64_t a) { return a >= base && a < base + 0x100; }; if (!in(r.ip.addr)) continue; uint64_t f = r.ip.addr - base + pg;
    if (k == 1) { nt[f]++; total++; continue; } if (!in(r.tgt_br_ip.addr)) continue; br[{f, r.tgt_br_ip.addr - base + pg}]++; total++;
  }
  bool aux = scen != 1; if (aux) { s.events.Add()->mutable_auxtrace_event()->set_trace_data(std::string(1, 0)); if (c & 4) s.events.Add()->mutable_auxtrace_event()->set_trace_data(std::string(1, 1)); }
  M2 want; std::map<uint64_t, uint64_t> in; std::map<uint64_t, int> marks; for (auto& b : br) { in[b.first.second] += b.second; marks[b.first.first] = 1; } for (auto& a : nt) marks[a.first] = 1;
  for (auto i = in.begin(); i != in.end(); ++i) {
    uint64_t st = i->first, w = i->second, end = std::next(i) == in.end() ? st + 0x1000 : std::next(i)->first;
    for (auto m = marks.lower_bound(st); m != marks.end() && m->first < end && w; m = marks.lower_bound(st)) { want[{st, m->first}] += w; auto k = nt.find(m->first); w = k == nt.end() ? 0 : k->second; st = m->first + 4; }
    if (w && st < end && end - 4 >= st) want[{st, end - 4}] += w;
  }
  SimpleSpeDataSampleReader r("perf.data", "/build/prog"); bool ok = r.ReadAndSetTotalCount(); vp_assert(ok == (present && aux && total > 0), "data without samples of the binary is refused"); if (!ok) return;
  auto same = [&](uint64_t k) { vp_assert(r.address_count_map().size() == nt.size() && r.branch_count_map().size() == br.size() && r.range_count_map().size() == want.size(), "number of entries"); for (auto& x : nt) { auto i = r.address_count_map().find(x.first); vp_assert(i != r.address_count_map().end() && i->second == k * x.second, "not-taken branches"); } for (auto& x : br) { auto i = r.branch_count_map().find(x.first); vp_assert(i != r.branch_count_map().end() && i->second == k * x.second, "taken branches"); } for (auto& x : want) { auto i = r.range_count_map().find(x.first); vp_assert(i != r.range_count_map().end() && i->second == k * x.second, "ranges"); } };
  same(1); uint64_t t = 0; for (auto& x : want) t += x.second * (1 + x.first.second - x.first.first); if (want.empty()) for (auto& x : nt) t += x.second; vp_assert(r.GetTotalCount() == t, "total"); vp_assert(r.Append("perf.data"), "appended"); same(2); vp_assert(r.GetTotalCount() == 2 * t, "total of both");
  vp_observe("total", t); vp_reach("ok"); vp_must_reach("ok");
}
#endif
