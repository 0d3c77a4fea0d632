// A stand-in for the quipper perf.data library: readers and parsers hand out the
// events, build ids and SPE records of a scenario set up by the harness.
#ifndef VP_QUIPPER_H
#define VP_QUIPPER_H
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "absl/functional/function_ref.h"
#include <unordered_set>
#include "google/protobuf/repeated_field.h"
namespace quipper {
enum { PERF_RECORD_MMAP = 1, PERF_RECORD_COMM = 3, PERF_RECORD_FORK = 7, PERF_RECORD_SAMPLE = 9, PERF_RECORD_MMAP2 = 10, PERF_RECORD_AUX = 11, PERF_RECORD_ITRACE_START = 12, PERF_RECORD_AUXTRACE = 71, PERF_RECORD_TIME_CONV = 79 };
enum { PERF_BR_SPEC_NA = 0, PERF_BR_SPEC_WRONG_PATH = 1, PERF_BR_NON_SPEC_CORRECT_PATH = 2, PERF_BR_SPEC_CORRECT_PATH = 3 };
#define VPF(T, n) T n##_ = T(); bool h_##n##_ = false; const T& n() const { return n##_; } bool has_##n() const { return h_##n##_; } void set_##n(const T& v) { n##_ = v; h_##n##_ = true; } T* mutable_##n() { h_##n##_ = true; return &n##_; }
struct PerfDataProto_PerfHeader { VPF(uint32_t, type) };
struct PerfDataProto_BranchStackEntry { VPF(uint64_t, from_ip) VPF(uint64_t, to_ip) VPF(uint32_t, spec) };
struct PerfDataProto_SampleInfo { VPF(uint32_t, pid) VPF(uint32_t, tid) VPF(uint64_t, sample_time_ns) };
struct PerfDataProto_SampleEvent { VPF(uint64_t, ip) VPF(uint32_t, pid) VPF(uint32_t, tid) VPF(uint64_t, sample_time_ns) google::protobuf::RepeatedPtrField<PerfDataProto_BranchStackEntry> bs; const google::protobuf::RepeatedPtrField<PerfDataProto_BranchStackEntry>& branch_stack() const { return bs; } };
struct PerfDataProto_MMapEvent { VPF(uint32_t, pid) VPF(uint32_t, tid) VPF(uint64_t, start) VPF(uint64_t, len) VPF(uint64_t, pgoff) VPF(std::string, filename) VPF(PerfDataProto_SampleInfo, sample_info) };
struct PerfDataProto_ForkEvent { VPF(uint32_t, pid) VPF(uint32_t, ppid) VPF(uint32_t, tid) VPF(uint32_t, ptid) VPF(uint64_t, fork_time_ns) VPF(PerfDataProto_SampleInfo, sample_info) };
struct PerfDataProto_CommEvent { VPF(uint32_t, pid) VPF(uint32_t, tid) VPF(PerfDataProto_SampleInfo, sample_info) };
struct PerfDataProto_AuxtraceEvent { VPF(std::string, trace_data) };
struct PerfDataProto_TimeConvEvent { VPF(uint64_t, time_shift) VPF(uint64_t, time_mult) VPF(uint64_t, time_zero) VPF(uint64_t, time_cycles) VPF(uint64_t, time_mask) VPF(uint32_t, cap_user_time_zero) VPF(uint32_t, cap_user_time_short) };
struct PerfDataProto_PerfEvent {
  enum EventTypeCase { EVENT_TYPE_NOT_SET = 0, kMmapEvent = 2, kSampleEvent = 3, kCommEvent = 4, kForkEvent = 5, kAuxtraceEvent = 14, kTimeConvEvent = 20 };
  VPF(PerfDataProto_PerfHeader, header) VPF(uint64_t, timestamp)
  VPF(PerfDataProto_MMapEvent, mmap_event) VPF(PerfDataProto_SampleEvent, sample_event) VPF(PerfDataProto_CommEvent, comm_event) VPF(PerfDataProto_ForkEvent, fork_event) VPF(PerfDataProto_AuxtraceEvent, auxtrace_event) VPF(PerfDataProto_TimeConvEvent, time_conv_event)
  EventTypeCase event_type_case() const { return has_mmap_event() ? kMmapEvent : has_sample_event() ? kSampleEvent : has_comm_event() ? kCommEvent : has_fork_event() ? kForkEvent : has_auxtrace_event() ? kAuxtraceEvent : has_time_conv_event() ? kTimeConvEvent : EVENT_TYPE_NOT_SET; }
};
struct PerfDataProto_PerfBuildID { VPF(std::string, filename) VPF(std::string, build_id_hash) };
struct PerfDataProto { using PerfEvent = PerfDataProto_PerfEvent; using SampleEvent = PerfDataProto_SampleEvent; using SampleInfo = PerfDataProto_SampleInfo; using MMapEvent = PerfDataProto_MMapEvent; using TimeConvEvent = PerfDataProto_TimeConvEvent; };
inline const PerfDataProto_SampleInfo* GetSampleInfoForEvent(const PerfDataProto_PerfEvent& e) {
  if (e.has_mmap_event()) return &e.mmap_event().sample_info(); if (e.has_comm_event()) return &e.comm_event().sample_info(); if (e.has_fork_event()) return &e.fork_event().sample_info(); return nullptr;
}
struct DSOInfo { std::string name, build_id; };
struct ParsedEvent {
  struct DSOAndOffset { const DSOInfo* dso_info_ = nullptr; uint64_t offset_ = 0; std::string dso_name() const { return dso_info_ ? dso_info_->name : std::string(); } std::string build_id() const { return dso_info_ ? dso_info_->build_id : std::string(); } uint64_t offset() const { return offset_; } };
  struct BranchEntry { bool predicted = false; DSOAndOffset from, to; uint32_t spec = 0; };
  PerfDataProto_PerfEvent* event_ptr = nullptr; DSOAndOffset dso_and_offset; std::vector<BranchEntry> branch_stack;
};
struct ArmSpeDecoder {
  struct Record {
    struct { bool retired = false, cond_not_taken = false; } event; struct { bool is_br_eret = false; struct { bool br_cond = false; } br_eret; } op;
    struct { uint64_t addr = 0; } ip, tgt_br_ip; struct { bool el1 = false, el2 = false; uint32_t id = 0; } context; uint64_t timestamp = 0;
  };
  ArmSpeDecoder(const std::string& data, bool is_cross_endian); bool NextRecord(Record* r);
  const std::vector<Record>* v = nullptr; size_t at = 0;
};
// What a perf.data file contains.
struct VpScenario {
  bool readable = true, parsable = true; std::string file; google::protobuf::RepeatedPtrField<PerfDataProto_PerfEvent> events; std::vector<ParsedEvent> parsed; google::protobuf::RepeatedPtrField<PerfDataProto_PerfBuildID> build_ids; std::vector<std::vector<ArmSpeDecoder::Record>> spe; int reads = 0;
};
inline VpScenario& vp_scenario() { static VpScenario s; return s; }
inline ArmSpeDecoder::ArmSpeDecoder(const std::string& d, bool) { auto& s = vp_scenario().spe; if (!d.empty() && (size_t)d[0] < s.size()) v = &s[d[0]]; }
inline bool ArmSpeDecoder::NextRecord(Record* r) { if (!v || at >= v->size()) return false; *r = (*v)[at++]; return true; }
class PerfReader {
 public:
  bool ReadFile(const std::string& f) { if (!vp_scenario().file.empty() && f != vp_scenario().file) return false; return load(); }
  bool ReadFromPointer(const char*, size_t) { return load(); }
  void SetEventTypesToSkipWhenSerializing(const std::set<uint32_t>& t) { skip_ = t; }
  template <class F> void SetSampleCallback(F f) { cb_ = f; }
  void GetFilenamesToBuildIDs(std::map<std::string, std::string>* m) const { static const char H[] = "0123456789abcdef"; m->clear(); for (const auto& b : build_ids()) { std::string s; for (unsigned char c : b.build_id_hash()) { s += H[c >> 4]; s += H[c & 15]; } (*m)[b.filename()] = s; } }
  void GetFilenamesAsSet(std::set<std::string>* s) const { s->clear(); for (const auto& e : ev_) if (e.has_mmap_event() && !e.mmap_event().filename().empty()) s->insert(e.mmap_event().filename()); }
  const google::protobuf::RepeatedPtrField<PerfDataProto_PerfBuildID>& build_ids() const { return vp_scenario().build_ids; }
  const google::protobuf::RepeatedPtrField<PerfDataProto_PerfEvent>& events() const { return ev_; }
 private:
  bool load() {
    VpScenario& s = vp_scenario(); s.reads++; if (!s.readable) return false;
    for (const auto& e : s.events) { if (cb_ && e.has_sample_event()) cb_(e.sample_event()); if (!skip_.count(e.header().type())) *ev_.Add() = e; }
    return true;
  }
  google::protobuf::RepeatedPtrField<PerfDataProto_PerfEvent> ev_; std::set<uint32_t> skip_; std::function<void(const PerfDataProto_SampleEvent&)> cb_;
};
class PerfParser {
 public:
  explicit PerfParser(PerfReader* r) : r_(r) {}
  bool ParseRawEvents() {
    VpScenario& s = vp_scenario(); if (!s.parsable) return false;
    if (!s.parsed.empty()) { p_ = s.parsed; return true; }
    for (const auto& e : r_->events()) { ParsedEvent p; p.event_ptr = const_cast<PerfDataProto_PerfEvent*>(&e); p_.push_back(p); }
    return true;
  }
  const std::vector<ParsedEvent>& parsed_events() const { return p_; }
 private:
  PerfReader* r_; std::vector<ParsedEvent> p_;
};
}
#endif
