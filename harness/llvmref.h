// Comparison of the reference profile with LLVM's function samples.
#pragma once
#include "symref.h"
#include "llvm/ProfileData/SampleProf.h"
namespace sp = llvm::sampleprof;
namespace rf {
inline uint32_t lineof(uint64_t o) { return (o >> 32) & 0xffff; }
// LLVM lines have 16 bits: locations that only differ above coincide
inline void fold(Fn& d, const Fn& o) {
  d.total += o.total; d.head += o.head; auto m = [](uint64_t x) { return x & 0xffffffffffffull; };
  for (auto& p : o.pos) { d.at(m(p.off)).n += p.n; for (auto& t : p.t) d.tgt(m(p.off), t.name) += t.n; }
  for (auto& c : o.calls) fold(d.call(m(c.off), c.name), *c.f);
}
inline void same(const sp::FunctionSamples& p, Fn& r, bool top, const std::string& name) {
  vp_assert(p.getFunction() == sp::FunctionId(llvm::StringRef(name)), "function name");
  vp_assert(p.getTotalSamples() == r.total, "total samples"); vp_assert(p.getHeadSamples() == (top ? r.head : 0), "head samples");
  vp_assert(p.getBodySamples().size() == r.pos.size(), "number of locations");
  for (auto& q : r.pos) {
    auto it = p.getBodySamples().find(sp::LineLocation(lineof(q.off), (uint32_t)q.off)); vp_assert(it != p.getBodySamples().end(), "location"); if (it == p.getBodySamples().end()) return;
    vp_assert(it->second.getSamples() == q.n, "samples of a location"); vp_assert(it->second.getCallTargets().size() == q.t.size(), "call targets");
    for (auto& w : q.t) { auto k = it->second.getCallTargets().find(sp::FunctionId(llvm::StringRef(w.name))); vp_assert(k != it->second.getCallTargets().end() && k->second == w.n, "call target count"); }
  }
  size_t have = 0; for (auto& s : p.getCallsiteSamples()) have += s.second.size(); vp_assert(have == r.calls.size(), "number of inlined calls");
  for (auto& c : r.calls) {
    auto it = p.getCallsiteSamples().find(sp::LineLocation(lineof(c.off), (uint32_t)c.off)); vp_assert(it != p.getCallsiteSamples().end(), "inlined call"); if (it == p.getCallsiteSamples().end()) return;
    auto k = it->second.find(sp::FunctionId(llvm::StringRef(c.name))); vp_assert(k != it->second.end(), "inlined callee"); if (k == it->second.end()) return;
    same(k->second, *c.f, false, c.name);
  }
}
}
