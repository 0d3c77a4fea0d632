// Reference model of a function profile, and its comparison with the real Symbol.
#pragma once
#include "symbol_map.h"
#include "vp.h"
#include <memory>
#include <string>
#include <vector>
using namespace devtools_crosstool_autofdo;
namespace rf {
struct Tgt { std::string name; uint64_t n; };
struct Pos { uint64_t off, n = 0, inst = 0; std::vector<Tgt> t; };
struct Fn;
struct Call { uint64_t off; std::string name; std::unique_ptr<Fn> f; };
struct Fn {
  std::string name, file; uint64_t total = 0, head = 0; std::vector<Pos> pos; std::vector<Call> calls;
  Pos& at(uint64_t o) { for (auto& p : pos) if (p.off == o) return p; pos.emplace_back(); pos.back().off = o; return pos.back(); }
  Fn& call(uint64_t o, const std::string& n) { for (auto& c : calls) if (c.off == o && c.name == n) return *c.f; calls.push_back({o, n, std::make_unique<Fn>()}); calls.back().f->name = n; return *calls.back().f; }
  uint64_t& tgt(uint64_t o, const std::string& n) { Pos& p = at(o); for (auto& t : p.t) if (t.name == n) return t.n; p.t.push_back({n, 0}); return p.t.back().n; }
  void add(const Fn& o) {
    total += o.total; head += o.head; if (file.empty()) file = o.file;
    for (auto& p : o.pos) { at(p.off).n += p.n; at(p.off).inst += p.inst; for (auto& t : p.t) tgt(p.off, t.name) += t.n; }
    for (auto& c : o.calls) call(c.off, c.name).add(*c.f);
  }
  Fn clone() const { Fn r; r.name = name; r.add(*this); r.file = file; return r; }
  bool hasTgt(uint64_t o, const std::string& n) { for (auto& p : pos) if (p.off == o) for (auto& t : p.t) if (t.name == n) return true; return false; }
};
struct Map { std::vector<Fn> f; Fn& get(const std::string& n) { for (auto& x : f) if (x.name == n) return x; f.emplace_back(); f.back().name = n; return f.back(); } Fn* find(const std::string& n) { for (auto& x : f) if (x.name == n) return &x; return nullptr; } };
inline void check(const Symbol& s, const Fn& r, const char* what, bool heads = true, bool totals = true) {
  if (totals) vp_assert(s.total_count == r.total, what);
  if (heads) vp_assert(s.head_count == r.head, what);
  vp_assert(s.pos_counts.size() == r.pos.size(), what);
  for (auto& p : r.pos) {
    auto i = s.pos_counts.find(p.off); vp_assert(i != s.pos_counts.end(), what); if (i == s.pos_counts.end()) return;
    vp_assert(i->second.count == p.n, what); vp_assert(i->second.num_inst == p.inst, what); vp_assert(i->second.target_map.size() == p.t.size(), what);
    for (auto& t : p.t) { auto j = i->second.target_map.find(t.name); vp_assert(j != i->second.target_map.end() && j->second == t.n, what); }
  }
  vp_assert(s.callsites.size() == r.calls.size(), what);
  for (auto& c : r.calls) {
    auto i = s.callsites.find(Callsite{c.off, c.name.c_str()}); vp_assert(i != s.callsites.end(), what); if (i == s.callsites.end()) return;
    vp_assert(i->second->name() == c.name, what); check(*i->second, *c.f, what, heads, totals);
  }
}
inline void check(const SymbolMap& m, Map& r, const char* what, bool heads = true, bool totals = true) {
  vp_assert(m.map().size() == r.f.size(), what);
  for (auto& f : r.f) { const Symbol* s = m.GetSymbolByName(f.name); vp_assert(s != nullptr, what); if (s) check(*s, f, what, heads, totals); }
}
}
