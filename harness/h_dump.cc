// M11: the printed form of a profile.
#include "symref.h"
#include <string>
#include <vector>
namespace {   // lines of a whole function are counted from its start, those of an inlined one are lines of its file
struct L { uint32_t off, disc; uint64_t n; std::vector<rf::Tgt> t; };
struct N { std::string name, file; uint32_t start; bool top = false; uint64_t total = 0, head = 0, incl = 0; std::vector<L> l; std::vector<std::pair<uint32_t, N*>> c; };
std::string num(uint64_t v) { if (v < 10) return std::string(1, (char)('0' + v)); std::string r = num(v / 10); r += (char)('0' + v % 10); return r; }
bool above(const rf::Tgt& a, const rf::Tgt& b) { return a.n != b.n ? a.n > b.n : a.name > b.name; }   // ties: later names first
void body(std::string& o, const N& f, int ind, bool an);
void fn(std::string& o, const N& f, int ind, bool an) {
  o += f.name + ":" + f.file + " total:" + num(f.total);
  if (!ind) o += " head:" + num(f.head);
  if (an) { o += " total_incl:" + num(f.incl); if (!ind) o += " total_incl_per_iter:0.00"; } else if (!ind) o += " timestamp: 0";
  o += "\n"; body(o, f, ind, an);
}
void at(std::string& o, uint32_t line, uint32_t disc, int ind) { o.append(ind, ' '); o += num(line); if (disc) o += "." + num(disc); o += ": "; }
void body(std::string& o, const N& f, int ind, bool an) {
  std::vector<L> l = f.l; for (size_t i = 0; i < l.size(); i++) for (size_t j = i + 1; j < l.size(); j++) if (l[j].off < l[i].off || (l[j].off == l[i].off && l[j].disc < l[i].disc)) std::swap(l[i], l[j]);
  for (auto& p : l) {
    at(o, p.off + (f.top ? 0 : f.start), p.disc, ind + 2); o += num(p.n);
    std::vector<rf::Tgt> t = p.t; for (size_t i = 0; i < t.size(); i++) for (size_t j = i + 1; j < t.size(); j++) if (above(t[j], t[i])) std::swap(t[i], t[j]);
    for (auto& x : t) o += "  " + x.name + ":" + f.file + ":" + num(x.n);
    o += "\n";
  }
  std::vector<std::pair<uint32_t, N*>> c = f.c; for (size_t i = 0; i < c.size(); i++) for (size_t j = i + 1; j < c.size(); j++) if (c[j].first < c[i].first || (c[j].first == c[i].first && c[j].second->name < c[i].second->name)) std::swap(c[i], c[j]);
  for (auto& x : c) { at(o, x.first + (f.top ? 0 : f.start), 0, ind + 2); fn(o, *x.second, ind + 2, an); }
}
SourceInfo si(const N& f, uint32_t off, uint32_t disc = 0) { return SourceInfo(f.name.c_str(), "", f.file.c_str(), f.start, f.start + off, disc); }
}
extern "C" void print() {
  int cfg = vp_cfg(); SymbolMap m; static N f[3], g[3]; static const char* nm[] = {"b", "a", "c"}; uint64_t d[8]; for (auto& x : d) x = vp_below(10, "count");
  for (int i = 0; i < 3; i++) { f[i].name = nm[i]; f[i].top = true; f[i].start = 1 + i; f[i].file = i ? "y.c" : "x.c"; g[i].name = i == 2 ? "in" : i ? "i2" : "i1"; g[i].start = 3 - i; g[i].file = "z.h"; }
  auto hit = [&](std::vector<N*> st, std::vector<uint32_t> off, uint32_t disc, uint64_t n) {    // st: innermost first
    SourceStack s; for (size_t i = 0; i < st.size(); i++) s.push_back(si(*st[i], off[i], i ? 0 : disc)); m.AddSourceCount(st.back()->name, s, n, 1);
    for (size_t i = 0; i < st.size(); i++) { st[i]->total += n; if (i + 1 < st.size()) { bool have = false; for (auto& c : st[i + 1]->c) have |= c.second == st[i] && c.first == off[i + 1]; if (!have) st[i + 1]->c.push_back({off[i + 1], st[i]}); } }
    for (auto& l : st[0]->l) if (l.off == off[0] && l.disc == disc) { l.n += n; return; } st[0]->l.push_back({off[0], disc, n, {}});
  };
  for (int i = 0; i < 3; i++) m.AddSymbol(nm[i]);
  // locations of the first function, recorded in some order
  static const uint32_t O[][2] = {{1, 0}, {2, 3}, {2, 0}, {0, 5}}; int first = vp_choose(4, "first location");
  if (cfg & 1) {
    hit({&f[0]}, {O[first][0]}, O[first][1], d[0]); hit({&f[0]}, {O[first ^ 1 ^ (cfg & 2)][0]}, O[first ^ 1 ^ (cfg & 2)][1], 1);
    if (cfg & 4) hit({&f[0]}, {O[first ^ 3][0]}, O[first ^ 3][1], 0);
    hit({&f[1]}, {1}, 0, d[1]); hit({&f[2]}, {1}, 0, d[2]);
  } else {
    bool rev = first & 1, same = first & 2; uint32_t o1 = 2, o2 = same ? 2 : 1; N *a = &g[rev], *b = &g[!rev];
    hit({a, &f[0]}, {1, o1}, 2, d[0]); hit({b, &f[0]}, {2, o2}, 0, 1); if (cfg & 2) hit({&g[2], b, &f[0]}, {1, 4, o2}, 0, d[3]);
    if (cfg & 4) hit({&f[0]}, {7}, 0, d[4]); hit({&f[1]}, {1}, 0, d[1]);
  }
  if (cfg & 4) { uint64_t h = d[5]; if (h) m.AddSymbolEntryCount("a", h, 0); f[1].head = h; }    // an entry count is a property of the function as a whole
  // call targets at the first location of function a
  SourceStack s{si(f[1], 1)}; m.AddIndirectCallTarget("a", s, "t1", d[6]); m.AddIndirectCallTarget("a", s, "t2", d[7]); f[1].l[0].t = {{"t1", d[6]}, {"t2", d[7]}};
  bool an = vp_choose(2, "analysis");
  for (int i = 0; i < 3; i++) { f[i].total = m.GetSymbolByName(nm[i])->total_count; f[i].incl = 0; }
  std::string want; std::vector<N*> ord; for (auto& x : f) if (x.total) { size_t k = 0; while (k < ord.size() && (ord[k]->total > x.total || (ord[k]->total == x.total && ord[k]->name < x.name))) k++; ord.insert(ord.begin() + k, &x); }
  if (an) for (auto& x : f) if (x.head) vp_stop();
  for (N* x : ord) fn(want, *x, 0, an);
  vpout::s.clear(); m.Dump(an); std::string got = vpout::s;
  vp_assert(got.size() == want.size(), "length of the printed profile"); bool eq = got.size() == want.size(); uint8_t diff = 0; for (size_t i = 0; eq && i < got.size(); i++) diff |= got[i] ^ want[i];
  if (diff && getenv("VPD")) fprintf(stderr, "GOT\n%s\nWANT\n%s\n", got.c_str(), want.c_str());
  vp_assert(diff == 0, "the printed profile has every function, location, target and inlined call in order");
  vp_observe("length", got.size()); vp_reach(an ? "analysis" : "plain"); vp_must_reach("plain"); if (!(cfg & 4)) vp_must_reach("analysis");
}
