// M01.. : the in-memory profile (symbol map).
#include "symref.h"
using namespace rf;
ABSL_DECLARE_FLAG(bool, use_discriminator_multiply_factor);
namespace {
const char* NM[] = {"aa", "b", "cc", "d"};
SourceInfo frame(const char* fn, uint32_t start, uint32_t line, uint32_t disc, const char* file = "f.c") { return SourceInfo(fn, "dir", file, start, line, disc); }
uint64_t off(const SourceInfo& s) { return (uint64_t)(uint32_t)(s.line - s.start_line) << 32 | s.discriminator; }
uint64_t cnt(const char* n) { return vp_bytes(5, n); }
}
// Accumulating samples along inline stacks.
extern "C" void addcount() {
  SymbolMap m; Map r; m.AddSymbol("aa"); Fn& top = r.get("aa"); top.name = "aa";
  vp_assert(m.GetSymbolByName("aa")->total_count == 0, "new symbols are empty");
  bool mult = vp_choose(2, "multiply"); absl::SetFlag(&FLAGS_use_discriminator_multiply_factor, mult);
  int n = 2 + vp_tier(); static const SymbolMap::DataSource DS[] = {SymbolMap::PERFDATA, SymbolMap::AFDOPROTO, SymbolMap::AFDOPROFILE};
  int shape = vp_cfg(); bool sums = vp_choose(2, "sums only");   // products of symbolic factors are only ever added, not compared
  for (int k = 0; k < n; k++) {
    auto ds = DS[sums ? 2 : vp_choose(3, "source")]; bool conv = ds != SymbolMap::AFDOPROFILE;
    int depth = k == 0 ? 1 + shape % 3 : 1 + vp_choose(3, "depth"); SourceStack st;
    for (int i = 0; i < depth; i++) {
      uint32_t start = vp_any<uint32_t>("start"), line = vp_any<uint32_t>("line"), disc = vp_any<uint32_t>("disc");
      if (i) vp_assume(start != 0 && line != 0);
      st.push_back(frame(i == depth - 1 ? "aa" : NM[1 + (i + (k && i == 0 ? vp_choose(2, "callee") : 0)) % 3], start, line, disc));
    }
    int op = shape >= 6 ? 1 : (shape / 3 + k) % 2 ? (int)vp_choose(3, "op") : 0; bool bad = conv && st[0].HasInvalidInfo();
    Fn* f = &top;
    auto walk = [&](uint64_t c) { f->total += c; for (int i = depth - 1; i > 0; i--) { f = &f->call(off(st[i]), st[i - 1].func_name); f->total += c; } };
    if (op == 0) {
      uint64_t c = cnt("count"), inst = cnt("inst"); uint32_t dup = !vp_choose(2, "duplicated") ? 1 : !sums ? 3 : vp_any<uint32_t>("duplication");
      m.AddSourceCount("aa", st, c, inst, dup, ds); if (mult) c *= dup;
      walk(c); if (!bad) { Pos& p = f->at(off(st[0])); if (conv) p.n = c > p.n ? c : p.n; else p.n += c; p.inst += inst; }
    } else if (op == 1) {
      uint64_t c = cnt("calls"); bool ok = m.AddIndirectCallTarget("aa", st, k ? "zz.llvm.77" : "zz", c, ds);
      vp_assert(ok == !bad, "a call target is refused only for unusable locations"); walk(0); if (ok) { uint64_t& t = f->tgt(off(st[0]), "zz"); t = conv ? c : t + c; }
    } else { uint64_t h = cnt("head"), t = cnt("total"); m.AddSymbolEntryCount("aa", h, t); top.head += h; top.total += t; }
  }
  SourceStack none; vp_assert(m.TraverseInlineStack("aa", none, 5) == nullptr && !m.AddIndirectCallTarget("aa", none, "q", 3), "an empty stack changes nothing"); m.AddSourceCount("aa", none, 7, 1);
  check(m, r, "accumulated profile");
  vp_observe("total", m.GetSymbolByName("aa")->total_count); vp_reach("end"); vp_must_reach("end");
}
namespace {
// A small function profile with symbolic locations and counts; what: number of steps
void grow(SymbolMap& m, Fn& r, const char* nm, int steps, int shape, bool named) {
  for (int k = 0; k < steps; k++) {
    int depth = 1 + (shape + k) % 3; if (k == steps - 1) depth = 1 + vp_choose(3, "depth");
    SourceStack st; Fn* f = &r;
    for (int i = 0; i < depth; i++) st.push_back(frame(i == depth - 1 ? nm : NM[1 + (i + k) % 2], 10, vp_choose(2, "far") ? 12 + k : 11, vp_any<uint16_t>("disc"), named ? "f.c" : ""));
    uint64_t c = cnt("count"); m.AddSourceCount(nm, st, c, k); r.total += c; if (r.file.empty() && named) r.file = "f.c";
    for (int i = depth - 1; i > 0; i--) { f = &f->call(off(st[i]), st[i - 1].func_name); f->total += c; }
    Pos& p = f->at(off(st[0])); p.n += c; p.inst += k;
    if ((shape + k) % 2) { uint64_t t = cnt("calls"); const char* tn = (k & 2) ? "q" : "p"; m.AddIndirectCallTarget(nm, st, tn, t); f->tgt(off(st[0]), tn) += t; }
  }
  uint64_t h = cnt("head"); m.AddSymbolEntryCount(nm, h); r.head += h;
}
}
extern "C" void merge() {
  SymbolMap a, b; Fn ra, rb; int sh = vp_cfg(); a.AddSymbol("aa"); b.AddSymbol("aa");
  grow(a, ra, "aa", 2, sh % 3, sh & 4); grow(b, rb, "aa", 2 + vp_tier(), sh / 2, true);
  const_cast<Symbol*>(a.GetSymbolByName("aa"))->Merge(b.GetSymbolByName("aa"));
  check(*b.GetSymbolByName("aa"), rb, "the merged-in profile is unchanged");
  ra.add(rb); check(*a.GetSymbolByName("aa"), ra, "merged profile"); vp_assert(a.GetSymbolByName("aa")->info.file_name == "f.c", "source file");
  ProfileInfo x, y; x.count = cnt("c"); x.num_inst = cnt("i"); y.count = cnt("c2"); y.num_inst = cnt("i2"); uint64_t t1 = cnt("t"), t2 = cnt("t2"); x.target_map["p"] = t1; y.target_map["p"] = t2; y.target_map["q"] = t2; uint64_t xc = x.count, xi = x.num_inst;
  x += y; vp_assert(x.count == xc + y.count && x.num_inst == xi + y.num_inst && x.target_map.size() == 2 && x.target_map["p"] == t1 + t2 && x.target_map["q"] == t2, "sum of two positions");
  vp_observe("total", a.GetSymbolByName("aa")->total_count);
}
