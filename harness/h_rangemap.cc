// Endpoints are arbitrary 64-bit addresses.
// D05: NonOverlappingRangeMap against a pointwise definition, at a symbolic query address.
#include <filesystem>
#include "vp.h"
#include "symbolize/nonoverlapping_range_map.h"
using namespace devtools_crosstool_autofdo;
namespace {
struct R { uint64_t lo, hi; };
bool in(const R& a, uint64_t q) { return a.lo <= q && q < a.hi; }
bool has(const R& o, const R& i) { return o.lo <= i.lo && i.hi <= o.hi && (o.lo != i.lo || o.hi != i.hi); }
bool eq(const R& o, const R& i) { return o.lo == i.lo && i.hi == o.hi; }
bool dis(const R& o, const R& i) { return o.hi <= i.lo || i.hi <= o.lo; }
template <class M> void shape(M& m, const R* r, int n, uint64_t q) {
  uint64_t prev = 0; bool first = true; bool any = false, hit = false;
  for (auto it = m.Begin(); it != m.End(); ++it) { vp_assert(it->first.first < it->first.second, "non-empty piece"); vp_assert(first || prev <= it->first.first, "pieces are disjoint and sorted"); prev = it->first.second; first = false; if (in({it->first.first, it->first.second}, q)) any = true; }
  for (int i = 0; i < n; i++) if (in(r[i], q)) hit = true;
  vp_assert(any == hit, "covered exactly when some inserted range covers it");
}
}
// Hierarchies inserted so that no range lands between an earlier outer and an earlier inner one: innermost wins.
extern "C" void laminar() {
  int n = vp_cfg() >= 100 ? 5 : 3 + (vp_cfg() & 1); R r[5];
  for (int i = 0; i < n; i++) { r[i].lo = vp_any<uint64_t>("lo"); r[i].hi = vp_any<uint64_t>("hi"); vp_assume(r[i].lo <= r[i].hi); }
  int dir = vp_cfg() % 100 / 2 % 3;   // 0: inner first, 1: outer first, 2: any
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
    bool e = (r[i].lo == r[i].hi) | (r[j].lo == r[j].hi);
    vp_assume(e | dis(r[i], r[j]) | eq(r[i], r[j]) | (dir != 0 ? has(r[i], r[j]) : false) | (dir != 1 ? has(r[j], r[i]) : false)); }
  if (dir == 2) for (int k = 0; k < n; k++) for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (i != j)
    vp_assume(!((has(r[i], r[k]) || eq(r[i], r[k])) & (has(r[k], r[j]) & (r[j].lo < r[j].hi))));
  // The map sees pieces, not the ranges they came from: inserting exactly a left-over piece of an outer range keeps the outer value (as for an equal range),
  // so a range inserted after its container brings at least one new boundary.
  if (dir) for (int k = 0; k < n; k++) {
    bool inside = false, l = false, h = false;
    for (int i = 0; i < k; i++) { bool ne = r[i].lo < r[i].hi; inside |= ne & has(r[i], r[k]); l |= ne & ((r[i].lo == r[k].lo) | (r[i].hi == r[k].lo)); h |= ne & ((r[i].lo == r[k].hi) | (r[i].hi == r[k].hi)); }
    vp_assume(!(inside & l & h & (r[k].lo < r[k].hi))); }
  NonOverlappingRangeMap<int> m;
  int aslist = vp_choose(2, "as list");
  for (int i = 0; i < n; i++) { if (aslist) { AddressRangeList::RangeList l; l.push_back({r[i].lo, r[i].hi}); m.InsertRangeList(l, i); } else m.InsertRange(r[i].lo, r[i].hi, i); }
  uint64_t q = vp_any<uint64_t>("q");
  auto it = m.Find(q); const auto& cm = m; auto ct = cm.Find(q);
  int best = -1;
  for (int i = 0; i < n; i++) if (in(r[i], q) && (best < 0 || has(r[best], r[i]))) best = i;
  if (best < 0) { vp_assert(it == m.End(), "no range covers the address"); vp_assert(ct == cm.End(), "no range covers the address (const)"); }
  else { vp_assert(it != m.End(), "a range covers the address"); vp_assert(it->second == best, "innermost range wins"); vp_assert(ct != cm.End() && ct->second == best, "innermost range wins (const)"); vp_assert(it->first.first <= q && q < it->first.second, "returned piece contains the address"); vp_reach("hit"); vp_must_reach("hit"); vp_observe("best", best); }
  vp_assert(m.Empty() == (m.Begin() == m.End()), "Empty");
  shape(m, r, n, q);
}
// Arbitrary insertions: either rejected (CHECK) or the pieces stay disjoint and cover the union.
extern "C" void arbitrary() {
  int n = 3 + vp_cfg(); R r[5]; uint64_t q = vp_any<uint64_t>("q");
  NonOverlappingRangeMap<int> m;
  vp_expect_fatal(1);
  for (int i = 0; i < n; i++) { r[i].lo = vp_any<uint64_t>("lo"); r[i].hi = vp_any<uint64_t>("hi"); vp_assume(r[i].lo <= r[i].hi); m.InsertRange(r[i].lo, r[i].hi, i); }
  vp_expect_fatal(0);
  shape(m, r, n, q); vp_reach("checked"); vp_must_reach("checked");
}
