// D04: .debug_ranges and .debug_rnglists decoding against the DWARF definition.
#include <filesystem>
#include "dw.h"
#include "symbolize/dwarf3ranges.h"
using namespace devtools_crosstool_autofdo;
namespace {
struct Want { uint64_t lo[8], hi[8]; int n = 0; void add(uint64_t a, uint64_t b) { lo[n] = a; hi[n++] = b; } };
// The decoded list must describe the same non-empty intervals, in order.
void same(const AddressRangeList::RangeList& got, Want& w) {
  int g = 0, n = got.size(), i = 0;
  for (i = 0; i < w.n; i++) {
    if (w.lo[i] == w.hi[i]) continue;
    while (g < n && got[g].first == got[g].second) g++;
    vp_assert(g < n, "range missing");
    vp_assert(got[g].first == w.lo[i], "range start"); vp_assert(got[g].second == w.hi[i], "range end"); vp_observe("lo", got[g].first); vp_observe("hi", got[g].second); g++;
  }
  while (g < n && got[g].first == got[g].second) g++;
  vp_assert(g == n, "extra range");
}
uint64_t lim(uint64_t v, int as) { return as == 4 ? v & 0x3fffffff : v; }
}
// cfg: bit0 = 4-byte addresses, bit1 = big endian
extern "C" void ranges() {
  int as = vp_cfg() & 1 ? 4 : 8; static Buf b; b.big = vp_cfg() & 2; int N = 4 + vp_tier();
  uint64_t junk = vp_choose(2, "prefix"); for (uint64_t i = 0; i < junk * 2 * as; i++) b.u8(vp_any<uint8_t>("junk"));
  unsigned at = b.n; uint64_t base0 = lim(vp_any<uint64_t>("base"), as), base = base0; static Want w;
  uint64_t big = as == 4 ? 0xffffffffu : ~0ull;
  for (int i = 0; i < N; i++) {
    int k = vp_choose(3, "entry"); if (k == 2) break;
    if (k == 0) { base = lim(vp_any<uint64_t>("new base"), as); b.un(big, as); b.un(base, as); continue; }
    uint64_t lo = lim(vp_any<uint64_t>("lo"), as), hi = lim(vp_any<uint64_t>("hi"), as);
    vp_assume(lo != big && !(lo == 0 && hi == 0));
    b.un(lo, as); b.un(hi, as); w.add(lo + base, hi + base);
  }
  b.un(0, as); b.un(0, as); for (int i = 0; i < 2 * as; i++) b.u8(0x11);
  ByteReader r(b.big ? ENDIANNESS_BIG : ENDIANNESS_LITTLE); r.SetAddressSize(as);
  AddressRangeList l(b.p(), b.n, nullptr, 0, &r, nullptr, 0);
  AddressRangeList::RangeList out;
  l.ReadRangeList(at, base0, &out, 2 + vp_choose(3, "version"));
  same(out, w); vp_reach("checked"); vp_must_reach("checked");
}
// cfg: bit0 = 4-byte addresses, bit1 = big endian, bit2 = 64-bit DWARF, bit3 = reached by index (rnglistx) or by section offset
extern "C" void rnglists() {
  int c = vp_cfg(), as = c & 1 ? 4 : 8; bool d64 = c & 4, byindex = c & 8; static Buf b, ad; b.big = ad.big = c & 2;
  int N = 3 + vp_tier();
  static uint64_t addrs[3]; uint64_t abase = 0;
  int which = vp_choose(2, "contribution");
  for (int k = 0; k <= which; k++) { ad.initlen(d64); ad.u16(5); ad.u8(as); ad.u8(0); abase = ad.n; for (int i = 0; i < 3; i++) { addrs[i] = lim(vp_any<uint64_t>("a"), as); ad.un(addrs[i], as); } }
  uint64_t base0 = lim(vp_any<uint64_t>("base"), as); static Want w; uint64_t listoff = 0, rbase = 0; int idx = 0;
  for (int k = 0; k < 2; k++) {
    unsigned s = b.n; b.initlen(d64); b.u16(5); b.u8(as); b.u8(0);
    int noff = byindex ? 2 : 0; b.u32(noff); unsigned arr = b.n; for (int i = 0; i < noff; i++) b.off(0, d64);
    if (k == which) rbase = arr;
    for (int li = 0; li < 2; li++) {
      bool target = k == which && li == 1; idx = 1;
      if (noff) b.patch(arr + li * (d64 ? 8 : 4), b.n - arr, d64 ? 8 : 4);
      if (!target) { b.u8(DW_RLE_offset_pair); b.uleb(1, 1); b.uleb(2, 1); b.u8(0); continue; }
      listoff = b.n; uint64_t base = base0;
      for (int i = 0; i < N; i++) {
        int kind = vp_choose(8, "kind"); if (!kind) break;
        b.u8(kind);
        auto xi = [&] { int x = vp_choose(3, "index"); b.uleb(x, 1 + (i & 1)); return addrs[x]; };
        auto ul = [&](const char* t) { uint64_t v = lim(vp_any<uint64_t>(t), as); b.uleb(v, 10); return v; };
        auto ra = [&](const char* t) { uint64_t v = lim(vp_any<uint64_t>(t), as); b.un(v, as); return v; };
        switch (kind) {
          case DW_RLE_base_addressx: base = xi(); break;
          case DW_RLE_startx_endx: { uint64_t lo = xi(), hi = xi(); w.add(lo, hi); break; }
          case DW_RLE_startx_length: { uint64_t lo = xi(), n = ul("len"); w.add(lo, lo + n); break; }
          case DW_RLE_offset_pair: { uint64_t lo = ul("lo"), hi = ul("hi"); w.add(base + lo, base + hi); break; }
          case DW_RLE_base_address: base = ra("new base"); break;
          case DW_RLE_start_end: { uint64_t lo = ra("lo"), hi = ra("hi"); w.add(lo, hi); break; }
          case DW_RLE_start_length: { uint64_t lo = ra("lo"), n = ul("len"); w.add(lo, lo + n); break; }
        }
      }
      b.u8(0);
    }
    b.endlen(d64, s);
  }
  ByteReader r(b.big ? ENDIANNESS_BIG : ENDIANNESS_LITTLE); r.SetAddressSize(as);
  AddressRangeList l(nullptr, 0, b.p(), b.n, &r, ad.p(), ad.n);
  AddressRangeList::RangeList out;
  if (byindex) l.ReadDwarfRngListwithOffsetArray(l.GetRngListsElementOffsetByIndex(rbase, idx), base0, &out, abase, rbase);
  else l.ReadRangeList(listoff, base0, &out, 5, abase);
  same(out, w); vp_reach("checked"); vp_must_reach("checked");
}
