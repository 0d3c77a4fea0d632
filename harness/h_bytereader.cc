#include "vp.h"
#include "symbolize/bytereader.h"
#include "symbolize/bytereader-inl.h"
using namespace devtools_crosstool_autofdo;
typedef unsigned __int128 u128;

// Fixed-width reads in both byte orders against the arithmetic definition.
extern "C" void fixed() {
  unsigned char b[8];
  vp_symbolic(b, 8, "bytes");
  bool big = vp_anybool("big");
  ByteReader r(big ? ENDIANNESS_BIG : ENDIANNESS_LITTLE);
  auto ref = [&](int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = big ? v * 256 + b[i] : v + ((uint64_t)b[i] << (8 * i)); return v; };
  const char* p = (const char*)b;
  vp_assert(r.ReadOneByte(p) == ref(1), "one byte");
  vp_assert(r.ReadTwoBytes(p) == ref(2), "two bytes");
  vp_assert(r.ReadThreeBytes(p) == ref(3), "three bytes");
  vp_assert(r.ReadFourBytes(p) == ref(4), "four bytes");
  vp_assert(r.ReadEightBytes(p) == ref(8), "eight bytes");
  for (int sz : {4, 8}) {
    r.SetAddressSize(sz); vp_assert(r.ReadAddress(p) == ref(sz), "address"); vp_assert(r.AddressSize() == sz, "address size");
    r.SetOffsetSize(sz); vp_assert(r.ReadOffset(p) == ref(sz), "offset"); vp_assert(r.OffsetSize() == sz, "offset size");
  }
  vp_observe("four", r.ReadFourBytes(p)); vp_observe("eight", r.ReadEightBytes(p));
  vp_reach("fixed"); vp_must_reach("fixed");
}
// LEB128: every encoding of up to 12 bytes whose value fits 64 bits.
extern "C" void leb() {
  const int N = vp_tier() ? 12 : 11;
  unsigned char b[16] = {0};
  vp_symbolic(b, N, "leb");
  int n = 0;
  while (n < N && (b[n] & 0x80)) n++;
  vp_assume(n < N);
  n++;
  vp_assume(n <= 10);
  u128 u = 0; for (int i = 0; i < n; i++) u |= (u128)(b[i] & 0x7f) << (7 * i);
  ByteReader r(ENDIANNESS_LITTLE);
  size_t len = 99;
  if ((uint64_t)(u >> 64) == 0) {
    uint64_t v = r.ReadUnsignedLEB128((char*)b, &len);
    vp_assert(v == (uint64_t)u, "uleb value"); vp_assert(len == (size_t)n, "uleb length");
    vp_observe("uleb", v);
    vp_reach("uleb");
  }
  int sh = 128 - 7 * n;
  __int128 s = (__int128)(u << sh) >> sh;
  if (s == (__int128)(int64_t)s) {
    len = 99;
    int64_t v = r.ReadSignedLEB128((char*)b, &len);
    vp_assert(v == (int64_t)s, "sleb value"); vp_assert(len == (size_t)n, "sleb length");
    vp_observe("sleb", v);
    vp_reach("sleb");
  }
  vp_must_reach("uleb"); vp_must_reach("sleb");
}
extern "C" void initlen() {
  unsigned char b[12];
  vp_symbolic(b, 12, "bytes");
  bool big = vp_anybool("big");
  ByteReader r(big ? ENDIANNESS_BIG : ENDIANNESS_LITTLE);
  auto ref = [&](int o, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = big ? v * 256 + b[o + i] : v + ((uint64_t)b[o + i] << (8 * i)); return v; };
  size_t len = 0;
  uint64_t v = r.ReadInitialLength((char*)b, &len);
  if (ref(0, 4) == 0xffffffff) { vp_assert(len == 12 && v == ref(4, 8) && r.OffsetSize() == 8, "64-bit DWARF"); vp_reach("64"); }
  else { vp_assert(len == 4 && v == ref(0, 4) && r.OffsetSize() == 4, "32-bit DWARF"); vp_reach("32"); }
  vp_must_reach("64"); vp_must_reach("32");
}
