// G01: the GCC profile container (gcov words, counters and strings).
#include "vp.h"
#include "gcov.h"
#include <string>
namespace {
struct Op { int kind; uint32_t u; uint64_t c; char s[8]; unsigned n; bool null; };
Op op[6]; int nop;
void any(int n) {
  nop = n;
  for (int i = 0; i < n; i++) {
    Op& o = op[i]; o.kind = vp_choose(3, "kind"); o.null = false;
    if (o.kind == 0) o.u = vp_any<uint32_t>("word");
    else if (o.kind == 1) o.c = vp_any<uint64_t>("counter");
    else { o.n = vp_choose(6, "length"); for (unsigned k = 0; k < o.n; k++) { o.s[k] = vp_any<char>("char"); vp_assume(o.s[k] != 0); } o.s[o.n] = 0; if (o.n == 0) o.null = vp_choose(2, "null"); }
  }
}
bool wordstr;
void version() { int v = vp_choose(3, "version"); wordstr = v == 0; if (v < 2) absl::SetFlag(&FLAGS_gcov_version, (uint64_t)(v ? 2 : 1)); }
unsigned strbytes(unsigned n) { return wordstr ? (n + 4) / 4 * 4 : n + 1; }
// the file bytes a sequence of values has
struct Out { unsigned char* d; size_t n = 0; void w(uint32_t v) { for (int i = 0; i < 4; i++) d[n++] = v >> (8 * i); } };
void put(Out& o, const Op& x) {
  if (x.kind == 0) o.w(x.u);
  else if (x.kind == 1) { o.w(x.c); o.w(x.c >> 32); }
  else if (x.null) o.w(0);
  else { unsigned k = strbytes(x.n); o.w(wordstr ? k / 4 : k); for (unsigned i = 0; i < k; i++) o.d[o.n++] = i < x.n ? x.s[i] : 0; }
}
void write(const Op& x) { if (x.kind == 0) gcov_write_unsigned(x.u); else if (x.kind == 1) gcov_write_counter(x.c); else gcov_write_string(x.null ? nullptr : x.s); }
void readback(const Op& x) {
  if (x.kind == 0) vp_assert(gcov_read_unsigned() == x.u, "word read back");
  else if (x.kind == 1) vp_assert(gcov_read_counter() == x.c, "counter read back");
  else { const char* s = gcov_read_string(); if (x.null) { vp_assert(!s, "absent string"); return; } vp_assert(s != nullptr, "string present"); vp_assert(!memcmp(s, x.s, x.n + 1), "string read back"); }
}
// concrete filler that ends `before` bytes short of `at`
char fill[40000];
unsigned filler(Out& o, unsigned at, bool wr) {
  unsigned k = 0;
  while (o.n + 4 + 12000 + 1 < at) { memset(fill, 'x', 11999); fill[11999] = 0; Op x{}; o.w(wordstr ? 3000 : 12000); memcpy(o.d + o.n, fill, 12000); o.n += 12000; if (wr) gcov_write_string(fill); k++; }
  while (o.n + 4 <= at) { o.w(0x01020304); if (wr) gcov_write_unsigned(0x01020304); }
  return k;
}
unsigned pos() { static const unsigned edge[] = {0, 32768, 65600, 32776}; unsigned e = edge[vp_choose(vp_tier() ? 4 : 3, "edge")]; unsigned d = vp_choose(vp_tier() ? 8 : 5, "before") * 4; return e < d ? 0 : e - d; }
unsigned char refb[140000];
}
extern "C" void writer() {
  version(); Out o{refb};
  vp_assert(gcov_open("f", -1) == 1, "open for writing");
  filler(o, pos(), true);
  any(2 + vp_tier()); for (int i = 0; i < nop; i++) { write(op[i]); put(o, op[i]); }
  vp_assert(gcov_close() == 0, "close");
  vpf::Node* f = vpf::find("f", false);
  vp_assert(f && f->n == o.n, "file size"); vp_assert(!memcmp(f->d, refb, o.n), "file bytes");
  // and the same values come back from the file just written
  vp_assert(gcov_open("f", 1) == 1, "open for reading");
  for (unsigned a = 0; a + 12004 < o.n && o.n > 20000;) { if (refb[a] == 4) break; vp_assert(gcov_read_string() != nullptr, "filler"); a += 12004; }
  unsigned tail = 0; Out t{refb}; t.n = 0; for (int i = 0; i < nop; i++) { static unsigned char tmp[128]; t.d = tmp; put(t, op[i]); } tail = o.n - t.n;
  unsigned a = 0; while (a + 12004 <= tail && o.n > 20000 && refb[a] != 4) a += 12004;
  for (; a < tail; a += 4) vp_assert(gcov_read_unsigned() == 0x01020304, "filler word");
  for (int i = 0; i < nop; i++) readback(op[i]);
  gcov_close(); vp_reach("wrote");
}
extern "C" void reader() {   // a fresh reader on given bytes; then off the end
  version(); Out o{refb}; unsigned k = filler(o, pos(), false); unsigned fillend = o.n;
  any(2 + vp_tier()); for (int i = 0; i < nop; i++) put(o, op[i]);
  unsigned cut = vp_choose(2, "truncate"), last = 0;
  if (cut) { Out t{refb}; static unsigned char tmp[64]; t.d = tmp; t.n = 0; put(t, op[nop - 1]); last = t.n; cut = 1 + vp_choose(last < 8 ? last : 8, "cut"); if (cut > last) cut = last; o.n -= cut; }
  vpf::put(vpf::find("f", true), 0, refb, o.n);
  vp_assert(gcov_open("none", 1) == 0, "missing file refused");
  vp_assert(gcov_open("f", 1) == 1, "open for reading");
  for (unsigned i = 0; i < k; i++) { const char* s = gcov_read_string(); vp_assert(s && s[0] == 'x' && s[11998] == 'x' && !s[11999], "filler string"); }
  for (unsigned a = k * 12004; a < fillend; a += 4) vp_assert(gcov_read_unsigned() == 0x01020304, "filler word");
  for (int i = 0; i + (cut ? 1 : 0) < nop; i++) readback(op[i]);
  if (cut) {
    Op& x = op[nop - 1];
    if (x.kind == 0) vp_assert(gcov_read_unsigned() == 0, "truncated word");
    else if (x.kind == 1) vp_assert(gcov_read_counter() == 0, "truncated counter");
    else vp_assert(gcov_read_string() == nullptr, "truncated string");
    vp_reach("truncated");
  } else vp_assert(gcov_read_unsigned() == 0 && gcov_read_counter() == 0 && gcov_read_string() == nullptr, "past the end");
  gcov_close(); vp_reach("read"); vp_must_reach("read"); vp_must_reach("truncated");
}
