// Byte-level encoders for the DWARF harnesses (fixed-width LEB padding keeps operands symbolic without forking).
#pragma once
#include "vp.h"
#include <cstring>
struct Buf {
  unsigned char b[1024]; unsigned n = 0; bool big = false;
  void u8(uint64_t v) { b[n++] = (unsigned char)v; }
  void un(uint64_t v, int k) { for (int i = 0; i < k; i++) b[n + i] = (unsigned char)(v >> (8 * (big ? k - 1 - i : i))); n += k; }
  void u16(uint64_t v) { un(v, 2); }
  void u32(uint64_t v) { un(v, 4); }
  void u64(uint64_t v) { un(v, 8); }
  void off(uint64_t v, bool d64) { un(v, d64 ? 8 : 4); }
  // k-byte (padded) LEB128
  void uleb(uint64_t v, int k) { for (int i = 0; i < k; i++) { u8((v & 0x7f) | (i + 1 < k ? 0x80 : 0)); v >>= 7; } }
  void sleb(int64_t v, int k) { for (int i = 0; i < k; i++) { u8(((uint64_t)v & 0x7f) | (i + 1 < k ? 0x80 : 0)); v >>= 7; } }
  void str(const char* s) { while (*s) u8(*s++); u8(0); }
  void patch(unsigned at, uint64_t v, int k) { unsigned o = n; n = at; un(v, k); n = o; }
  void initlen(bool d64) { if (d64) { u32(0xffffffff); u64(0); } else u32(0); }
  void endlen(bool d64, unsigned start = 0) { if (d64) patch(start + 4, n - start - 12, 8); else patch(start, n - start - 4, 4); }
  const char* p() const { return (const char*)b; }
};
