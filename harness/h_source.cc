// S04: location encodings; S05: attributing instructions to their source.
#include "addr2line.h"
#include "instruction_map.h"
#include "source_info.h"
#include "symref.h"
using namespace rf;
namespace {
// LLVM's discriminator components: 5-bit (two 5-bit groups when extended) values in a prefix code
uint32_t comp(uint32_t d) { if (d & 1) return 0; d >>= 1; return d & 0x20 ? ((d >> 1) & 0xfe0) | (d & 0x1f) : d & 0x1f; }
uint32_t rest(uint32_t d) { return d & 1 ? d >> 1 : d & 0x40 ? d >> 14 : d >> 7; }
struct Fake : Addr2line {
  struct L { uint32_t start, line, disc; int depth; }; std::vector<L> at; uint64_t lo; mutable int asked = 0;
  Fake() : Addr2line("bin") {}
  bool Prepare() override { return true; }
  void GetInlineStack(uint64_t a, SourceStack* st) const override {
    asked++; uint64_t i = a - lo; if (i >= at.size()) { vp_assert(false, "only addresses of the function are looked up"); return; }
    for (int k = 0; k < at[i].depth; k++) st->push_back(SourceInfo(k == at[i].depth - 1 ? "aa" : k ? "cc" : "b", "dir", "f.c", k ? 10 : at[i].start, k ? 12 + i : at[i].line, k ? 0 : at[i].disc));
  }
};
}
extern "C" void offsets() {
  uint32_t start = vp_any<uint32_t>("start"), line = vp_any<uint32_t>("line"), disc = vp_any<uint32_t>("disc"); bool enc = vp_choose(2, "encoding"); uint32_t d = disc, dup = 1, delta = line - start;
  SourceInfo s("f", "d", "f.c", start, line, disc);
#if defined(HAVE_LLVM)
  bool fs = vp_choose(2, "fs"), base = vp_choose(2, "base only"); SourceInfo::use_fs_discriminator = fs; SourceInfo::use_base_only_in_fs_discriminator = base;
  if (fs ? base : enc) d = (disc & 7) == 7 ? llvm::DILocation::getBaseDiscriminatorFromDiscriminator(disc) : comp(disc);   // pseudo probes: as LLVM reads them
  if (!fs) { uint32_t x = comp(rest(disc)); dup = x ? x : 1; }
#endif
  uint64_t off = s.Offset(enc); vp_assert(off == ((uint64_t)delta << 32 | d), "offset of a location"); vp_assert(s.DuplicationFactor() == dup, "duplication factor");
  vp_assert(SourceInfo::GetLineNumberFromOffset(off) == (delta & 0xffff) && SourceInfo::GetDiscriminatorFromOffset(off) == d, "line and discriminator of an offset");
  vp_assert(SourceInfo::GenerateOffset(delta, d) == off, "offset from its parts");
  uint32_t l = vp_any<uint16_t>("line16"), q = vp_any<uint16_t>("disc16"); uint64_t o = SourceInfo::GenerateOffset(l, q);
  vp_assert(SourceInfo::GetLineNumberFromOffset(o) == l && SourceInfo::GetDiscriminatorFromOffset(o) == q && SourceInfo::GenerateCompressedOffset(o) == (l << 16 | q), "16-bit lines and discriminators are kept apart");
  vp_assert(s.HasInvalidInfo() == (start == 0 || line == 0), "unusable locations"); SourceInfo z; vp_assert(z.HasInvalidInfo() && z.func_name == nullptr, "no location");
  vp_observe("off", off); vp_reach("end"); vp_must_reach("end");
}
extern "C" void instructions() {
#if defined(HAVE_LLVM)
  SourceInfo::use_fs_discriminator = vp_choose(2, "fs");
#endif
  int n = vp_choose(3 + vp_tier(), "length"), shape = vp_cfg(); Fake f; f.lo = vp_bytes(7, "start"); SymbolMap m; m.AddSymbol("aa"); Map r; Fn& F = r.get("aa");
  for (int i = 0; i < n; i++) { Fake::L l; l.depth = i == 0 ? shape % 4 : vp_choose(4, "depth"); l.start = vp_any<uint32_t>("fn line"); l.line = vp_any<uint32_t>("line"); l.disc = vp_any<uint32_t>("disc"); f.at.push_back(l); }
  uint64_t end = n ? f.lo + n : f.lo - vp_bytes(1, "empty"); vp_assume(n || end <= f.lo);
  InstructionMap im(&f, &m); im.BuildPerFunctionInstructionMap("aa", f.lo, end); vp_assert(f.asked == n, "every address is looked up once");
  for (int i = 0; i < n; i++) {
    auto& l = f.at[i]; InstructionMap::InstInfo* ii = im.lookup(f.lo + i); vp_assert(ii != nullptr && (int)ii->source_stack.size() == l.depth, "instruction of the function"); if (!ii) return;
    if (l.depth) { vp_assert(ii->source_stack[0].line == l.line && ii->source_stack[0].discriminator == l.disc && ii->source_stack[0].start_line == l.start && ii->source_stack.back().func_name == std::string("aa"), "its stack"); }
    if (!l.depth) continue;
    Fn* g = &F; for (int k = l.depth - 1; k > 0; k--) g = &g->call((uint64_t)(2 + i) << 32, k - 1 ? "cc" : "b");
    if (l.start && l.line) g->at((uint64_t)(uint32_t)(l.line - l.start) << 32 | l.disc).inst += 1;
  }
  uint64_t q = vp_any<uint64_t>("address"); if (n) { InstructionMap::InstInfo* ii = im.lookup(q); bool in = q >= f.lo && q < f.lo + n; vp_assert((ii != nullptr) == in, "addresses of the function only"); if (ii) vp_assert(ii == im.lookup(f.lo) + (q - f.lo), "one entry per address"); }
  check(m, r, "one instruction counted at its location, no samples");
  vp_observe("n", n); vp_reach("end"); vp_must_reach("end");
}
