// D03: compilation-unit headers, abbreviations, attribute decoding and the DIE tree, against the DWARF encoding.
#include <filesystem>
#include "dw.h"
#include "symbolize/dwarf2reader.h"
#include "symbolize/dwarf2enums.h"
using namespace devtools_crosstool_autofdo;
namespace {
enum Kind { START, END, U, S, B, STR };
struct Ev { int kind; uint64_t off; int attr, form; uint64_t val; const char* p; };
struct Log { Ev e[64]; int n = 0; void add(int k, uint64_t o, int a = 0, int f = 0, uint64_t v = 0, const char* p = nullptr) { e[n++] = {k, o, a, f, v, p}; } };
struct Rec : Dwarf2Handler {
  Log l; const bool* interested = nullptr; int die = 0; uint64_t cuoff = 0, culen = 0; int as = 0, os = 0, ver = 0, cus = 0;
  const AttributeList* last = nullptr;
  bool StartCompilationUnit(uint64 o, uint8 a, uint8 s, uint64 len, uint8 v) override { cuoff = o; culen = len; as = a; os = s; ver = v; cus++; return true; }
  bool StartDIE(uint64 o, enum DwarfTag t, const AttributeList& at) override { l.add(START, o, t, at.size()); return interested[die++]; }
  void EndDIE(uint64 o) override { l.add(END, o); }
  void ProcessAttributeUnsigned(uint64 o, enum DwarfAttribute a, enum DwarfForm f, uint64 d) override { l.add(U, o, a, f, d); }
  void ProcessAttributeSigned(uint64 o, enum DwarfAttribute a, enum DwarfForm f, int64 d) override { l.add(S, o, a, f, d); }
  void ProcessAttributeBuffer(uint64 o, enum DwarfAttribute a, enum DwarfForm f, const char* p, uint64 n) override { l.add(B, o, a, f, n, p); }
  void ProcessAttributeString(uint64 o, enum DwarfAttribute a, enum DwarfForm f, const char* p) override { l.add(STR, o, a, f, 0, p); }
};
struct F { int form; int minver; bool skiponly; };
const F forms[] = {
  {DW_FORM_addr, 2}, {DW_FORM_block2, 2}, {DW_FORM_block4, 2}, {DW_FORM_data2, 2}, {DW_FORM_data4, 2}, {DW_FORM_data8, 2}, {DW_FORM_string, 2}, {DW_FORM_block, 2},
  {DW_FORM_block1, 2}, {DW_FORM_data1, 2}, {DW_FORM_flag, 2}, {DW_FORM_sdata, 2}, {DW_FORM_strp, 2}, {DW_FORM_udata, 2}, {DW_FORM_ref_addr, 2}, {DW_FORM_ref1, 2},
  {DW_FORM_ref2, 2}, {DW_FORM_ref4, 2}, {DW_FORM_ref8, 2}, {DW_FORM_ref_udata, 2}, {DW_FORM_indirect, 2}, {DW_FORM_sec_offset, 4}, {DW_FORM_exprloc, 4}, {DW_FORM_flag_present, 4},
  {DW_FORM_ref_sig8, 4}, {DW_FORM_GNU_addr_index, 4}, {DW_FORM_GNU_str_index, 4},
  {DW_FORM_strx, 5}, {DW_FORM_addrx, 5}, {DW_FORM_ref_sup4, 5, true}, {DW_FORM_strp_sup, 5, true}, {DW_FORM_data16, 5}, {DW_FORM_line_strp, 5}, {DW_FORM_implicit_const, 5},
  {DW_FORM_loclistx, 5, true}, {DW_FORM_rnglistx, 5}, {DW_FORM_ref_sup8, 5, true}, {DW_FORM_strx1, 5}, {DW_FORM_strx2, 5}, {DW_FORM_strx3, 5}, {DW_FORM_strx4, 5},
  {DW_FORM_addrx1, 5}, {DW_FORM_addrx2, 5}, {DW_FORM_addrx3, 5}, {DW_FORM_addrx4, 5}};
const int NF = sizeof(forms) / sizeof(forms[0]);
struct World {
  Buf info, ab, st, ls, so, ad; Log want;
  int version, as; bool d64; uint64_t sobase = 0, adbase = 0; unsigned stroff[2][3]; uint64_t addrs[2][3]; int contrib = 0;
  // Appends one attribute's operand; logs the expected event when `live`.
  void attr(int form, int at, uint64_t die, bool live, int64_t impl, int fixidx = -1) {
    Buf& b = info; int rf = form;
    switch (form) {
      case DW_FORM_data1: case DW_FORM_flag: case DW_FORM_ref1: { uint64_t v = vp_any<uint8_t>("v1"); b.u8(v); if (live) want.add(U, die, at, rf, v); break; }
      case DW_FORM_data2: case DW_FORM_ref2: { uint64_t v = vp_any<uint16_t>("v2"); b.u16(v); if (live) want.add(U, die, at, rf, v); break; }
      case DW_FORM_data4: case DW_FORM_ref4: { uint64_t v = vp_any<uint32_t>("v4"); b.u32(v); if (live) want.add(U, die, at, rf, v); break; }
      case DW_FORM_ref_sup4: b.u32(vp_any<uint32_t>("v4")); break;
      case DW_FORM_data8: case DW_FORM_ref8: case DW_FORM_ref_sig8: { uint64_t v = vp_any<uint64_t>("v8"); b.u64(v); if (live) want.add(U, die, at, rf, v); break; }
      case DW_FORM_ref_sup8: b.u64(vp_any<uint64_t>("v8")); break;
      case DW_FORM_data16: for (int i = 0; i < 16; i++) b.u8(vp_any<uint8_t>("v16")); break;
      case DW_FORM_udata: case DW_FORM_ref_udata: case DW_FORM_rnglistx: { int k = vp_choose(3, "ulen"); uint64_t v = k == 0 ? vp_any<uint8_t>("ul") & 0x7f : k == 1 ? vp_any<uint32_t>("ul") : vp_any<uint64_t>("ul"); b.uleb(v, k == 0 ? 1 : k == 1 ? 5 : 10); if (live) want.add(U, die, at, rf, v); break; }
      case DW_FORM_loclistx: b.uleb(vp_any<uint32_t>("ul"), 5); break;
      case DW_FORM_sdata: { int k = vp_choose(3, "slen"); int64_t v = k == 0 ? (int8_t)(vp_any<uint8_t>("sl") << 1) >> 1 : k == 1 ? vp_any<int32_t>("sl") : vp_any<int64_t>("sl"); b.sleb(v, k == 0 ? 1 : k == 1 ? 5 : 10); if (live) want.add(S, die, at, rf, v); break; }
      case DW_FORM_addr: { uint64_t v = vp_any<uint64_t>("addr"); if (as == 4) v &= 0xffffffff; b.un(v, as); if (live) want.add(U, die, at, rf, v); break; }
      case DW_FORM_ref_addr: { int w = version == 2 ? as : d64 ? 8 : 4; uint64_t v = vp_any<uint64_t>("refaddr"); if (w == 4) v &= 0xffffffff; b.un(v, w); if (live) want.add(U, die, at, rf, v); break; }
      case DW_FORM_sec_offset: { uint64_t v = vp_any<uint64_t>("secoff"); if (!d64) v &= 0xffffffff; b.off(v, d64); if (live) want.add(U, die, at, rf, v); break; }
      case DW_FORM_block1: case DW_FORM_block2: case DW_FORM_block4: case DW_FORM_block: case DW_FORM_exprloc: {
        int n = vp_choose(4, "blen");
        if (form == DW_FORM_block1) b.u8(n); else if (form == DW_FORM_block2) b.u16(n); else if (form == DW_FORM_block4) b.u32(n); else b.uleb(n, 2);
        const char* p = b.p() + b.n; for (int i = 0; i < n; i++) b.u8(vp_any<uint8_t>("bb")); if (live) want.add(B, die, at, rf, n, p); break; }
      case DW_FORM_string: { int n = vp_choose(3, "slen"); const char* p = b.p() + b.n; for (int i = 0; i < n; i++) { char c = vp_any<char>("sc"); vp_assume(c != 0); b.u8(c); } b.u8(0); if (live) want.add(STR, die, at, rf, 0, p); break; }
      case DW_FORM_strp: case DW_FORM_line_strp: { Buf& x = form == DW_FORM_strp ? st : ls; uint64_t o = vp_below(6, "stroff"); b.off(o, d64); if (live) want.add(STR, die, at, rf, 0, x.p() + o); break; }
      case DW_FORM_strp_sup: b.off(0, d64); break;
      case DW_FORM_flag_present: if (live) want.add(U, die, at, rf, 1); break;
      case DW_FORM_implicit_const: if (live) want.add(S, die, at, rf, impl); break;
      case DW_FORM_strx1: case DW_FORM_strx2: case DW_FORM_strx3: case DW_FORM_strx4: case DW_FORM_strx: case DW_FORM_GNU_str_index:
      case DW_FORM_addrx1: case DW_FORM_addrx2: case DW_FORM_addrx3: case DW_FORM_addrx4: case DW_FORM_addrx: case DW_FORM_GNU_addr_index: {
        int i = fixidx >= 0 ? fixidx : vp_choose(3, "index");
        switch (form) {
          case DW_FORM_strx1: case DW_FORM_addrx1: b.u8(i); break;
          case DW_FORM_strx2: case DW_FORM_addrx2: b.u16(i); break;
          case DW_FORM_strx3: case DW_FORM_addrx3: b.un(i, 3); break;
          case DW_FORM_strx4: case DW_FORM_addrx4: b.u32(i); break;
          default: b.uleb(i, 2);
        }
        bool isstr = form == DW_FORM_strx || form == DW_FORM_GNU_str_index || (form >= DW_FORM_strx1 && form <= DW_FORM_strx4);
        if (live) { if (isstr) want.add(STR, die, at, rf, 0, st.p() + stroff[contrib][i]); else want.add(U, die, at, rf, addrs[contrib][i]); }
        break; }
      case DW_FORM_indirect: { int f2 = vp_choose(2, "indirect") ? DW_FORM_data2 : DW_FORM_udata; b.uleb(f2, 2); attr(f2, at, die, live, impl); break; }
    }
  }
  void tables() {   // two contributions to each indexed section
    for (int i = 0; i < 8; i++) { st.u8('a' + i); ls.u8('A' + i); }
    st.u8(0); ls.u8(0);
    for (int c = 0; c < 2; c++) {
      if (version >= 5) { unsigned s = so.n; so.initlen(d64); so.u16(5); so.u16(0); sb[c] = so.n; for (int i = 0; i < 3; i++) { stroff[c][i] = vp_below(8, "str"); so.off(stroff[c][i], d64); } so.endlen(d64, s);
        s = ad.n; ad.initlen(d64); ad.u16(5); ad.u8(as); ad.u8(0); abs_[c] = ad.n; for (int i = 0; i < 3; i++) { addrs[c][i] = vp_any<uint64_t>("a"); if (as == 4) addrs[c][i] &= 0xffffffff; ad.un(addrs[c][i], as); } ad.endlen(d64, s);
      } else if (c == 0) { sb[0] = abs_[0] = 0; for (int i = 0; i < 3; i++) { stroff[c][i] = vp_below(8, "str"); so.off(stroff[c][i], d64); } for (int i = 0; i < 3; i++) { addrs[c][i] = vp_any<uint64_t>("a"); if (as == 4) addrs[c][i] &= 0xffffffff; ad.un(addrs[c][i], as); } }
    }
  }
  uint64_t sb[2], abs_[2]; int skel = 0;
  uint64_t header(bool prefix) {
    uint64_t cu = info.n; info.initlen(d64); info.u16(version);
    unsigned aboff = ab.n;
    if (version >= 5) { int ut = skel = vp_choose(2, "unit type"); info.u8(ut ? DW_UT_skeleton : DW_UT_compile); info.u8(as); info.off(aboff, d64); if (ut) info.u64(vp_any<uint64_t>("dwo id")); }
    else { info.off(aboff, d64); info.u8(as); }
    return cu;
  }
};
void compare(World& w, Rec& r) {
  vp_assert(r.l.n == w.want.n, "number of events");
  for (int i = 0; i < w.want.n; i++) {
    Ev &a = r.l.e[i], &b = w.want.e[i];
    vp_assert(a.kind == b.kind, "event kind"); vp_assert(a.off == b.off, "DIE offset"); vp_assert(a.attr == b.attr, "tag or attribute"); vp_assert(a.form == b.form, "form");
    vp_assert(a.val == b.val, "attribute value"); vp_assert(a.p == b.p, "attribute data pointer");
    vp_observe("v", a.val); vp_observe("off", a.off);
  }
}
SectionMap* sections(World& w) {
  SectionMap* m = new SectionMap;
  (*m)[".debug_info"] = {w.info.p(), w.info.n}; (*m)[".debug_abbrev"] = {w.ab.p(), w.ab.n}; (*m)[".debug_str"] = {w.st.p(), w.st.n}; (*m)[".debug_line_str"] = {w.ls.p(), w.ls.n};
  (*m)[".debug_str_offsets"] = {w.so.p(), w.so.n}; (*m)[".debug_addr"] = {w.ad.p(), w.ad.n};
  return m;
}
World* mk(int cfg) {
  static World w; w.version = cfg / 10 % 10; int v = cfg % 10; w.d64 = v & 1; w.as = (v & 2) ? 4 : 8;
  bool big = v & 4; w.info.big = w.ab.big = w.so.big = w.ad.big = big; 
  w.tables();
  for (int i = 0; i < 3; i++) w.ab.u8(0x55);   // the unit's abbreviations do not start the section
  for (int i = 0; i < (cfg / 100 % 2 ? 7 : 0); i++) w.info.u8(0x77);
  return &w;
}
}
// One DIE with two arbitrary attributes between sentinel DIEs.
extern "C" void attrs() {
  int cfg = vp_cfg(); World& w = *mk(cfg); int ver = w.version;
  uint64_t cu = w.header(false);
  int f1 = vp_choose(NF, "form"), f2 = vp_tier() && !(cfg / 1000) ? vp_choose(NF, "form2") : vp_choose(3, "form2") * 5 + 3;
  vp_assume(forms[f1].minver <= ver && forms[f2].minver <= ver);
  bool inter[4] = {vp_choose(2, "interested0") != 0, vp_choose(2, "interested1") != 0, true, true};
  if (forms[f1].skiponly || forms[f2].skiponly) vp_assume(!inter[1]);
  bool bases = ver >= 5; w.contrib = bases ? vp_choose(2, "contribution") : 0;
  if (bases && !inter[0]) vp_assume(w.contrib == 0);   // without the unit DIE's bases the first contribution applies
  int64_t impl = vp_any<int64_t>("implicit");
  // abbreviations: 1 = unit, 2 = the DIE under test, 3 = sentinel
  Buf& a = w.ab;
  uint64_t nm = vp_any<uint8_t>("attr name"); vp_assume(nm != 0 && nm < 0x60 && nm != DW_AT_GNU_dwo_name && nm != DW_AT_str_offsets_base); uint64_t tag2 = vp_below(0x3f, "tag") + 1; vp_assume(tag2 != DW_TAG_compile_unit);
  int basepos = bases ? vp_choose(2, "base position") : 0;
  a.uleb(1, 1); a.uleb(bases && w.skel ? DW_TAG_skeleton_unit : DW_TAG_compile_unit, 1); int cutag = a.b[a.n - 1]; a.u8(1);
  auto base = [&] { a.uleb(DW_AT_str_offsets_base, 1); a.uleb(DW_FORM_sec_offset, 1); a.uleb(DW_AT_addr_base, 1); a.uleb(DW_FORM_sec_offset, 1); a.uleb(DW_AT_rnglists_base, 1); a.uleb(DW_FORM_sec_offset, 1); };
  if (bases && basepos == 0) base();
  if (bases) { a.uleb(DW_AT_name, 1); a.uleb(DW_FORM_strx1, 1); a.uleb(DW_AT_low_pc, 1); a.uleb(DW_FORM_addrx, 1); }
  a.uleb(DW_AT_language, 1); a.uleb(DW_FORM_data2, 1);
  if (bases && basepos == 1) base();
  a.u8(0); a.u8(0);
  a.uleb(2, 2); a.uleb(tag2, 1); a.u8(0);
  a.uleb(nm, 2); a.uleb(forms[f1].form, 2); if (forms[f1].form == DW_FORM_implicit_const) a.sleb(impl, 10);
  a.uleb(0x2107, 2); a.uleb(forms[f2].form, 2); if (forms[f2].form == DW_FORM_implicit_const) a.sleb(impl, 10);
  a.u8(0); a.u8(0);
  a.uleb(3, 1); a.uleb(DW_TAG_subprogram, 1); a.u8(0); a.uleb(DW_AT_decl_line, 1); a.uleb(DW_FORM_data2, 1); a.u8(0); a.u8(0);
  a.u8(0);
  // the tree
  Buf& b = w.info; int nattr = 1 + (bases ? 5 : 0);
  uint64_t rnb = vp_any<uint32_t>("rnglists base");
  uint64_t o = b.n; b.uleb(1, 1); w.want.add(START, o, cutag, nattr);
  auto baseval = [&] { b.off(w.sb[w.contrib], w.d64); b.off(w.abs_[w.contrib], w.d64); b.off(rnb, w.d64);
    if (inter[0]) { w.want.add(U, o, DW_AT_str_offsets_base, DW_FORM_sec_offset, w.sb[w.contrib]); w.want.add(U, o, DW_AT_addr_base, DW_FORM_sec_offset, w.abs_[w.contrib]); w.want.add(U, o, DW_AT_rnglists_base, DW_FORM_sec_offset, rnb); } };
  if (bases && basepos == 0) baseval();
  if (bases) { w.attr(DW_FORM_strx1, DW_AT_name, o, inter[0], 0, 1); w.attr(DW_FORM_addrx, DW_AT_low_pc, o, inter[0], 0, 2); }
  w.attr(DW_FORM_data2, DW_AT_language, o, inter[0], 0);
  if (bases && basepos == 1) baseval();
  uint64_t d1 = b.n; b.uleb(2, 1); w.want.add(START, d1, tag2, 2);
  w.attr(forms[f1].form, nm, d1, inter[1], impl); w.attr(forms[f2].form, 0x2107, d1, inter[1], impl); w.want.add(END, d1);
  uint64_t d2 = b.n; b.uleb(3, 2); w.want.add(START, d2, DW_TAG_subprogram, 1); w.attr(DW_FORM_data2, DW_AT_decl_line, d2, true, 0); w.want.add(END, d2);
  b.u8(0); w.want.add(END, o);
  b.endlen(w.d64, cu); uint64_t end = b.n; for (int i = 0; i < 4; i++) b.u8(0);
  ByteReader r(b.big ? ENDIANNESS_BIG : ENDIANNESS_LITTLE); r.SetAddressSize(8);
  static Rec h; h.interested = inter;
  SectionMap* m = sections(w);
  CompilationUnit c("f", *m, cu, &r, &h);
  uint64_t used = c.Start();
  vp_assert(!c.malformed(), "well-formed unit accepted");
  vp_assert(used == end - cu, "reports the unit's size");
  vp_assert(h.cus == 1 && h.cuoff == cu && h.as == w.as && h.os == (w.d64 ? 8 : 4) && h.ver == ver && h.culen == end - cu - (w.d64 ? 12 : 4), "unit header");
  compare(w, h);
  if (bases && inter[0]) vp_assert(h.get_range_base() == rnb, "range list base");
  vp_reach("checked"); vp_must_reach("checked");
}
// Arbitrary trees: nesting, siblings, null padding.
extern "C" void tree() {
  int cfg = vp_cfg(); World& w = *mk(cfg); int steps = 5 + vp_tier() * 3;
  uint64_t cu = w.header(false);
  Buf& a = w.ab; Buf& b = w.info;
  // abbreviations 1..4: {children?} x {no attributes, one data1}
  for (int i = 0; i < 4; i++) { a.uleb(1 + i, 1); a.uleb(0x20 + i, 1); a.u8(i & 1); if (i & 2) { a.uleb(DW_AT_decl_line, 1); a.uleb(DW_FORM_data1, 1); } a.u8(0); a.u8(0); }
  a.u8(0);
  uint64_t stack[16]; int sp = 0; bool inter[16]; int nd = 0;
  for (int i = 0; i < steps; i++) {
    int k = vp_choose(5, "step");
    if (k == 0) { b.u8(0); if (sp) w.want.add(END, stack[--sp]); continue; }   // null entry: closes a list of children, or padding
    uint64_t o = b.n; b.uleb(k, 1 + (i & 1)); inter[nd] = vp_choose(2, "interested");
    w.want.add(START, o, 0x20 + k - 1, (k - 1) & 2 ? 1 : 0);
    if ((k - 1) & 2) w.attr(DW_FORM_data1, DW_AT_decl_line, o, inter[nd], 0);
    nd++;
    if ((k - 1) & 1) stack[sp++] = o; else w.want.add(END, o);
  }
  b.endlen(w.d64, cu); uint64_t end = b.n; b.u8(1); b.u8(1); b.u8(1); b.u8(1);
  ByteReader r(b.big ? ENDIANNESS_BIG : ENDIANNESS_LITTLE); r.SetAddressSize(8);
  static Rec h; h.interested = inter;
  SectionMap* m = sections(w);
  CompilationUnit c("f", *m, cu, &r, &h);
  uint64_t used = c.Start();
  vp_assert(!c.malformed() && used == end - cu, "unit size");
  compare(w, h);
  vp_reach("checked"); vp_must_reach("checked");
}
// Two units read one after the other with one reader; the second has its own abbreviations, width and offset size.
extern "C" void units() {
  int cfg = vp_cfg(); World& w = *mk(cfg);
  static bool inter[8] = {true, true, true, true, true, true, true, true};
  Buf& a = w.ab; Buf& b = w.info;
  uint64_t cus[2]; uint64_t mid = 0;
  int asz[2] = {w.as, (int)(vp_choose(2, "second width") ? 4 : 8)}; bool dd[2] = {w.d64, vp_choose(2, "second offset size") != 0}; int vs[2] = {w.version, w.version == 5 ? 5 : (int)vp_choose(3, "second version") + 2};
  static Rec h[2]; Log wants[2];
  for (int i = 0; i < 2; i++) {
    w.as = asz[i]; w.d64 = dd[i]; w.version = vs[i]; w.want.n = 0;
    cus[i] = w.header(false);
    a.uleb(1, 1); a.uleb(DW_TAG_compile_unit, 1); a.u8(0); a.uleb(DW_AT_low_pc, 1); a.uleb(DW_FORM_addr, 1); a.uleb(DW_AT_name, 1); a.uleb(DW_FORM_strp, 1); a.uleb(i ? 0x31 : 0x2111, 2); a.uleb(DW_FORM_ref_addr, 1); a.u8(0); a.u8(0); a.u8(0);
    uint64_t o = b.n; b.u8(1); w.want.add(START, o, DW_TAG_compile_unit, 3); w.attr(DW_FORM_addr, DW_AT_low_pc, o, true, 0); w.attr(DW_FORM_strp, DW_AT_name, o, true, 0); w.attr(DW_FORM_ref_addr, i ? 0x31 : 0x2111, o, true, 0); w.want.add(END, o);
    b.endlen(w.d64, cus[i]); wants[i] = w.want;
  }
  uint64_t total = b.n; b.u8(0);
  ByteReader r(b.big ? ENDIANNESS_BIG : ENDIANNESS_LITTLE); r.SetAddressSize(8);
  SectionMap* m = sections(w); m->erase(".debug_str_offsets"); m->erase(".debug_addr");
  uint64_t pos = cus[0];
  bool reuse = vp_choose(2, "reuse object");
  CompilationUnit c("f", *m, pos, &r, &h[0]); h[0].interested = inter; h[1].interested = inter;
  uint64_t n = c.Start(); vp_assert(!c.malformed() && pos + n == cus[1], "the second unit follows the first");
  w.want = wants[0]; compare(w, h[0]);
  pos += n;
  if (reuse) { h[0].l.n = 0; h[0].die = 0; n = c.Start(pos); vp_assert(!c.malformed(), "second accepted"); w.want = wants[1]; compare(w, h[0]); vp_assert(h[0].as == asz[1] && h[0].os == (dd[1] ? 8 : 4) && h[0].ver == vs[1], "second header"); }
  else { CompilationUnit d("f", *m, pos, &r, &h[1]); n = d.Start(); vp_assert(!d.malformed(), "second accepted"); w.want = wants[1]; compare(w, h[1]); vp_assert(h[1].as == asz[1] && h[1].os == (dd[1] ? 8 : 4) && h[1].ver == vs[1], "second header"); }
  vp_assert(pos + n == total, "units are consumed exactly");
  vp_reach("checked"); vp_must_reach("checked");
}
