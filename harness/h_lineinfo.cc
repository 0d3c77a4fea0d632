// D02: the line-number program interpreter against the DWARF state-machine definition.
#include <filesystem>
#include "dw.h"
#include "symbolize/dwarf2reader.h"
#include "symbolize/line_state_machine.h"
#include "symbolize/dwarf2enums.h"
using namespace devtools_crosstool_autofdo;
namespace {
struct Row { uint64_t addr; uint32_t file, line, col, disc; bool end; };
struct FileEnt { const char* name; int32_t num; uint32_t dir; uint64_t mtime, len; };
struct DirEnt { const char* name; uint32_t num; };
struct Rec : LineInfoHandler {
  Row rows[16]; int nr = 0; FileEnt files[8]; int nf = 0; DirEnt dirs[4]; int nd = 0; int cus = 0;
  void StartCU() override { cus++; }
  void DefineDir(const char* name, uint32 num) override { dirs[nd++] = {name, num}; }
  void DefineFile(const char* name, int32 num, uint32 dir, uint64 mt, uint64 len) override { files[nf++] = {name, num, dir, mt, len}; }
  void AddLine(uint64 a, uint32 f, uint32 l, uint32 c, uint32 d, bool e) override { rows[nr++] = {a, f, l, c, d, e}; }
};
struct SM { uint64_t addr = 0; uint64_t file = 1, line = 1, col = 0, disc = 0; };
struct Gen {
  Buf b; SM s; Row want[16]; int nw = 0;
  uint64_t minlen, base, range; int64_t lbase; bool be;
  const char* deffile = nullptr;
  void emit(bool end) { want[nw++] = {s.addr, (uint32_t)s.file, (uint32_t)s.line, (uint32_t)s.col, (uint32_t)s.disc, end}; s.disc = 0; }
  void adv(uint64_t ops) { s.addr += minlen * ops; }
  void op(int k, int addrsize, const char* tag) {
    switch (k) {
      case 0: {  // special opcode
        uint64_t o = vp_any<uint8_t>("special"); vp_assume(o >= base);
        b.u8(o); adv((uint8_t)(o - base) / (uint8_t)range); s.line += lbase + (int64_t)((uint8_t)(o - base) % (uint8_t)range); emit(false); break; }
      case 1: b.u8(DW_LNS_copy); emit(false); break;
      case 2: { uint64_t v = vp_any<uint32_t>("advance_pc"); b.u8(DW_LNS_advance_pc); b.uleb(v, 5); adv(v); break; }
      case 3: { int64_t v = vp_any<int32_t>("advance_line"); b.u8(DW_LNS_advance_line); b.sleb(v, 5); s.line += v; break; }
      case 4: { uint64_t v = vp_any<uint16_t>("file"); b.u8(DW_LNS_set_file); b.uleb(v, 3); s.file = v; break; }
      case 5: { uint64_t v = vp_any<uint32_t>("column"); b.u8(DW_LNS_set_column); b.uleb(v, 5); s.col = v; break; }
      case 6: b.u8(DW_LNS_negate_stmt); break;
      case 7: b.u8(DW_LNS_set_basic_block); break;
      case 8: b.u8(DW_LNS_const_add_pc); adv((255 - base) / range); break;
      case 9: { uint64_t v = vp_any<uint16_t>("fixed"); b.u8(DW_LNS_fixed_advance_pc); b.u16(v); s.addr += v; break; }
      case 10: { uint64_t v = vp_any<uint64_t>("address"); if (addrsize == 4) v &= 0xffffffff; b.u8(0); b.uleb(1 + addrsize, 1); b.u8(DW_LNE_set_address); b.un(v, addrsize); s.addr = v; break; }
      case 11: { uint64_t v = vp_any<uint32_t>("discriminator"); b.u8(0); b.uleb(6, 2); b.u8(DW_LNE_set_discriminator); b.uleb(v, 5); s.disc = v; break; }
      case 12: { uint64_t d = vp_any<uint16_t>("dir"), m = vp_any<uint16_t>("mtime"), l = vp_any<uint16_t>("len");
        b.u8(0); b.uleb(1 + 3 + 9, 1); b.u8(DW_LNE_define_file); deffile = b.p() + b.n; b.str("zz"); b.uleb(d, 3); b.uleb(m, 3); b.uleb(l, 3); fd = d; fm = m; fl = l; break; }
      case 13: { uint64_t v = vp_any<uint16_t>("isa"); b.u8(12); b.uleb(v, 3); break; }      // DW_LNS_set_isa: skipped by its operand count
      case 14: b.u8(10); break;                                                              // prologue_end
      case 15: { b.u8(0); b.uleb(4, 1); b.u8(0x80 + vp_below(0x7f, "vendor")); b.u8(vp_any<uint8_t>("v0")); b.u8(vp_any<uint8_t>("v1")); b.u8(vp_any<uint8_t>("v2")); break; }  // unknown extended op
      case 16: { b.u8(0); b.uleb(1, 1); b.u8(DW_LNE_end_sequence); emit(true); s = SM(); break; }  // a new sequence starts from the initial registers
    }
  }
  uint64_t fd = 0, fm = 0, fl = 0;
};
void run(int version, int nops, bool d64, int addrsize, bool big) {
  static Gen g; Buf& b = g.b;
  b.big = big;
  g.minlen = vp_any<uint8_t>("min_insn_length"); g.lbase = vp_any<int8_t>("line_base");
  uint8_t lr = vp_any<uint8_t>("line_range"); vp_assume(lr != 0);
  uint8_t ob = vp_any<uint8_t>("opcode_base"); vp_assume(ob >= 10 && ob <= 13);
  ob = vp_concretize(ob);
  g.base = ob; g.range = lr;
  b.initlen(d64); b.u16(version);
  if (version == 5) { b.u8(addrsize); b.u8(0); }
  unsigned hl = b.n; b.off(0, d64); unsigned hs = b.n;
  b.u8(g.minlen); if (version >= 4) b.u8(1);
  b.u8(vp_below(2, "default_is_stmt")); b.u8((uint8_t)g.lbase); b.u8(lr); b.u8(ob);
  static const unsigned char lens[] = {0, 0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1};
  for (int i = 1; i < ob; i++) b.u8(lens[i]);
  unsigned d1 = 0, f1 = 0; uint64_t fdir = vp_any<uint16_t>("dirindex"), mt = vp_any<uint16_t>("mtime0"), fl = vp_any<uint32_t>("flen0");
  char c0 = vp_any<char>("dirchar"); vp_assume(c0 != 0); char c1 = vp_any<char>("filechar"); vp_assume(c1 != 0);
  Buf ls;   // .debug_line_str
  if (version < 5) {
    d1 = b.n; b.u8(c0); b.u8('d'); b.u8(0); b.u8(0);
    f1 = b.n; b.u8(c1); b.u8(0); b.uleb(fdir, 3); b.uleb(mt, 3); b.uleb(fl, 5); b.u8(0);
  } else {
    b.u8(1); b.uleb(DW_LNCT_path, 1); b.uleb(DW_FORM_string, 1); b.uleb(1, 1);
    d1 = b.n; b.u8(c0); b.u8('d'); b.u8(0);
    b.u8(2); b.uleb(DW_LNCT_path, 1); b.uleb(DW_FORM_line_strp, 1); b.uleb(DW_LNCT_directory_index, 1); 
    int fm = vp_choose(3, "dirform"); b.uleb(fm == 0 ? DW_FORM_udata : fm == 1 ? DW_FORM_data1 : DW_FORM_data2, 1);
    b.uleb(2, 1);
    ls.str("zero"); f1 = ls.n; ls.u8(c1); ls.u8(0);
    for (int i = 0; i < 2; i++) { b.off(i ? f1 : 0, d64); uint64_t v = i ? fdir : 0; if (fm == 0) b.uleb(v, 3); else if (fm == 1) { if (i) { vp_assume(fdir < 256); } b.u8(v); } else b.u16(v); }
    mt = 0; fl = 0;
  }
  b.patch(hl, b.n - hs, d64 ? 8 : 4);
  int maxop = ob > 12 ? 17 : 13;
  int nk[8];
  for (int i = 0; i < nops; i++) {
    int k = vp_choose(maxop, "op");
    if (ob > 12 || k != 13) {}
    g.op(k, addrsize, "op");
    nk[i] = k;
  }
  g.op(1, addrsize, "final copy");
  g.op(16, addrsize, "end");
  b.endlen(d64);
  unsigned endp = b.n;
  int nextlen = 5; for (int i = 0; i < nextlen; i++) b.u8(0xcc);
  ByteReader r(big ? ENDIANNESS_BIG : ENDIANNESS_LITTLE);
  r.SetAddressSize(addrsize);
  Rec h;
  LineInfo li(b.p(), b.n, ls.p(), ls.n, nullptr, 0, nullptr, 0, 0, &r, &h);
  uint64_t used = li.Start();
  vp_assert(!li.malformed(), "well-formed program accepted");
  vp_assert(used == endp, "consumes exactly the unit");
  vp_assert(h.cus == 1, "one StartCU");
  vp_assert(h.nd == 1 && h.dirs[0].num == (version < 5 ? 1 : 0) && h.dirs[0].name == b.p() + d1, "directory entry");
  if (version < 5) vp_assert(h.files[0].name == b.p() + f1 && h.files[0].num == 1, "file entry name");
  else vp_assert(h.nf >= 2 && h.files[0].num == 0 && !strcmp(h.files[0].name, "zero") && h.files[0].dir == 0 && h.files[1].name == ls.p() + f1 && h.files[1].num == 1, "file entry name");
  FileEnt& fe = h.files[version < 5 ? 0 : 1];
  vp_assert(fe.dir == fdir && fe.mtime == mt && fe.len == fl, "file entry fields");
  if (g.deffile) {
    vp_assert(h.nf >= (version < 5 ? 2 : 3), "define_file reported");
    FileEnt& x = h.files[h.nf - 1];
    vp_assert(x.name == g.deffile && x.num == -1 && x.dir == g.fd && x.mtime == g.fm && x.len == g.fl, "define_file fields");
    vp_reach("define_file");
  } else vp_assert(h.nf == (version < 5 ? 1 : 2), "file count");
  vp_assert(h.nr == g.nw, "number of rows");
  for (int i = 0; i < g.nw; i++) {
    vp_assert(h.rows[i].addr == g.want[i].addr, "row address");
    vp_assert(h.rows[i].line == g.want[i].line, "row line");
    vp_assert(h.rows[i].file == g.want[i].file, "row file");
    vp_assert(h.rows[i].col == g.want[i].col, "row column");
    vp_assert(h.rows[i].disc == g.want[i].disc, "row discriminator");
    vp_assert(h.rows[i].end == g.want[i].end, "row end_sequence");
    vp_observe("addr", h.rows[i].addr); vp_observe("line", h.rows[i].line); vp_observe("disc", h.rows[i].disc);
  }
  vp_reach("checked"); vp_must_reach("checked"); if (nops) vp_must_reach("define_file");
}
// DWARF 5 directory and file tables: every string form, index form and ignorable field, in either column order.
void v5header(bool d64, bool big) {
  static Buf b, ls, st, so; b.big = so.big = big;
  b.initlen(d64); b.u16(5); b.u8(8); b.u8(0); unsigned hl = b.n; b.off(0, d64); unsigned hs = b.n;
  b.u8(1); b.u8(1); b.u8(1); b.u8(-3); b.u8(12); b.u8(13);
  static const unsigned char lens[] = {0, 0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1};
  for (int i = 1; i < 13; i++) b.u8(lens[i]);
  char ch = vp_any<char>("char"); vp_assume(ch != 0);
  ls.str("padding"); st.str("pad");
  const uint64_t base = 8; so.un(0, 4); so.u16(5); so.u16(0);
  static const char* got[4]; int ng = 0;
  int soidx = 0;
  auto put = [&](int form, char c0) {   // writes one string, returns its address
    const char* at = nullptr;
    auto raw = [&](Buf& x) { unsigned o = x.n; x.u8(c0); x.u8('q'); x.u8(0); return o; };
    switch (form) {
      case 0: at = b.p() + raw(b); break;
      case 1: { unsigned o = raw(ls); at = ls.p() + o; b.off(o, d64); break; }
      case 2: { unsigned o = raw(st); at = st.p() + o; b.off(o, d64); break; }
      default: { while (soidx < 2) { so.off(0, d64); soidx++; } unsigned o = raw(st); at = st.p() + o; int idx = soidx++; so.off(o, d64);
        if (form == 3) b.u8(idx); else if (form == 4) b.u16(idx); else if (form == 5) b.un(idx, 3); else if (form == 6) b.u32(idx); else b.uleb(idx, 2); }
    }
    return at;
  };
  static const int forms[] = {DW_FORM_string, DW_FORM_line_strp, DW_FORM_strp, DW_FORM_strx1, DW_FORM_strx2, DW_FORM_strx3, DW_FORM_strx4, DW_FORM_strx};
  int df = vp_choose(8, "dir form"), ff = vp_choose(8, "file form"), xf = vp_choose(5, "index form"), extra = vp_choose(5, "extra column"), order = vp_choose(2, "order");
  static const int xforms[] = {DW_FORM_udata, DW_FORM_data1, DW_FORM_data2, DW_FORM_data4, DW_FORM_data8};
  int nd = vp_choose(3, "dirs"), nf = vp_choose(3, "files");
  const char *dn[2], *fnm[2]; uint64_t di[2];
  b.u8(1); b.uleb(DW_LNCT_path, 1); b.uleb(forms[df], 1); b.uleb(nd, 1);
  for (int i = 0; i < nd; i++) dn[i] = put(df, ch);
  int cols = 2 + (extra ? 1 : 0);
  b.u8(cols);
  auto fmt = [&](int c) { switch (c) {
    case 0: b.uleb(DW_LNCT_path, 1); b.uleb(forms[ff], 1); break;
    case 1: b.uleb(DW_LNCT_directory_index, 1); b.uleb(xforms[xf], 1); break;
    case 2: if (extra == 1) { b.uleb(5, 1); b.uleb(DW_FORM_data16, 1); } else if (extra == 2) { b.uleb(3, 1); b.uleb(DW_FORM_udata, 1); } else if (extra == 3) { b.uleb(4, 1); b.uleb(DW_FORM_data4, 1); } else { b.uleb(0x2001, 2); b.uleb(DW_FORM_line_strp, 1); } break; } };
  auto val = [&](int c, int i) { switch (c) {
    case 0: fnm[i] = put(ff, ch); break;
    case 1: { uint64_t v = vp_any<uint8_t>("dir index"); di[i] = v; switch (xf) { case 0: b.uleb(v, 2); break; case 1: b.u8(v); break; case 2: b.u16(v); break; case 3: b.u32(v); break; case 4: b.u64(v); } break; }
    case 2: if (extra == 1) { for (int k = 0; k < 16; k++) b.u8(vp_any<uint8_t>("md5")); } else if (extra == 2) b.uleb(vp_any<uint16_t>("mtime"), 3); else if (extra == 3) b.u32(vp_any<uint32_t>("size")); else b.off(0, d64); } };
  int seq[3] = {0, 1, 2}; if (order) { seq[0] = cols - 1; seq[cols - 1] = 0; }
  for (int i = 0; i < cols; i++) fmt(seq[i]);
  b.uleb(nf, 1);
  for (int i = 0; i < nf; i++) for (int k = 0; k < cols; k++) val(seq[k], i);
  b.patch(hl, b.n - hs, d64 ? 8 : 4);
  b.u8(DW_LNS_copy); b.u8(0); b.uleb(1, 1); b.u8(DW_LNE_end_sequence); b.endlen(d64);
  unsigned endp = b.n; for (int i = 0; i < 5; i++) b.u8(0xcc);
  ByteReader r(big ? ENDIANNESS_BIG : ENDIANNESS_LITTLE); r.SetAddressSize(8);
  static Rec h;
  LineInfo li(b.p(), b.n, ls.p(), ls.n, st.p(), st.n, so.p(), so.n, base, &r, &h);
  uint64_t used = li.Start();
  vp_assert(!li.malformed() && used == endp, "well-formed v5 header accepted");
  vp_assert(h.nd == nd && h.nf == nf && h.nr == 2, "table sizes");
  for (int i = 0; i < nd; i++) vp_assert(h.dirs[i].num == i && h.dirs[i].name == dn[i], "v5 directory entry");
  for (int i = 0; i < nf; i++) vp_assert(h.files[i].num == i && h.files[i].name == fnm[i] && h.files[i].dir == di[i], "v5 file entry");
  vp_reach("v5"); vp_must_reach("v5");
}
}
extern "C" void v5hdr() { v5header(vp_cfg() & 1, vp_cfg() & 2); }
// cfg: version*100 + variant*10 + nops
extern "C" void program() {
  int c = vp_cfg(); int var = c / 10 % 10;
  run(c / 100, c % 10, var & 1, (var & 2) ? 4 : 8, var & 4);
}

// Two-level line tables: logical rows (source positions with subprogram and inlining context) and actual rows (addresses) that name them.
namespace {
struct LR { uint64_t addr; uint32_t file, line, col, disc, ctx, sub; };
struct AR { uint64_t addr; uint32_t file, line, col, disc; uint64_t num; uint32_t ctx, sub; bool end; };
struct Rec2 : LineInfoHandler {
  LR l[12]; int nl = 0; AR a[12]; int na = 0, actuals = 0, nd = 0, nf = 0, ns = 0; bool okrows = true;
  struct { const char* n; uint64_t x, y, num; } d[3], f[3], s[3];
  void DefineDir(const char* n, uint32 k) override { d[nd++] = {n, 0, 0, k}; }
  void DefineFile(const char* n, int32 k, uint32 dir, uint64 m, uint64 len) override { f[nf++] = {n, dir, m | len, (uint64_t)k}; }
  void DefineSubprog(const char* n, uint32 k, uint32 file, uint32 line) override { s[ns++] = {n, file, line, k}; }
  void AddLogical(uint64 ad, uint32 fi, uint32 li, uint32 co, uint32 di, uint32 cx, uint32 su) override { l[nl++] = {ad, fi, li, co, di, cx, su}; okrows &= GetLogicals() && GetLogicals()->size() == nl && !actuals; }
  void StartActuals() override { actuals++; }
  void AddLine(uint64 ad, uint32 fi, uint32 li, uint32 co, uint32 di, bool e) override { a[na++] = {ad, fi, li, co, di, GetLogicalNum(), GetContext(), GetSubprog(), e}; okrows &= actuals == 1; }
};
}
extern "C" void twolevel() {
  int c = vp_cfg(); bool d64 = c & 1, big = c & 2; static Buf b, ls; b.big = big; int asz = c & 4 ? 4 : 8;
  for (int i = 0; i < 3; i++) b.u8(0x99);
  unsigned start = b.n; b.initlen(d64); b.u16(0xf006); unsigned hl = b.n; b.off(0, d64); unsigned hs = b.n;
  uint64_t minlen = vp_any<uint8_t>("min_insn_length"); int8_t lbase = vp_any<int8_t>("line_base"); int var = vp_choose(4, "header variant"); uint8_t lr = 1 + var * 5;
  b.u8(minlen); b.u8(1); b.u8(1); b.u8((uint8_t)lbase); b.u8(lr); b.u8(16);
  static const unsigned char lens[] = {0, 0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1, 2, 0}; for (int i = 1; i < 16; i++) b.u8(lens[i]);
  for (int i = 0; i < 7; i++) b.u8(i == 3 ? 5 : 0);    // empty version-4 tables and the extended opcode that hides the rest
  unsigned lo = b.n; b.off(0, d64); unsigned ao = b.n; b.off(0, d64);
  static const int sforms[] = {DW_FORM_string, DW_FORM_line_strp}, xforms[] = {DW_FORM_udata, DW_FORM_data1, DW_FORM_data2, DW_FORM_data4};
  int sf = var & 1, xf = var, order = var >> 1; ls.str("pad");
  auto put = [&](char ch) { Buf& x = sf ? ls : b; unsigned o = x.n; x.u8(ch); x.u8('q'); x.u8(0); if (sf) b.off(o, d64); return x.p() + o; };
  auto num = [&](uint64_t v) { if (xf == 0) b.uleb(v, 2); else b.un(v, xf == 1 ? 1 : xf == 2 ? 2 : 4); };
  const char *dn[2], *fnm[2], *sn[2]; uint64_t fd[2], sfile[2], sline[2];
  b.u8(1); b.uleb(DW_LNCT_path, 1); b.uleb(sforms[sf], 1); b.uleb(2, 1); for (int i = 0; i < 2; i++) dn[i] = put('d' + i);
  b.u8(2); for (int k = 0; k < 2; k++) if ((k ^ order) == 0) { b.uleb(DW_LNCT_path, 1); b.uleb(sforms[sf], 1); } else { b.uleb(DW_LNCT_directory_index, 1); b.uleb(xforms[xf], 1); }
  b.uleb(2, 1); for (int i = 0; i < 2; i++) { fd[i] = vp_any<uint8_t>("directory"); for (int k = 0; k < 2; k++) if ((k ^ order) == 0) fnm[i] = put('f' + i); else num(fd[i]); }
  b.u8(3); int col[3] = {0, 1, 2}; if (order) { col[0] = 2; col[2] = 0; }
  for (int k : col) { b.uleb(k == 0 ? DW_LNCT_subprogram_name : k == 1 ? DW_LNCT_decl_file : DW_LNCT_decl_line, 1); b.uleb(k == 0 ? sforms[sf] : xforms[xf], 1); }
  b.uleb(2, 1); for (int i = 0; i < 2; i++) { sfile[i] = vp_any<uint8_t>("decl file"); sline[i] = vp_any<uint8_t>("decl line"); for (int k : col) if (k == 0) sn[i] = put('s' + i); else num(k == 1 ? sfile[i] : sline[i]); }
  b.patch(lo, b.n - hs, d64 ? 8 : 4);
  LR L[12]; int nl = 0; LR r = {0, 1, 1, 0, 0, 0, 0}; uint64_t wide = 1;
  auto addr = [&] { uint64_t v = vp_any<uint64_t>("address"); if (asz == 4) v &= 0xffffffff; b.u8(0); b.uleb(1 + asz, 1); b.u8(DW_LNE_set_address); b.un(v, asz); return v; };
  auto row = [&] { r.line = (uint32_t)wide; L[nl++] = r; r.disc = 0; };
  int nops = 2 + c / 8;
  for (int i = 0; i < nops; i++) switch (vp_choose(i ? 10 : var & 1 ? 2 : 7, "logical op")) {
    case 0: { uint8_t o = 16 + vp_choose(2, "special") * 17; b.u8(o); r.addr += minlen * ((o - 16) / lr); wide += (int64_t)lbase + (o - 16) % lr; row(); break; }
    case 1: b.u8(DW_LNS_copy); row(); break;
    case 2: { int32_t v = vp_any<int32_t>("line"); b.u8(DW_LNS_advance_line); b.sleb(v, 5); wide += (int64_t)v; uint32_t f = vp_any<uint16_t>("file"); b.u8(DW_LNS_set_file); b.uleb(f, 3); r.file = f; break; }
    case 3: { uint32_t v = vp_any<uint32_t>("disc"); b.u8(0); b.uleb(6, 1); b.u8(DW_LNE_set_discriminator); b.uleb(v, 5); r.disc = v; uint32_t k = vp_any<uint16_t>("column"); b.u8(DW_LNS_set_column); b.uleb(k, 3); r.col = k; break; }
    case 4: r.addr = addr(); break;
    case 5: { uint32_t v = vp_any<uint16_t>("subprogram"); b.u8(DW_LNS_set_subprogram); b.uleb(v, 3); r.sub = v; r.ctx = 0; break; }
    case 6: { int v = -(int)vp_choose(3, "call row"); if (nl + v < 0) v = -nl; uint32_t k = vp_any<uint16_t>("callee"); b.u8(DW_LNS_inlined_call); b.sleb(v, 2); b.uleb(k, 3); r.ctx = nl + v; r.sub = k; break; }
    case 7: b.u8(DW_LNS_pop_context); if (r.ctx > 0 && r.ctx <= (uint32_t)nl) { LR& o = L[r.ctx - 1]; r.file = o.file; wide = o.line; r.col = o.col; r.disc = o.disc; r.ctx = o.ctx; r.sub = o.sub; } break;
    case 8: b.u8(0); b.uleb(1, 1); b.u8(DW_LNE_end_sequence); row(); r = {0, 1, 1, 0, 0, 0, 0}; wide = 1; break;
    case 9: { uint32_t v = vp_any<uint16_t>("pc"); b.u8(DW_LNS_advance_pc); b.uleb(v, 3); r.addr += minlen * v; break; }
  }
  b.u8(DW_LNS_copy); row();
  b.patch(ao, b.n - hs, d64 ? 8 : 4); b.patch(hl, b.n - hs, d64 ? 8 : 4);
  AR A[12]; int na = 0; uint64_t a = 0; int64_t n = 1;
  auto arow = [&](bool e) { if (n >= 1 && n <= nl) { LR& o = L[n - 1]; A[na++] = {a, o.file, o.line, o.col, o.disc, (uint64_t)n, o.ctx, o.sub, e}; } };
  for (int i = 0; i < 2; i++) switch (vp_choose(5, "actual op")) {
    case 0: { int v = (int)vp_choose(4, "logical") - 1; b.u8(DW_LNS_advance_line); b.sleb(v, 1); n += v; b.u8(DW_LNS_copy); arow(false); break; }
    case 1: { int v = (int)vp_choose(3, "logical") - 1; b.u8(13); b.sleb(v, 1); n += v; if (n >= 1 && n <= nl) a = L[n - 1].addr; b.u8(DW_LNS_copy); arow(false); break; }   // address taken from the logical row
    case 2: a = addr(); break;
    case 3: { uint32_t v = vp_any<uint16_t>("pc"); b.u8(DW_LNS_advance_pc); b.uleb(v, 3); a += minlen * v; b.u8(DW_LNS_copy); arow(false); break; }
    case 4: b.u8(0); b.uleb(1, 1); b.u8(DW_LNE_end_sequence); arow(true); a = 0; n = 1; break;
  }
  b.u8(0); b.uleb(1, 1); b.u8(DW_LNE_end_sequence); arow(true);
  b.endlen(d64, start); unsigned endp = b.n; for (int i = 0; i < 5; i++) b.u8(0xcc);
  vp_assert(b.n < 1000, "harness buffer");
  ByteReader rd(big ? ENDIANNESS_BIG : ENDIANNESS_LITTLE); rd.SetAddressSize(asz); static Rec2 h;
  LineInfo li(b.p() + start, b.n - start, ls.p(), ls.n, nullptr, 0, nullptr, 0, 0, &rd, &h);
  uint64_t used = li.Start(); vp_assert(!li.malformed() && used == endp - start, "well-formed table accepted"); vp_assert(li.have_two_level_line_tables(), "table kind");
  vp_assert(h.nd == 2 && h.nf == 2 && h.ns == 2, "table sizes");
  for (int i = 0; i < 2; i++) { vp_assert(h.d[i].n == dn[i] && h.d[i].num == i + 1u, "directory"); vp_assert(h.f[i].n == fnm[i] && h.f[i].num == i + 1u && h.f[i].x == fd[i], "file"); vp_assert(h.s[i].n == sn[i] && h.s[i].num == i + 1u && h.s[i].x == sfile[i] && h.s[i].y == sline[i], "subprogram"); }
  vp_assert(h.nl == nl && h.okrows && h.actuals == 1, "logical rows");
  for (int i = 0; i < nl; i++) { LR &x = h.l[i], &y = L[i]; vp_assert(x.addr == y.addr && x.file == y.file && x.line == y.line && x.col == y.col && x.disc == y.disc, "logical row"); vp_assert(x.ctx == y.ctx && x.sub == y.sub, "logical row's context and subprogram"); }
  vp_assert(h.na == na, "number of rows");
  for (int i = 0; i < na; i++) { AR &x = h.a[i], &y = A[i]; vp_assert(x.addr == y.addr && x.end == y.end, "row address"); vp_assert(x.file == y.file && x.line == y.line && x.col == y.col && x.disc == y.disc, "row position"); vp_assert(x.num == y.num && x.ctx == y.ctx && x.sub == y.sub, "row's logical line"); vp_observe("a", x.addr); }
  vp_assert(h.GetLogicals() == nullptr, "logical rows are released"); if (na > 1) vp_reach("rows"); vp_must_reach("rows");
}
