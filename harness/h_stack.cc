// D06: address -> inline stack, end to end from in-memory debug sections to the reported frames.
#include <filesystem>
#include <sys/stat.h>
#include "dw.h"
#include "addr2line.h"
#include "symbolize/elf_reader.h"
#include "symbolize/dwarf2enums.h"
#include "symbolize/dwarf2reader.h"
using namespace devtools_crosstool_autofdo;
namespace {
Buf infos[3], abbrs[3], line_, str_, rng, rl, ls, adr; int asize, ver, cur; uint64_t firstload;
#define info infos[cur]
#define abbr abbrs[cur]
struct SecDef { const char* n; Buf* b; };
// separate debug files: one per unit (u1.dwo, u2.dwo), and a package (x.dwp)
Buf dstr[3], dso[3], drl[3], pindex_, pinfo, pabbr, pso, pstr; bool hasdwo[3], isElf[3] = {true, true, true}; int pkg; // package index version, 0: none
int fileOf(const std::string& p) { return p == "x" ? 0 : p == "u1.dwo" ? 1 : p == "u2.dwo" ? 2 : 3; }
struct PSec { const char* n; Buf* b; }; PSec psec[16]; int npsec = 1;
}
extern "C" int stat(const char* p, struct stat*) { std::string s(p); int f = fileOf(s); if (f == 3) return s == "x.dwp" && pkg ? 0 : -1; return f && hasdwo[f] ? 0 : -1; }
namespace devtools_crosstool_autofdo {
// The container format is D08's subject: here sections come straight from memory.
ElfReader::ElfReader(const string& p) : path_(p), fd_(-1), impl32_(nullptr), impl64_(nullptr) {}
ElfReader::~ElfReader() {}
bool ElfReader::IsElf32File() const { int f = fileOf(path_); return asize == 4 && (f > 2 || isElf[f]); }
bool ElfReader::IsElf64File() const { int f = fileOf(path_); return asize == 8 && (f > 2 || isElf[f]); }
const char* ElfReader::GetSectionName(int i) { return psec[i].n; }
const char* ElfReader::GetSectionByIndex(int i, size_t* size) { *size = psec[i].b->n; return psec[i].b->p(); }
uint64 ElfReader::VaddrOfFirstLoadSegment() { return firstload; }
const char* ElfReader::GetSectionByName(const string& n, size_t* size) {
  int f = fileOf(path_);
  if (f) {
    SecDef d[] = {{".debug_info.dwo", f == 3 ? &pinfo : &infos[f]}, {".debug_abbrev.dwo", f == 3 ? &pabbr : &abbrs[f]}, {".debug_str.dwo", f == 3 ? &pstr : &dstr[f]}, {".debug_str_offsets.dwo", f == 3 ? &pso : &dso[f]}, {".debug_rnglists.dwo", f == 3 ? nullptr : &drl[f]}, {".debug_cu_index", f == 3 ? &pindex_ : nullptr}};
    for (auto& x : d) if (x.b && n == x.n && x.b->n) { *size = x.b->n; return x.b->p(); }
    return nullptr;
  }
  SecDef d[] = {{".debug_info", &infos[0]}, {".debug_abbrev", &abbrs[0]}, {".debug_addr", &adr}, {".debug_line", &line_}, {".debug_str", &str_}, {".debug_ranges", &rng}, {".debug_rnglists", &rl}, {".debug_line_str", &ls}};
  for (auto& x : d) if (n == x.n && x.b->n) { *size = x.b->n; return x.b->p(); }
  return nullptr;
}
}
namespace {
int nabbr;
struct D {  // one DIE being written: abbreviation and content side by side
  unsigned off;
  D(int tag, bool kids) { off = info.n; nabbr++; info.uleb(nabbr, 1); abbr.uleb(nabbr, 1); abbr.uleb(tag, 2); abbr.u8(kids); }
  D& at(int a, int form) { abbr.uleb(a, 2); abbr.uleb(form, 2); return *this; }
  D& str(int a, const char* s) { at(a, DW_FORM_string); info.str(s); return *this; }
  D& addr(int a, uint64_t v) { at(a, DW_FORM_addr); info.un(v, asize); return *this; }
  D& dat(int a, uint64_t v, int k) { at(a, k == 1 ? DW_FORM_data1 : k == 2 ? DW_FORM_data2 : k == 4 ? DW_FORM_data4 : DW_FORM_data8); info.un(v, k); return *this; }
  D& sec(int a, uint64_t v) { at(a, ver >= 4 ? DW_FORM_sec_offset : DW_FORM_data4); info.u32(v); return *this; }
  D& ref4(int a, uint64_t v) { at(a, DW_FORM_ref4); info.u32(v); return *this; }
  D& refaddr(int a, uint64_t v) { at(a, DW_FORM_ref_addr); info.un(v, ver == 2 ? asize : 4); return *this; }
  void end() { abbr.u8(0); abbr.u8(0); }
};
struct Range { uint64_t lo, hi; };
bool in(Range r, uint64_t q) { return (r.lo <= q) & (q < r.hi); }
struct Ext { Range r[2]; int n = 0; };
bool in(const Ext& e, uint64_t q) { return (e.n > 0 && in(e.r[0], q)) || (e.n > 1 && in(e.r[1], q)); }
uint64_t anyaddr(const char* n) { return asize == 8 ? vp_any<uint64_t>(n) : vp_any<uint32_t>(n); }
// extents as low/high (address or offset form) or a range list
void wext(D& d, const Ext& e, int mode) {
  if (e.n == 1 && mode == 0) { d.addr(DW_AT_low_pc, e.r[0].lo).addr(DW_AT_high_pc, e.r[0].hi); return; }
  if (e.n == 1 && mode == 1 && asize == 8 && ver >= 4) { d.addr(DW_AT_low_pc, e.r[0].lo).dat(DW_AT_high_pc, e.r[0].hi - e.r[0].lo, asize); return; }
  if (ver < 5) { d.sec(DW_AT_ranges, rng.n); for (int i = 0; i < e.n; i++) { rng.un(e.r[i].lo, asize); rng.un(e.r[i].hi, asize); } rng.un(0, asize); rng.un(0, asize); }
  else { d.sec(DW_AT_ranges, rl.n); for (int i = 0; i < e.n; i++) { rl.u8(6); rl.un(e.r[i].lo, asize); rl.un(e.r[i].hi, asize); } rl.u8(0); }
}
struct Row { uint64_t a; int file; int32_t dl; uint32_t line, disc; bool end; };
bool lsp;   // names of the line table live in .debug_line_str
void program(const Row* r, int n) {
  unsigned s = line_.n; line_.initlen(false); line_.u16(ver); if (ver == 5) { line_.u8(asize); line_.u8(0); }
  unsigned hl = line_.n; line_.u32(0); unsigned hs = line_.n;
  line_.u8(1); if (ver >= 4) line_.u8(1); line_.u8(1); line_.u8(-3); line_.u8(12); line_.u8(13);
  static const unsigned char lens[] = {0, 0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1}; for (int i = 1; i < 13; i++) line_.u8(lens[i]);
  if (ver < 5) { line_.str("/inc"); line_.str("sub"); line_.u8(0);
    line_.str("a.c"); line_.uleb(0, 1); line_.u8(0); line_.u8(0); line_.str("h.h"); line_.uleb(1, 1); line_.u8(0); line_.u8(0); line_.str("s.h"); line_.uleb(2, 1); line_.u8(0); line_.u8(0); line_.u8(0); }
  else { auto name = [](const char* t) { if (!lsp) line_.str(t); else { unsigned o = ls.n; ls.str(t); line_.u32(o); } }; int form = lsp ? DW_FORM_line_strp : DW_FORM_string;
    line_.u8(1); line_.uleb(DW_LNCT_path, 1); line_.uleb(form, 1); line_.uleb(3, 1); name("/c"); name("/inc"); name("sub");
    line_.u8(2); line_.uleb(DW_LNCT_path, 1); line_.uleb(form, 1); line_.uleb(DW_LNCT_directory_index, 1); line_.uleb(DW_FORM_udata, 1); line_.uleb(4, 1);
    name("a.c"); line_.u8(0); name("a.c"); line_.u8(0); name("h.h"); line_.u8(1); name("s.h"); line_.u8(2); }
  line_.patch(hl, line_.n - hs, 4);
  for (int i = 0; i < n; i++) {
    line_.u8(0); line_.uleb(1 + asize, 1); line_.u8(DW_LNE_set_address); line_.un(r[i].a, asize);
    if (r[i].end) { line_.u8(0); line_.u8(1); line_.u8(DW_LNE_end_sequence); continue; }
    line_.u8(DW_LNS_set_file); line_.uleb(r[i].file, 1);
    line_.u8(DW_LNS_advance_line); line_.sleb(r[i].dl, 5);
    line_.u8(0); line_.uleb(6, 1); line_.u8(DW_LNE_set_discriminator); line_.uleb(r[i].disc, 5);
    line_.u8(DW_LNS_copy);
  }
  line_.endlen(false, s);
}
// file index -> expected directory and name (compilation directory /c)
const char* dirOf(int f) { if (f == 0) return ver >= 5 ? "/c" : ""; return f == 1 ? (ver >= 5 ? "/c" : "/c/") : f == 2 ? "/inc" : "/c/sub"; }
const char* nameOf(int f) { return f == 0 || f == 1 ? "a.c" : f == 2 ? "h.h" : "s.h"; }
const char* compdir = "/c";
struct Frame { const char* fn; int file; uint32_t start, line, disc; };
void check(Addr2line* a, uint64_t q, const Frame* f, int n) {
  SourceStack st; a->GetInlineStack(q, &st);
  vp_assert((int)st.size() == n, "stack depth");
  for (int i = 0; i < n; i++) {
    const SourceInfo& s = st[i];
    if (!f[i].fn) vp_assert(s.func_name == nullptr, "no function covers the address");
    else vp_assert(s.func_name && !strcmp(s.func_name, f[i].fn), "function name");
    vp_assert(s.start_line == f[i].start, "function start line");
    vp_assert(s.line == f[i].line, "line");
    vp_assert(s.discriminator == f[i].disc, "discriminator");
    vp_assert(s.file_name == nameOf(f[i].file), "file name");
    if (f[i].fn) vp_assert(s.dir_name == dirOf(f[i].file), "directory");
    else vp_assert(s.dir_name == (f[i].file == 1 ? (ver >= 5 ? "/c" : "") : f[i].file == 2 ? "/inc" : "sub"), "directory (no unit known)");
  }
  vp_observe("depth", n); if (n) { vp_observe("line", f[0].line); vp_reach(n > 2 ? "nested inline" : n > 1 ? "inline" : f[0].fn ? "plain" : "no function"); }
}
struct Call { int file; uint32_t line, disc; };
int disc, var;
int pick(int n, int quick, const char* what) { return vp_tier() ? (int)vp_choose(n, what) : quick % n; }   // quick: six combined variants; thorough: the full product
Call call(D& d, int lf) {
  Call c; c.file = lf == 1 ? 1 + pick(3, var, "call file") : lf == 2 ? 3 : 2; c.disc = 0;
  c.line = lf == 1 ? vp_any<uint8_t>("call line") : lf == 2 ? vp_any<uint16_t>("call line") : vp_any<uint32_t>("call line");
  if (lf == 8) vp_assume(c.line < 0x80000000u);
  d.dat(DW_AT_call_file, c.file, 1);
  d.dat(DW_AT_call_line, c.line, lf == 8 ? 4 : lf);
  if (disc) { c.disc = vp_any<uint16_t>("call disc"); d.dat(DW_AT_GNU_discriminator, c.disc, 2); }
  return c;
}
}
extern "C" void stack() {
  // cfg: version*100 + (4-byte addresses)*10 + shape
  ver = vp_cfg() / 100; asize = vp_cfg() / 10 % 10 ? 4 : 8; int shape = vp_cfg() % 10;
  firstload = anyaddr("first load");
  // extents: M holds I1 (holds I2) and I3; A is also emitted out of line
  Ext M, I1, I2, I3, A;
  auto one = [](Ext& e, const char* n) { e.n = 1; e.r[0].lo = anyaddr(n); e.r[0].hi = anyaddr(n); vp_assume(e.r[0].lo < e.r[0].hi); };
  one(M, "M"); one(I1, "I1"); one(A, "A"); vp_assume(firstload <= M.r[0].lo && M.r[0].lo != 0);
  if (shape == 0) { I1.n = 2; I1.r[1].lo = anyaddr("I1b"); I1.r[1].hi = anyaddr("I1b"); vp_assume(I1.r[0].hi < I1.r[1].lo && I1.r[1].lo < I1.r[1].hi); }
  vp_assume(M.r[0].lo <= I1.r[0].lo && I1.r[I1.n - 1].hi <= M.r[0].hi);
  bool has2 = shape <= 1, has3 = shape == 2;
  if (has2) { one(I2, "I2"); vp_assume(I1.r[0].lo <= I2.r[0].lo && I2.r[0].hi <= I1.r[0].hi); }
  if (has3) { one(I3, "I3"); vp_assume(I1.r[0].hi <= I3.r[0].lo && I3.r[0].hi <= M.r[0].hi); }
  if (shape == 2) { M.n = 2; M.r[1].lo = anyaddr("Mb"); M.r[1].hi = anyaddr("Mb"); vp_assume(M.r[1].lo < M.r[1].hi && firstload <= M.r[1].lo && (M.r[1].hi < M.r[0].lo || M.r[0].hi < M.r[1].lo) && M.r[1].lo != 0); }
  vp_assume(A.r[0].lo >= firstload && A.r[0].lo != 0 && (A.r[0].hi <= M.r[0].lo || M.r[0].hi <= A.r[0].lo));
  if (M.n == 2) vp_assume(A.r[0].hi <= M.r[1].lo || M.r[1].hi <= A.r[0].lo);
  // line rows, unrelated to the extents
  int nr = 3 + vp_tier(); Row r[5]; uint64_t prev = 0; uint32_t line = 1;
  for (int i = 0; i < nr; i++) { r[i].a = anyaddr("row"); r[i].end = i == nr - 1; vp_assume(i ? r[i].a >= prev : true); if (i) vp_assume(r[i].a >= firstload); prev = r[i].a; r[i].file = 1 + i % 3; r[i].disc = vp_any<uint16_t>("row disc"); r[i].dl = vp_any<int32_t>("line advance"); r[i].line = line = line + (uint32_t)r[i].dl; }
  program(r, nr);
  // unit
  if (ver == 5) { rl.u32(0); rl.u16(5); rl.u8(asize); rl.u8(0); rl.u32(1); rl.u32(4); rl.u8(0); }
  unsigned cu = info.n; info.initlen(false); info.u16(ver); if (ver == 5) { info.u8(DW_UT_compile); info.u8(asize); info.u32(0); } else { info.u32(0); info.u8(asize); }
  { D d(DW_TAG_compile_unit, true); d.str(DW_AT_name, "a.c").str(DW_AT_comp_dir, "/c").sec(DW_AT_stmt_list, 0).addr(DW_AT_low_pc, 0).end(); }
  // names and declaration lines come from the entry itself, or from what it specifies
  uint32_t la = vp_any<uint16_t>("decl A"), lb = vp_any<uint16_t>("decl B"), lm = vp_any<uint16_t>("decl M"), ld = vp_any<uint16_t>("decl D"); vp_assume(la && lb && lm && ld);
  var = vp_tier() ? 0 : vp_choose(6, "variant"); int na = pick(3, var, "naming of A"); unsigned da = 0; const char* an = na == 0 ? "a" : "_Za"; uint32_t sa = la;
  if (na == 2) { D c(DW_TAG_structure_type, true); c.str(DW_AT_name, "S").end(); D d(DW_TAG_subprogram, false); da = d.off; d.str(DW_AT_name, "a").dat(DW_AT_decl_line, ld, 2).str(DW_AT_linkage_name, "_Za").end(); info.u8(0); }
  D a(DW_TAG_subprogram, true);
  if (na == 2) { a.ref4(DW_AT_specification, da - cu); if (vp_choose(2, "own line")) a.dat(DW_AT_decl_line, la, 2); else sa = ld; }
  else { if (na == 1) a.str(DW_AT_linkage_name, "_Za"); a.str(DW_AT_name, "a").dat(DW_AT_decl_line, la, 2); }
  a.dat(DW_AT_inline, 1, 1).end(); { D p(DW_TAG_formal_parameter, false); p.str(DW_AT_name, "p").end(); } info.u8(0);
  D b(DW_TAG_subprogram, false); b.str(DW_AT_name, "b").dat(DW_AT_decl_line, lb, 2).dat(DW_AT_inline, 1, 1).end();
  D m(DW_TAG_subprogram, true); m.str(DW_AT_name, "m"); m.dat(DW_AT_decl_line, lm, 2); int mode = shape ? pick(3, var + var / 3, "extent form") : 0; wext(m, M, mode); m.end();
  int blk = pick(2, var, "lexical block"); disc = pick(2, var / 2, "call discriminators"); if (blk) { D l(DW_TAG_lexical_block, true); l.addr(DW_AT_low_pc, M.r[0].lo).addr(DW_AT_high_pc, M.r[0].hi).end(); }
  Call c1, c2 = {}, c3 = {};
  { D d(DW_TAG_inlined_subroutine, has2); d.ref4(DW_AT_abstract_origin, a.off - cu); wext(d, I1, (mode + 1) % 3); c1 = call(d, 1); d.end(); }
  if (has2) { D d(DW_TAG_inlined_subroutine, false); if (ver >= 3 && mode == 0) d.refaddr(DW_AT_abstract_origin, b.off); else d.ref4(DW_AT_abstract_origin, b.off - cu); wext(d, I2, (mode + 2) % 3); c2 = call(d, 2); d.end(); info.u8(0); }
  if (has3) { D d(DW_TAG_inlined_subroutine, false); d.ref4(DW_AT_abstract_origin, b.off - cu); wext(d, I3, mode); c3 = call(d, 4); d.end(); }
  if (blk) info.u8(0);
  info.u8(0);
  { D d(DW_TAG_subprogram, false); d.ref4(DW_AT_abstract_origin, a.off - cu); wext(d, A, mode); d.end(); }
  info.u8(0); info.endlen(false, cu); abbr.u8(0); if (ver == 5) rl.endlen(false);
  vp_assert(info.n < 1000 && line_.n < 1000, "harness buffers");
  Addr2line* al = Addr2line::Create("x");
  vp_assert(al != nullptr, "binary accepted");
  uint64_t q = anyaddr("query");
  Frame f[4]; int n = 0; int row = -1;
  for (int i = 0; i < nr; i++) if (r[i].a <= q && r[i].a >= firstload) row = i;
  row = (int)vp_concretize(row + 1) - 1;
  if (row >= 0 && !r[row].end && r[row].line != 0) {
    if (has2 && in(I2, q)) { f[n++] = {"b", r[row].file, lb, r[row].line, r[row].disc}; f[n++] = {an, c2.file, sa, c2.line, c2.disc}; f[n++] = {"m", c1.file, lm, c1.line, c1.disc}; }
    else if (in(I1, q)) { f[n++] = {an, r[row].file, sa, r[row].line, r[row].disc}; f[n++] = {"m", c1.file, lm, c1.line, c1.disc}; }
    else if (has3 && in(I3, q)) { f[n++] = {"b", r[row].file, lb, r[row].line, r[row].disc}; f[n++] = {"m", c3.file, lm, c3.line, c3.disc}; }
    else if (in(M, q)) f[n++] = {"m", r[row].file, lm, r[row].line, r[row].disc};
    else if (in(A, q)) f[n++] = {an, r[row].file, sa, r[row].line, r[row].disc};
    else f[n++] = {nullptr, r[row].file, 0, r[row].line, r[row].disc};
  }
  check(al, q, f, n);
  vp_must_reach("inline"); vp_must_reach("plain"); vp_must_reach("no function");
}

namespace {
unsigned unit(const char* dir, unsigned stmt, uint64_t base, bool rlbase = false) {
  unsigned cu = info.n; info.initlen(false); info.u16(ver); if (ver == 5) { info.u8(DW_UT_compile); info.u8(asize); info.u32(abbr.n); } else { info.u32(abbr.n); info.u8(asize); }
  nabbr = 0;
  D d(DW_TAG_compile_unit, true); d.str(DW_AT_name, "a.c").str(DW_AT_comp_dir, dir).sec(DW_AT_stmt_list, stmt).addr(DW_AT_low_pc, base); if (rlbase) d.sec(DW_AT_rnglists_base, 12); d.end();
  return cu;
}
void endunit(unsigned cu) { info.u8(0); info.endlen(false, cu); abbr.u8(0); }
}
// Two units: own bases, own line programs and directories, an inline entry whose origin lives in the other unit, incomplete call coordinates.
extern "C" void twounits() {
  ver = vp_cfg() / 100; asize = vp_cfg() / 10 % 10 ? 4 : 8; int shape = vp_cfg() % 10;
  firstload = 1;
  uint64_t b1, b2, f1, f1e, f2, f2e, i2, i2e;
  if (shape & 4) {   // symbolic bases, fixed offsets
    b1 = vp_any<uint32_t>("base1"); b2 = vp_any<uint32_t>("base2"); vp_assume(b1 && b2);
    static const uint8_t o[2][6] = {{0, 16, 0, 64, 0, 64}, {3, 200, 10, 90, 20, 30}}; const uint8_t* c = o[vp_choose(2, "offsets")];
    f1 = c[0]; f1e = c[1]; f2 = c[2]; f2e = c[3]; i2 = c[4]; i2e = c[5];
  } else {           // symbolic offsets, fixed bases
    bool sw = vp_choose(2, "order"); b1 = 0x401000; b2 = 0x7fff0100; if (sw) { uint64_t t = b1; b1 = b2; b2 = t; }
    f1 = vp_any<uint8_t>("f1"); f1e = vp_any<uint8_t>("f1e"); f2 = vp_any<uint8_t>("f2"); f2e = vp_any<uint8_t>("f2e"); i2 = vp_any<uint8_t>("i2"); i2e = vp_any<uint8_t>("i2e");
  }
  vp_assume(f1 < f1e && f2 <= i2 && i2 < i2e && i2e <= f2e);
  uint64_t top = asize == 8 ? ~0ull : 0xffffffffull;
  vp_assume(b1 <= top - 512 && b2 <= top - 512 && (b1 + 256 <= b2 || b2 + 256 <= b1));
  uint64_t r1 = anyaddr("row1"), r1e = anyaddr("row1 end"), r2 = anyaddr("row2"), r2e = anyaddr("row2 end"); vp_assume(r1 && r2 && r1 < r1e && r2 < r2e && (r1e < r2 || r2e < r1));
  int32_t dl1 = vp_any<int32_t>("line1"), dl2 = vp_any<int32_t>("line2");
  Row p1[2] = {{r1, 2, dl1, 1 + (uint32_t)dl1, 7, false}, {r1e, 0, 0, 0, 0, true}}, p2[2] = {{r2, 3, dl2, 1 + (uint32_t)dl2, 9, false}, {r2e, 0, 0, 0, 0, true}};
  program(p1, 2); unsigned l2 = line_.n; program(p2, 2);
  if (ver == 5) { rl.u32(0); rl.u16(5); rl.u8(asize); rl.u8(0); rl.u32(2); rl.u32(8); rl.u32(8 + 9 + (asize - 4) * 0 + 2 * 9 - 18 + 0); }
  unsigned idx = 12 + 8, len = 0;   // two range lists
  auto list = [&](uint64_t lo, uint64_t hi) { if (ver == 5) { unsigned o = rl.n; rl.u8(4); rl.uleb(lo, 2); rl.uleb(hi, 2); rl.u8(0); len = rl.n - o; return o; } unsigned o = rng.n; rng.un(lo, asize); rng.un(hi, asize); rng.un(0, asize); rng.un(0, asize); return o; };
  unsigned o1 = list(f1, f1e), o2 = list(f2, f2e);
  if (ver == 5) rl.patch(12 + 4, 8 + len, 4);
  uint16_t la = vp_any<uint16_t>("decl A"), lm = vp_any<uint16_t>("decl F1"), ln = vp_any<uint16_t>("decl F2"); vp_assume(la && lm && ln);
  unsigned c1 = unit("/c", 0, b1, ver == 5);
  D a(DW_TAG_subprogram, false); a.str(DW_AT_name, "a").dat(DW_AT_decl_line, la, 2).dat(DW_AT_inline, 1, 1).end();
  D x(DW_TAG_subprogram, false); x.str(DW_AT_name, "f1").dat(DW_AT_decl_line, lm, 2); if (ver == 5 && (shape & 1)) { x.at(DW_AT_ranges, DW_FORM_rnglistx); info.u8(0); } else x.sec(DW_AT_ranges, o1); x.end(); endunit(c1);
  unsigned c2 = unit("/d", l2, b2, ver == 5);
  D y(DW_TAG_subprogram, true); y.str(DW_AT_name, "f2"); if (ver == 5) { y.at(DW_AT_decl_line, DW_FORM_implicit_const); abbr.sleb(ln, 3); } else y.dat(DW_AT_decl_line, ln, 2); if (ver == 5 && (shape & 1)) { y.at(DW_AT_ranges, DW_FORM_rnglistx); info.u8(1); } else y.sec(DW_AT_ranges, o2); y.end();
  uint32_t cl = vp_any<uint16_t>("call line"); int cf = -1;
  { D d(DW_TAG_inlined_subroutine, false); d.refaddr(DW_AT_abstract_origin, a.off).addr(DW_AT_low_pc, b2 + i2).dat(DW_AT_high_pc, i2e - i2, 2);
    if (shape & 2) { cf = 3; if (ver == 5) { d.at(DW_AT_call_file, DW_FORM_implicit_const); abbr.sleb(3, 1); d.at(DW_AT_call_line, DW_FORM_implicit_const); abbr.sleb(cl, 3); } else d.dat(DW_AT_call_file, 3, 1).dat(DW_AT_call_line, cl, 2); }
    else cl = 0;   // no call coordinates at all
    d.end(); }
  info.u8(0); endunit(c2);
  if (ver == 5) rl.endlen(false);
  Addr2line* al = Addr2line::Create("x");
  uint64_t q = anyaddr("query");
  SourceStack st; al->GetInlineStack(q, &st);
  int row = r1 <= q && q < r1e ? 1 : r2 <= q && q < r2e ? 2 : 0;
  uint32_t line = row == 1 ? 1 + (uint32_t)dl1 : row == 2 ? 1 + (uint32_t)dl2 : 0;
  bool infn1 = b1 + f1 <= q && q < b1 + f1e, infn2 = b2 + f2 <= q && q < b2 + f2e, ini = b2 + i2 <= q && q < b2 + i2e;
  if (!row || !line) { vp_assert(st.empty(), "no line for the address"); return; }
  vp_assert(st.size() == (ini ? 2 : 1), "stack depth");
  vp_assert(st[0].line == line && st[0].discriminator == (row == 1 ? 7 : 9) && st[0].file_name == (row == 1 ? "h.h" : "s.h"), "innermost position");
  const char* want = ini ? "a" : infn2 ? "f2" : infn1 ? "f1" : nullptr;
  if (!want) { vp_assert(!st[0].func_name, "no function"); return; }
  vp_assert(st[0].func_name && !strcmp(st[0].func_name, want), "function"); vp_assert(st[0].start_line == (ini ? la : infn2 ? ln : lm), "start line");
  vp_assert(st[0].dir_name == (row == 1 ? "/inc" : infn1 ? "/c/sub" : "/d/sub"), "directory of the function's unit");
  if (ini) { vp_assert(!strcmp(st[1].func_name, "f2") && st[1].start_line == ln && st[1].line == cl && st[1].discriminator == 0, "caller");
    if (cf > 0) vp_assert(st[1].file_name == "s.h" && st[1].dir_name == "/d/sub", "caller position");
    vp_reach("cross-unit inline"); }
  vp_must_reach("cross-unit inline");
}
// Stale entries: functions below the image, functions spanning another one's start, duplicates, inline entries outside their parent.
extern "C" void stale() {
  ver = vp_cfg() / 100; asize = 8; int n = 2 + vp_cfg() % 10;
  firstload = anyaddr("first load");
  Range f[4], ch; for (int i = 0; i < n; i++) { f[i].lo = anyaddr("lo"); f[i].hi = anyaddr("hi"); vp_assume(f[i].lo < f[i].hi && f[i].lo != 0); }
  ch.lo = anyaddr("inline lo"); ch.hi = anyaddr("inline hi"); vp_assume(ch.lo < ch.hi);
  Row r[2] = {{firstload, 1, 4, 5, 0, false}, {~0ull, 0, 0, 0, 0, true}};
  program(r, 2); int host = vp_choose(n, "host");
  unsigned cu = unit("/c", 0, 0);
  D a(DW_TAG_subprogram, false); a.str(DW_AT_name, "a").dat(DW_AT_decl_line, 3, 1).end();
  static const char* nm[] = {"f0", "f1", "f2", "f3"};
  for (int i = 0; i < n; i++) {
    D d(DW_TAG_subprogram, i == host); d.str(DW_AT_name, nm[i]).dat(DW_AT_decl_line, 10 + i, 1).addr(DW_AT_low_pc, f[i].lo).addr(DW_AT_high_pc, f[i].hi).end();
    if (i == host) { D e(DW_TAG_inlined_subroutine, false); e.ref4(DW_AT_abstract_origin, a.off - cu).addr(DW_AT_low_pc, ch.lo).addr(DW_AT_high_pc, ch.hi).dat(DW_AT_call_file, 1, 1).dat(DW_AT_call_line, 20, 1).end(); info.u8(0); }
  }
  endunit(cu);
  Addr2line* al = Addr2line::Create("x");
  uint64_t q = anyaddr("query"); vp_assume(q >= firstload && q != ~0ull);
  SourceStack st; al->GetInlineStack(q, &st);
  bool ok[4];
  for (int i = 0; i < n; i++) { ok[i] = f[i].lo >= firstload; for (int j = 0; j < n; j++) if (f[j].lo >= firstload && f[i].lo < f[j].lo && f[j].lo < f[i].hi) ok[i] = false; }
  const char* want = nullptr; int w = -1;
  for (int i = 0; i < n; i++) if (ok[i] && in(f[i], q)) {   // the largest of those sharing a start, the first when equal
    if (w < 0 || f[i].hi > f[w].hi) w = i; }
  bool keep = ok[host];
  for (int i = 0; i < n; i++) if (i != host && ok[i] && f[i].lo == f[host].lo && (f[i].hi > f[host].hi || (f[i].hi == f[host].hi && i < host))) keep = false;
  bool inl = keep && f[host].lo <= ch.lo && ch.hi <= f[host].hi && ch.lo >= firstload && in(ch, q);
  vp_assert(st.size() == (inl ? 2 : 1), "stack depth");
  if (inl) vp_assert(!strcmp(st[0].func_name, "a") && !strcmp(st[1].func_name, nm[host]), "inline frames");
  else if (w < 0) vp_assert(!st[0].func_name, "no valid function covers the address");
  else vp_assert(st[0].func_name && !strcmp(st[0].func_name, nm[w]) && st[0].start_line == 10 + w, "valid function found");
  if (inl) vp_reach("inlined"); if (w < 0) vp_reach("none"); vp_must_reach("inlined"); vp_must_reach("none");
}

// Functions of two extents: one extent below the image, or over another function's start, makes the whole entry stale, and it no longer matters for the others.
extern "C" void stale2() {
  ver = vp_cfg() / 100; asize = 8; bool first = vp_cfg() & 1; firstload = anyaddr("first load");
  Ext e; e.n = 2; for (int i = 0; i < 2; i++) { e.r[i].lo = anyaddr("lo"); e.r[i].hi = anyaddr("hi"); vp_assume(e.r[i].lo < e.r[i].hi && e.r[i].lo != 0); } vp_assume(e.r[0].hi < e.r[1].lo);
  Ext g; g.n = 1; g.r[0].lo = anyaddr("other lo"); g.r[0].hi = anyaddr("other hi"); vp_assume(g.r[0].lo < g.r[0].hi && g.r[0].lo >= firstload && g.r[0].lo != 0);
  Row r[2] = {{firstload, 1, 4, 5, 0, false}, {~0ull, 0, 0, 0, 0, true}}; program(r, 2);
  if (ver == 5) { rl.u32(0); rl.u16(5); rl.u8(asize); rl.u8(0); rl.u32(1); rl.u32(4); rl.u8(0); }
  unsigned cu = info.n; info.initlen(false); info.u16(ver); if (ver == 5) { info.u8(DW_UT_compile); info.u8(asize); info.u32(0); } else { info.u32(0); info.u8(asize); }
  { D d(DW_TAG_compile_unit, true); d.str(DW_AT_name, "a.c").str(DW_AT_comp_dir, "/c").sec(DW_AT_stmt_list, 0).addr(DW_AT_low_pc, 0).end(); }
  for (int k = 0; k < 2; k++) { D d(DW_TAG_subprogram, false); bool two = (k == 0) == first; d.str(DW_AT_name, two ? "e" : "g").dat(DW_AT_decl_line, two ? 10 : 20, 1); wext(d, two ? e : g, 0); d.end(); }
  info.u8(0); info.endlen(false, cu); abbr.u8(0); if (ver == 5) rl.endlen(false);
  Addr2line* al = Addr2line::Create("x"); uint64_t q = anyaddr("query"); vp_assume(q >= firstload && q != ~0ull); SourceStack st; al->GetInlineStack(q, &st);
  bool low = e.r[0].lo < firstload, oke = !low, okg = true;
  if (!low) { for (int i = 0; i < 2; i++) { if (e.r[i].lo < g.r[0].lo && g.r[0].lo < e.r[i].hi) oke = false; if (g.r[0].lo < e.r[i].lo && e.r[i].lo < g.r[0].hi) okg = false; vp_assume(e.r[i].lo != g.r[0].lo); } }
  bool ie = oke && (in(e.r[0], q) || in(e.r[1], q)), ig = okg && in(g.r[0], q); vp_assert(st.size() == 1, "stack depth"); if (st.empty()) return;
  const char* want = ie ? "e" : ig ? "g" : nullptr; vp_assume(!(ie && ig));
  if (!want) vp_assert(!st[0].func_name, "no valid function covers the address"); else vp_assert(st[0].func_name && !strcmp(st[0].func_name, want) && st[0].start_line == (ie ? 10u : 20u), "valid function found");
  vp_reach(want ? "found" : "none"); vp_must_reach("found"); vp_must_reach("none"); vp_observe("low", low);
}

// Binaries with line tables only: positions without functions, from every table of the section.
extern "C" void lineonly() {
  // cfg: version*100 + (4-byte addresses)*10 + names in the line string section
  ver = vp_cfg() / 100; asize = vp_cfg() / 10 % 10 ? 4 : 8; lsp = vp_cfg() % 10; ls.str("zz"); firstload = vp_choose(2, "first load") ? 0x1000 : 0;
  Row p[2][4]; int nr = 3 + vp_tier();
  for (int u = 0; u < 2; u++) { uint32_t line = 1; for (int i = 0; i < nr; i++) { Row& r = p[u][i]; r.a = anyaddr("row"); vp_assume(r.a >= (i ? p[u][i - 1].a : 0x1000)); r.end = i == nr - 1; r.file = 1 + (i + u) % 3; r.disc = vp_any<uint16_t>("row disc"); r.dl = vp_any<int32_t>("line advance"); r.line = line = line + (uint32_t)r.dl; } program(p[u], nr); }
  vp_assume(p[0][nr - 1].a < p[1][0].a || p[1][nr - 1].a < p[0][0].a); vp_assert(line_.n < 1000, "harness buffers");
  Addr2line* al = Addr2line::Create("x"); vp_assert(al != nullptr, "binary accepted");
  uint64_t q = anyaddr("query"); Row* w = nullptr; int idx = 0;
  for (int u = 0; u < 2; u++) for (int i = 0; i < nr; i++) { Row& r = p[u][i]; if ((r.a <= q) & (!r.end) & (q < p[u][nr - 1].a)) idx = 1 + u * nr + i; }
  idx = (int)vp_concretize(idx); if (idx) w = &p[(idx - 1) / nr][(idx - 1) % nr];
  Frame f; int n = 0; if (w && w->line) f = {nullptr, w->file, 0, w->line, w->disc}, n = 1;
  check(al, q, &f, n); vp_reach(idx > nr ? "second table" : idx ? "first table" : "outside"); vp_must_reach("first table"); vp_must_reach("second table"); vp_must_reach("outside");
}
// Separate debug files: a skeleton names its file and identifier; the full unit comes from the package when it lists the identifier, else from the named file, and only if the identifier matches there.
namespace {
struct U { uint64_t id, lo, hi, ilo, ihi; uint16_t la, lm, cl; unsigned ab, rb; bool split, found; };
D& addrx(D& d, int a, int i) { d.at(a, ver == 5 ? DW_FORM_addrx : DW_FORM_GNU_addr_index); info.uleb(i, 1); return d; }
D& strx(D& d, int a, int i) { d.at(a, ver == 5 ? DW_FORM_strx1 : DW_FORM_GNU_str_index); info.u8(i); return d; }
// the functions of unit u: f<u> (range list or low/high) with an inlined call of a<u>, whose name comes from its declaration
void body(U& x, int u, unsigned cu, int rng_) {
  D dec(DW_TAG_subprogram, false); if (x.split) strx(dec, DW_AT_name, u); else dec.str(DW_AT_name, u == 1 ? "a1" : "a2"); dec.dat(DW_AT_decl_line, x.la, 2).end();
  if (vp_cfg() % 2) { D un(DW_TAG_subprogram, false); un.str(DW_AT_name, "unused").addr(DW_AT_low_pc, 0).end(); }
  D a(DW_TAG_subprogram, false); a.ref4(DW_AT_specification, dec.off - cu).dat(DW_AT_inline, 1, 1).end();
  D f(DW_TAG_subprogram, true); f.str(DW_AT_name, u == 1 ? "f1" : "f2").dat(DW_AT_decl_line, x.lm, 2);
  if (!rng_) { if (x.split) addrx(f, DW_AT_low_pc, 0); else f.addr(DW_AT_low_pc, x.lo); f.dat(DW_AT_high_pc, x.hi - x.lo, asize); }
  else if (ver < 5) { f.sec(DW_AT_ranges, rng.n - x.rb); rng.un(x.lo, asize); rng.un(x.hi, asize); rng.un(0, asize); rng.un(0, asize); }
  else if (!x.split) { f.sec(DW_AT_ranges, rl.n); rl.u8(6); rl.un(x.lo, asize); rl.un(x.hi, asize); rl.u8(0); }
  else { f.at(DW_AT_ranges, DW_FORM_rnglistx); info.u8(1); }
  f.end();
  D i(DW_TAG_inlined_subroutine, false); i.ref4(DW_AT_abstract_origin, a.off - cu); if (x.split) addrx(i, DW_AT_low_pc, 1); else i.addr(DW_AT_low_pc, x.ilo); i.dat(DW_AT_high_pc, x.ihi - x.ilo, asize).dat(DW_AT_call_file, 2, 1).dat(DW_AT_call_line, x.cl, 2).end();
  info.u8(0);
}
void cuhead(int type, uint64_t id) { info.initlen(false); info.u16(ver); if (ver == 5) { info.u8(type); info.u8(asize); info.u32(abbr.n); if (type != DW_UT_compile) info.u64(id); } else { info.u32(abbr.n); info.u8(asize); } nabbr = 0; }
}
extern "C" void split() {
  // cfg: version*100 + 10*(container: 0 files, 1/2 package index version, 3 absent, 4 not ELF, 5 identifier mismatch) + range lists*2 + unused entry
  ver = vp_cfg() / 100; int cont = vp_cfg() / 10 % 10, rng_ = vp_cfg() % 10 / 2; asize = 8;
  firstload = 1;
  U u[3]; bool second = vp_choose(2, "second unit is split");
  for (int k = 1; k <= 2; k++) {
    U& x = u[k]; x.split = k == 1 || second; x.found = true; unsigned char ib[8]; for (int i = 0; i < 8; i++) ib[i] = vp_any<unsigned char>("id"); if (vp_cfg() / 10 % 10 == 1 || vp_cfg() / 10 % 10 == 2) { ib[0] = 28 + vp_choose(4, "slot"); ib[4] = 32 + 2 * vp_choose(2, "step"); }   // the slot and step bits are enumerated
    memcpy(&x.id, ib, 8); vp_assume(x.id != 0);
    x.lo = vp_any<uint64_t>("lo"); x.hi = vp_any<uint64_t>("hi"); x.ilo = vp_any<uint64_t>("ilo"); x.ihi = vp_any<uint64_t>("ihi"); vp_assume(x.lo != 0 && x.lo <= x.ilo && x.ilo < x.ihi && x.ihi <= x.hi);
    x.la = vp_any<uint16_t>("decl a"); x.lm = vp_any<uint16_t>("decl f"); x.cl = vp_any<uint16_t>("call"); vp_assume(x.la && x.lm);
  }
  vp_assume((u[1].hi <= u[2].lo || u[2].hi <= u[1].lo) && u[1].id != u[2].id);
  Row r[2] = {{1, 1, 4, 5, 0, false}, {~0ull, 0, 0, 0, 0, true}}; program(r, 2);
  int bad = cont >= 3 ? 1 + vp_choose(second ? 2 : 1, "affected unit") : 0;
  pkg = cont == 1 || cont == 2 ? cont : 0; bool inpkg[3] = {false, false, false};
  if (pkg) { int m = vp_choose(second ? 3 : 1, "package holds"); inpkg[1] = m != 1; inpkg[2] = second && m != 0; if (!inpkg[1] && !inpkg[2]) return; }
  if (ver == 5 && rng_) { rl.u32(0); rl.u16(5); rl.u8(asize); rl.u8(0); rl.u32(0); rl.u8(0); }
  uint64_t wrong = vp_any<uint64_t>("other id"); vp_assume(bad == 0 || wrong != u[bad].id);
  for (int k = 1; k <= 2; k++) {
    U& x = u[k]; cur = 0;
    if (ver == 5) { unsigned s = adr.n; adr.initlen(false); adr.u16(5); adr.u8(asize); adr.u8(0); x.ab = adr.n; adr.u64(x.lo); adr.u64(x.ilo); adr.u64(x.hi); adr.endlen(false, s); } else { x.ab = adr.n; adr.u64(x.lo); adr.u64(x.ilo); }
    x.rb = x.split ? rng.n : 0;
    unsigned cu = info.n; cuhead(x.split ? DW_UT_skeleton : DW_UT_compile, x.id);
    D d(x.split && ver == 5 ? DW_TAG_skeleton_unit : DW_TAG_compile_unit, !x.split); d.str(DW_AT_comp_dir, k == 1 ? "/c" : "/d").sec(DW_AT_stmt_list, 0);
    if (x.split) {
      d.str(ver == 5 ? DW_AT_dwo_name : DW_AT_GNU_dwo_name, k == 1 ? "u1.dwo" : "u2.dwo");
      if (ver < 5) d.dat(DW_AT_GNU_dwo_id, x.id, 8);
      d.sec(ver == 5 ? DW_AT_addr_base : DW_AT_GNU_addr_base, x.ab);
      if (ver < 5 && rng_) d.sec(DW_AT_GNU_ranges_base, x.rb);
    }
    d.addr(DW_AT_low_pc, 0); d.end();
    if (!x.split) body(x, k, cu, rng_);
    else {   // the full unit
      cur = k; cuhead(DW_UT_split_compile, bad == k && cont == 5 ? wrong : x.id);
      D e(DW_TAG_compile_unit, true); e.str(DW_AT_name, "full"); if (ver < 5) e.dat(DW_AT_GNU_dwo_id, bad == k && cont == 5 ? wrong : x.id, 8); e.end();
      body(x, k, 0, rng_); info.u8(0); info.endlen(false, 0); abbr.u8(0);
      if (ver == 5) { dso[k].initlen(false); dso[k].u16(5); dso[k].u16(0); } for (int i = 0; i < 3; i++) dso[k].u32(i == k ? 3 : 0); if (ver == 5) dso[k].endlen(false);
      dstr[k].str("zz"); dstr[k].str(k == 1 ? "a1" : "a2");
      if (ver == 5 && rng_) { Buf& b = drl[k]; b.u32(0); b.u16(5); b.u8(asize); b.u8(0); b.u32(2); b.u32(8); b.u32(9); b.u8(0); b.u8(2); b.uleb(0, 1); b.uleb(2, 1); b.u8(0); b.endlen(false); }
      hasdwo[k] = !inpkg[k]; if (bad == k) { if (cont == 3) hasdwo[k] = false; if (cont == 4) isElf[k] = false; x.found = false; }
    }
    cur = 0; if (!x.split) info.u8(0); info.endlen(false, cu); abbr.u8(0);
  }
  if (rl.n) rl.endlen(false);
  if (pkg) {   // hash table of four slots, filled as the format prescribes; rows in arbitrary order
    uint64_t hash[4] = {0, 0, 0, 0}; uint32_t idx[4] = {0, 0, 0, 0}; unsigned rows = 0; unsigned first[3] = {0, 0, 0}; Buf pool; unsigned off[3][3], sz[3][3]; int byrow[3] = {0, 0, 0};
    for (int i = 0; i < 5; i++) { pinfo.u8(0xee); pso.u8(0xee); } pstr.str("zz"); pstr.str("a1"); pstr.str("a2"); pabbr.u8(0xee);
    int ord = vp_choose(2, "order");
    if (pkg == 1) pool.u32(0);
    for (int i = 0; i < 2; i++) {
      int k = ord ? 2 - i : 1 + i; if (!inpkg[k]) continue;
      Buf* from[3] = {&infos[k], &abbrs[k], &dso[k]}; Buf* to[3] = {&pinfo, &pabbr, &pso};
      unsigned save = dso[k].n; dso[k].n = ver == 5 ? 8 : 0; for (int j = 0; j < 3; j++) dso[k].u32(j == k ? (k == 1 ? 3 : 6) : 0); (void)save;   // string offsets into the shared table
      for (int c = 0; c < 3; c++) { off[k][c] = to[c]->n; sz[k][c] = from[c]->n; for (unsigned j = 0; j < from[c]->n; j++) to[c]->u8(from[c]->b[j]); to[c]->u8(0xee); }
      if (pkg == 1) { first[k] = pool.n / 4; static const char* nm[] = {".debug_info.dwo", ".debug_abbrev.dwo", ".debug_str_offsets.dwo"}; for (int c = 0; c < 3; c++) { int cc = (c + k) % 3; psec[npsec] = {nm[cc], from[cc]}; pool.u32(npsec++); } psec[npsec] = {".debug_loc.dwo", &pstr}; pool.u32(npsec++); pool.u32(0); }
      byrow[++rows] = k;
      uint32_t s = (uint32_t)u[k].id & 3, h2 = ((uint32_t)(u[k].id >> 32) & 3) | 1; while (idx[s]) s = (s + h2) & 3;
      s = (uint32_t)vp_concretize(s); hash[s] = u[k].id; idx[s] = pkg == 1 ? first[k] : rows;
    }
    Buf& b = pindex_; b.u32(pkg); b.u32(pkg == 1 ? 0 : 4); b.u32(rows); b.u32(4); for (int i = 0; i < 4; i++) b.u64(hash[i]); for (int i = 0; i < 4; i++) b.u32(idx[i]);
    if (pkg == 1) for (unsigned i = 0; i < pool.n; i++) b.u8(pool.b[i]);
    else {
      static const int ids[4] = {6, 1, 4, 3}, col[4] = {2, 0, -1, 1};   // DW_SECT_STR_OFFSETS, INFO, LINE, ABBREV
      for (int c = 0; c < 4; c++) b.u32(ids[c]);
      for (unsigned q = 1; q <= rows; q++) for (int c = 0; c < 4; c++) b.u32(col[c] < 0 ? 7 : off[byrow[q]][col[c]]);
      for (unsigned q = 1; q <= rows; q++) for (int c = 0; c < 4; c++) b.u32(col[c] < 0 ? 7 : sz[byrow[q]][col[c]]);
    }
  }
  cur = 0; vp_assert(infos[0].n < 1000 && infos[1].n < 1000 && pinfo.n < 1000, "harness buffers");
  Addr2line* al = Addr2line::Create("x"); vp_assert(al != nullptr, "binary accepted");
  uint64_t q = vp_any<uint64_t>("query"); vp_assume(q >= 1 && q != ~0ull);
  SourceStack st; al->GetInlineStack(q, &st);
  int w = 0; bool inl = false;
  for (int k = 1; k <= 2; k++) if (u[k].found && u[k].lo <= q && q < u[k].hi) { w = k; inl = u[k].ilo <= q && q < u[k].ihi; }
  vp_assert(st.size() == (inl ? 2 : 1), "stack depth"); vp_assert(st[0].line == 5 && st[0].file_name == "a.c", "position");
  if (!w) { vp_assert(!st[0].func_name, "no function"); vp_reach("none"); return; }
  const SourceInfo& outer = st[inl]; vp_assert(outer.func_name && !strcmp(outer.func_name, w == 1 ? "f1" : "f2") && outer.start_line == u[w].lm, "function of the unit");
  if (inl) { vp_assert(st[0].func_name && !strcmp(st[0].func_name, w == 1 ? "a1" : "a2") && st[0].start_line == u[w].la, "inlined function of the unit"); vp_assert(outer.line == u[w].cl && outer.file_name == "h.h", "call position"); vp_reach(w == 1 ? "inlined 1" : "inlined 2"); }
  vp_observe("w", w); if (!bad) { vp_must_reach("inlined 1"); vp_must_reach("inlined 2"); } else vp_must_reach("none");
}
