// D07: building the address-to-line map and the function table from decoded debug information.
#include <filesystem>
#include <map>
#include <string>
#include <vector>
#include "vp.h"
#include "dw.h"
#include "symbolize/functioninfo.h"
#include "symbolize/dwarf2enums.h"
#include "symbolize/line_state_machine.h"
using namespace devtools_crosstool_autofdo;
namespace {
struct Row { uint64_t a; bool none; int dir, file; uint32_t line, disc; };
const char* DN[] = {"", "d1", "d2"}; const char* FN[] = {"", "a.c", "b.c", "z.c"};
// the row an address belongs to: the nearest row at or below it, the last one given for that address
const Row* rowOf(const std::vector<Row>& v, uint64_t q) { const Row* b = nullptr; for (auto& r : v) if (r.a <= q && (!b || r.a >= b->a)) b = &r; return b; }
}
// cfg: bit0 sampled-function filter, bit1 DWARF 5 style directory and file 0
extern "C" void linemap() {
  FileVector files; DirectoryVector dirs; AddressToLineMap lm; int cfg = vp_cfg(); std::map<uint64_t, uint64_t> fn; bool filt = cfg & 1, v5 = cfg & 2; uint64_t lo[2], e[2], end = 0;
  if (filt) for (int i = 0; i < 2; i++) { lo[i] = vp_bytes(6, "function"); e[i] = vp_bytes(6, "function end"); vp_assume(lo[i] >= end && e[i] > lo[i]); end = e[i]; fn[lo[i]] = e[i] - lo[i]; }
  CULineInfoHandler* h = filt ? new CULineInfoHandler(&files, &dirs, &lm, &fn) : new CULineInfoHandler(&files, &dirs, &lm); uint64_t first = vp_bytes(6, "first loaded"); h->SetVaddrOfFirstLoadSegment(first);
  const char* comp = v5 ? "comp" : ""; if (v5) h->DefineDir("comp", 0); h->DefineDir(DN[1], 1); h->DefineDir(DN[2], 2);
  int fdir[4] = {0, 0, 0, 0}; if (v5) { h->DefineFile("main.c", 0, fdir[0] = 1 + cfg / 4 % 2, 0, 0); } for (int i = 1; i <= 3; i++) { fdir[i] = i == 2 ? vp_choose(3, "dir") : i % 3; h->DefineFile(FN[i], i == 3 ? -1 : i, fdir[i], 1, 2); }
  vp_assert(files.size() == 4 && dirs.size() == 3, "tables");
  std::vector<Row> rows; h->StartCU(); int n = 3 + vp_tier();
  for (int i = 0; i < n; i++) {
    Row r; r.a = vp_bytes(6, "address"); r.none = vp_choose(2, "end"); r.file = i ? (i + (v5 ? 2 : 1)) % 4 : (int)(const int[]){2, 0, 4}[vp_choose(3, "file")]; r.line = vp_any<uint32_t>("line"); r.disc = vp_any<uint32_t>("discriminator"); r.dir = r.file < 4 ? fdir[r.file] : 0;
    h->AddLine(r.a, r.file, r.line, vp_any<uint32_t>("column"), r.disc, r.none);
    bool keep = r.a >= first; if (filt) { bool in = false; for (int k = 0; k < 2; k++) in |= r.a >= lo[k] && r.a < e[k]; keep &= in; } if (r.file >= 4 && !r.none) keep = false; if (keep) rows.push_back(r);
  }
  uint64_t q = vp_bytes(6, "query"); const Row* want = rowOf(rows, q); auto it = lm.upper_bound(q);
  if (!want) vp_assert(it == lm.begin(), "no row at or below the address"); else {
    vp_assert(it != lm.begin(), "row at or below the address"); --it; vp_assert(it->first == want->a, "nearest row");
    if (want->none) vp_assert(it->second == 0, "past the end of a sequence"); else { vp_assert(it->second > 0, "row has a line"); auto& l = lm.GetLogical(it->second); vp_assert(l.line == want->line && l.discriminator == want->disc, "line and discriminator"); vp_assert(std::string(l.file.first) == (want->dir ? DN[want->dir] : comp) && std::string(l.file.second) == (want->file ? FN[want->file] : v5 ? "main.c" : ""), "file"); vp_assert(l.context == 0 && l.subprog_num == 0, "no inlining context"); }
  }
  vp_assert(CULineInfoHandler::MergedFilename(std::make_pair(DN[1], FN[2])) == "d1/b.c" && CULineInfoHandler::MergedFilename(std::make_pair(DN[0], FN[2])) == "b.c", "merged name");
  vp_reach(want ? want->none ? "end" : "row" : "none"); vp_must_reach("row"); vp_must_reach("end"); vp_must_reach("none"); vp_observe("row", want ? want->line : 0);
}
// two-level tables: rows refer to logical lines, which nest by inlining context; two units share the map
extern "C" void twolevel() {
  AddressToLineMap lm; struct L { uint32_t line, ctx, sub; }; static const char* S[2][2] = {{"f", "g"}, {"p", "q"}}; uint64_t addr[2]; L lg[2][3]; int pick[2];
  for (int u = 0; u < 2; u++) {
    FileVector files; DirectoryVector dirs; CULineInfoHandler h(&files, &dirs, &lm); LogicalsVector v; h.StartCU(); h.DefineDir(DN[1], 1); h.DefineFile(FN[1], 1, 1, 0, 0); h.DefineFile(FN[2], 2, 0, 0, 0);
    for (int i = 0; i < 2; i++) h.DefineSubprog(S[u][i], i + 1, 1 + i, 100 * u + i);
    for (int i = 0; i < 3; i++) { LineStateMachine m; m.Reset(true); m.line_num = lg[u][i].line = vp_any<uint32_t>("line"); m.context = lg[u][i].ctx = i ? vp_choose(i + 1, "context") : 0; m.subprog_num = lg[u][i].sub = i == 1 ? vp_choose(3, "subprogram") : (i + u) % 3; m.file_num = 1 + i % 2; m.discriminator = i + 5; v.push_back(m); }
    h.SetLogicals(&v); h.StartActuals(); addr[u] = vp_bytes(6, "address"); if (u) vp_assume(addr[1] != addr[0]); pick[u] = 1 + vp_choose(3, "logical"); for (int k = 0; k < 2; k++) { h.SetLogicalNum(k ? pick[u] : 1 + vp_choose(2, "other")); h.AddLine(k ? addr[u] : addr[u] + 8 + u, 1, 1, 0, 0, false); }
    vp_assume(addr[u] + 8 + u != addr[!u] || u == 0); if (u) vp_assume(addr[0] + 8 != addr[1]);
  }
  for (int u = 0; u < 2; u++) {
    uint32_t got = 0; for (auto it = lm.begin(); it != lm.end(); ++it) if (it->first == addr[u]) got = it->second; int cur = pick[u];
    while (cur) {
      vp_assert(got > 0, "row has a logical line"); if (!got) return; auto& l = lm.GetLogical(got); auto& w = lg[u][cur - 1]; vp_assert(l.line == w.line && l.discriminator == (uint32_t)cur + 4 && std::string(l.file.second) == FN[1 + (cur - 1) % 2] && std::string(l.file.first) == DN[(cur - 1) % 2 ? 0 : 1], "logical line");
      if (!w.sub) vp_assert(l.subprog_num == 0, "no function"); else { vp_assert(l.subprog_num > 0, "function"); auto& s = lm.GetSubprogInfo(l.subprog_num); vp_assert(std::string(s.name) == S[u][w.sub - 1] && s.line_num == 100u * u + w.sub - 1 && std::string(s.file.second) == FN[w.sub], "function of the line"); }
      got = l.context; cur = w.ctx;
    }
    vp_assert(got == 0, "context chain ends");
  }
  vp_observe("p", pick[0]);
}
// function table: name, line, file and extent of every function entry
extern "C" void functions() {
  FileVector files{{0, ""}, {0, "a.c"}, {1, "b.c"}}; DirectoryVector dirs{"", "d1"}; AddressToLineMap lm; FunctionMap byoff, byaddr; SectionMap sec; ByteReader rd(ENDIANNESS_LITTLE); CUFunctionInfoHandler h(&files, &dirs, &lm, &byoff, &byaddr, nullptr, sec, &rd); AttributeList al;
  vp_assert(h.StartCompilationUnit(0, 8, 4, 100, 4), "units are read"); vp_assert(h.StartDIE(11, DW_TAG_compile_unit, al), "unit entry"); h.ProcessAttributeString(11, DW_AT_name, DW_FORM_string, "unit"); h.EndDIE(11);
  struct W { uint64_t lo, hi, line; int file; const char* n; } w[3]; static const char* N[] = {"f", "g", "h"}; int n = 2 + vp_tier();
  for (int i = 0; i < n; i++) {
    bool in = vp_choose(2, "inlined"); w[i] = {vp_any<uint64_t>("low"), vp_any<uint64_t>("high"), vp_any<uint32_t>("line"), (int)vp_choose(4, "file"), N[i]}; uint64_t o = 100 + i * 50;
    vp_assert(!h.StartDIE(o - 9, vp_choose(2, "other") ? DW_TAG_variable : DW_TAG_lexical_block, al), "only functions matter"); 
    vp_assert(h.StartDIE(o, in ? DW_TAG_inlined_subroutine : DW_TAG_subprogram, al), "function entry"); h.ProcessAttributeString(o, DW_AT_name, DW_FORM_string, w[i].n); h.ProcessAttributeString(o, DW_AT_producer, DW_FORM_string, "no"); h.ProcessAttributeUnsigned(o, DW_AT_low_pc, DW_FORM_addr, w[i].lo); h.ProcessAttributeUnsigned(o, DW_AT_high_pc, DW_FORM_addr, w[i].hi); h.ProcessAttributeUnsigned(o, DW_AT_decl_line, DW_FORM_udata, w[i].line); if (w[i].file) h.ProcessAttributeUnsigned(o, DW_AT_decl_file, DW_FORM_udata, w[i].file); h.ProcessAttributeUnsigned(o, DW_AT_decl_column, DW_FORM_udata, 7); h.EndDIE(o);
  }
  vp_assert((int)byoff.size() == n, "one record per function");
  auto same = [&](const FunctionInfo* f, const W& x) { bool ok = x.file == 1 || x.file == 2; return f->name == x.n && f->lowpc == x.lo && f->highpc == x.hi && f->line == x.line && std::string(f->file.first) == (x.file == 2 ? "d1" : "") && std::string(f->file.second) == (ok ? files[x.file].second : ""); };
  for (int i = 0; i < n; i++) { auto it = byoff.find(100 + i * 50); vp_assert(it != byoff.end() && same(it->second, w[i]), "function record"); }
  uint64_t q = vp_any<uint64_t>("query"); const W* f = nullptr; for (int i = n; i-- > 0;) if (w[i].lo == q && q) f = &w[i]; auto it = byaddr.find(q); vp_assert((it != byaddr.end()) == (f != nullptr), "functions by start address"); if (f && it != byaddr.end()) vp_assert(same(it->second, *f), "function by start address");
  vp_observe("n", n);
}

// a unit names its line table by its place among those of the other units
extern "C" void stmtlist() {
  int c = vp_cfg(), ver = c & 1 ? 5 : 4, pad = c & 2 ? 7 : 0; static Buf b, ls, st, so; for (int i = 0; i < pad; i++) b.u8(0xee); unsigned start = b.n;
  uint64_t addr = vp_bytes(6, "address"); uint8_t line = vp_any<uint8_t>("line"); vp_assume(line > 0 && line < 100); int form = ver == 5 ? vp_choose(4, "form") : 0;
  b.initlen(false); b.u16(ver); if (ver == 5) { b.u8(8); b.u8(0); } unsigned hl = b.n; b.off(0, false); unsigned hs = b.n; b.u8(1); b.u8(1); b.u8(1); b.u8(-3); b.u8(12); b.u8(13); static const unsigned char lens[] = {0, 0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1}; for (int i = 1; i < 13; i++) b.u8(lens[i]);
  ls.str("zz"); st.str("padd");
  so.un(0, 4); so.u16(5); so.u16(0); so.off(0, false);
  auto name = [&](const char* n) { if (form == 0) b.str(n); else if (form == 1) { b.off(ls.n, false); ls.str(n); } else if (form == 2) { b.off(st.n, false); st.str(n); } else { b.u8((so.n - 8) / 4); so.off(st.n, false); st.str(n); } };
  static const int F[] = {DW_FORM_string, DW_FORM_line_strp, DW_FORM_strp, DW_FORM_strx1};
  if (ver == 5) { b.u8(1); b.uleb(DW_LNCT_path, 1); b.uleb(F[form], 1); b.uleb(2, 1); name("comp"); name("d1"); b.u8(2); b.uleb(DW_LNCT_path, 1); b.uleb(F[form], 1); b.uleb(DW_LNCT_directory_index, 1); b.uleb(DW_FORM_udata, 1); b.uleb(2, 1); name("a.c"); b.uleb(0, 1); name("b.c"); b.uleb(1, 1); }
  else { b.str("d1"); b.u8(0); b.str("b.c"); b.uleb(1, 1); b.uleb(0, 1); b.uleb(0, 1); b.u8(0); }
  b.patch(hl, b.n - hs, 4); b.u8(0); b.uleb(9, 1); b.u8(DW_LNE_set_address); b.u64(addr); b.u8(DW_LNS_advance_line); b.uleb(line, 2); b.u8(DW_LNS_copy); b.u8(DW_LNS_advance_pc); b.uleb(16, 1); b.u8(0); b.uleb(1, 1); b.u8(DW_LNE_end_sequence); b.endlen(false, start); for (int i = 0; i < 5; i++) b.u8(0xcc);
  FileVector files; DirectoryVector dirs; AddressToLineMap lm; FunctionMap byoff, byaddr; SectionMap sec; ByteReader rd(ENDIANNESS_LITTLE); rd.SetAddressSize(8); sec[".debug_line"] = {b.p(), b.n}; if (form == 1) sec[".debug_line_str"] = {ls.p(), ls.n}; if (form >= 2) sec[".debug_str"] = {st.p(), st.n}; if (form == 3) sec[".debug_str_offsets"] = {so.p(), so.n};
  CULineInfoHandler lh(&files, &dirs, &lm); CUFunctionInfoHandler h(&files, &dirs, &lm, &byoff, &byaddr, &lh, sec, &rd); AttributeList al; h.StartCompilationUnit(0, 8, 4, 100, ver); h.StartDIE(11, DW_TAG_compile_unit, al); if (form == 3) h.set_str_offset_base(8); h.ProcessAttributeUnsigned(11, DW_AT_stmt_list, DW_FORM_sec_offset, start); h.EndDIE(11);
  auto it = lm.upper_bound(addr); vp_assert(it != lm.begin(), "row of the table"); if (it == lm.begin()) return; --it; vp_assert(it->first == addr && it->second > 0, "row of the table"); auto& l = lm.GetLogical(it->second); vp_assert(l.line == 1u + line && std::string(l.file.first) == "d1" && std::string(l.file.second) == "b.c", "line and file of the row"); 
  it = lm.upper_bound(addr + 16); --it; vp_assert(it->first == addr + 16 && it->second == 0, "end of the table"); vp_observe("line", l.line);
}
