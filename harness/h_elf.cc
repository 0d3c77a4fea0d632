// D08: the ELF container; M07: the address side of the symbol map.
#include "vp.h"
#include "symbolize/elf_reader.h"
#include "elfgen.h"
#include <map>
using namespace devtools_crosstool_autofdo;
using namespace elfgen;
namespace {
std::string raw(int n, const char* nm) { std::string s(n, 0); for (auto& c : s) c = vp_any<char>(nm); return s; }
void note(std::string& s, uint32_t type, const std::string& name, const std::string& desc) {
  put(s, (uint32_t)name.size()); put(s, (uint32_t)desc.size()); put(s, type); s += name; while (s.size() % 4) s += '\x7f'; s += desc; while (s.size() % 4) s += '\x7f';
}
template <class A> void sections(int cfg) {
  typedef decltype(typename A::Shdr{}.sh_addr) W; Image<A> im(ET_EXEC, EM_X86_64); bool dwp = cfg & 2, many = cfg & 4; im.add("", SHT_NULL, "");
  static const char* N[] = {".text", ".debug_line", ".zdebug_line", ".data", ".debug_lin"}; struct S { int ix, k; std::string d; }; std::vector<S> v; int n = 3;
  if (cfg & 8) im.start = 4096 * 3 - 24;
  for (int i = 0; i < n; i++) {
    int k = vp_choose(5, "name"); S s; s.k = k; s.d = raw(4 + 3 * i, "data"); s.ix = im.add(N[k], k % 2 ? SHT_PROGBITS : SHT_NOTE, s.d); auto& h = im.sh[s.ix];
    h.sh_flags = vp_any<W>("flags"); h.sh_addr = vp_any<W>("addr"); h.sh_link = vp_any<uint32_t>("link"); h.sh_info = vp_any<uint32_t>("info"); h.sh_addralign = vp_any<W>("align"); h.sh_entsize = vp_any<W>("entsize"); v.push_back(s);
  }
  unsigned char* d; size_t sz = im.finish(&d, many); vpe::add(dwp ? "a.dwp" : "a.out", d, sz);
  {
    ElfReader r(dwp ? "a.dwp" : "a.out"); vp_assert(r.IsElf32File() == (A::cls == ELFCLASS32) && r.IsElf64File() == (A::cls == ELFCLASS64) && r.IsNativeElfFile() == r.IsElf64File(), "word size");
    static const char* Q[] = {".text", ".debug_line", ".zdebug_line", ".data", ".debug_lin", ".debug_", ".shstrtab"}; int q = vp_choose(7, "asked"); size_t got = 77; const char* c = r.GetSectionByName(Q[q], &got); int want = -1;
    if (q == 6) { vp_assert(c && got == im.names.s.size() && !memcmp(c, im.names.s.data(), got), "section names"); return; }
    for (int i = 0; i < n; i++) { int j = dwp ? n - 1 - i : i; if (v[j].k == q || (q == 1 && v[j].k == 2)) { want = j; break; } }
    ElfReader::SectionInfo si; const char* c2 = r.GetSectionInfoByName(Q[q], &si);
    if (want < 0) vp_assert(!c && !c2, "absent section"); else {
      auto& h = im.sh[v[want].ix]; vp_assert(c == c2 && c && got == v[want].d.size() && !memcmp(c, v[want].d.data(), got), "section contents by name");
      vp_assert(si.type == h.sh_type && si.flags == h.sh_flags && si.addr == h.sh_addr && si.offset == h.sh_offset && si.size == got && si.link == h.sh_link && si.info == h.sh_info && si.addralign == h.sh_addralign && si.entsize == h.sh_entsize, "section header");
    }
    for (int i = 0; i < n; i++) { size_t z; const char* p = r.GetSectionByIndex(v[i].ix, &z); vp_assert(p && z == v[i].d.size() && !memcmp(p, v[i].d.data(), z), "section contents by index"); vp_assert(!strcmp(r.GetSectionName(v[i].ix), N[v[i].k]), "section name"); }
    int from = vp_choose(5, "from"); int w = -1; for (int i = from; i <= n; i++) if (i >= 1 && v[i - 1].k % 2 == 0) { w = i; break; } vp_assert(r.GetSectionIndexByType(SHT_NOTE, from) == w, "section by type");
    bool dbg = false, sym = false; for (auto& s : v) dbg |= s.k == 1 || s.k == 4; const char* path = dwp ? "a.dwp" : "a.out"; vp_assert(ElfReader::IsNonDebugStrippedELFBinary(path) == dbg, "has debug sections"); vp_assert(!ElfReader::IsNonStrippedELFBinary(path), "has no symbols"); (void)sym;
    vp_observe("c", c ? c[0] : 0);
  }
}
struct Got { std::string n; uint64_t a, s; int b, t, x; };
struct Sink : ElfReader::SymbolSink { std::vector<Got> v; void AddSymbol(const char* n, uint64_t a, uint64_t s, int b, int t, int x) override { v.push_back({n, a, s, b, t, x}); } };
template <class A> void symbols(int cfg) {
  typedef decltype(typename A::Sym{}.st_value) W; bool arm = cfg & 2; Image<A> im(vp_choose(2, "shared") ? ET_DYN : ET_EXEC, arm ? EM_ARM : EM_X86_64); im.add("", SHT_NULL, ""); im.add(".text", SHT_PROGBITS, "abcd"); Str st[2]; std::vector<Got> all; int n = 2 + vp_tier(); static const char* NM[] = {"", "f", "a_long_name"};
  bool tabs[2] = {(cfg & 4) == 0, (cfg & 8) == 0};
  for (int t = 0; t < 2; t++) if (tabs[t]) {
    std::string b; typename A::Sym z{}; put(b, z);
    for (int i = 0; i < n; i++) { typename A::Sym s{}; int k = vp_choose(3, "name"); s.st_name = st[t].add(NM[k]); s.st_value = vp_any<W>("value"); s.st_size = vp_any<W>("size"); s.st_info = vp_any<uint8_t>("info"); s.st_shndx = vp_any<uint16_t>("section"); put(b, s); if (k) all.push_back({NM[k], s.st_value, s.st_size, s.st_info >> 4, s.st_info & 15, s.st_shndx}); }
    int ix = im.add(t ? ".dynsym" : ".symtab", t ? SHT_DYNSYM : SHT_SYMTAB, b); im.sh[ix].sh_entsize = sizeof z; im.sh[ix].sh_link = ix + 1; im.add(t ? ".dynstr" : ".strtab", SHT_STRTAB, st[t].s);
  }
  unsigned char* d; size_t sz = im.finish(&d); vpe::add("a.out", d, sz);
  ElfReader r("a.out"); Sink k; int mode = vp_choose(4, "mode"); int fb = mode == 1 ? 1 : -1, ft = mode == 2 ? 2 : -1; bool rawv = vp_choose(2, "raw"); uint64_t minsz = vp_any<W>("minimum size"); int calls = 0;
  if (mode == 3) k.filter = [&](const char* n, uint64 a, uint64 s, int b, int t, int x) { vp_assert(n && *n, "filter sees named symbols"); calls++; return s >= minsz; };
  if (rawv) r.VisitSymbols(&k, fb, ft, true); else if (mode == 1 || mode == 2) r.VisitSymbols(&k, fb, ft); else r.VisitSymbols(&k);
  size_t j = 0;
  for (auto& s : all) {
    if (mode == 1 && s.b != 1) continue; if (mode == 2 && s.t != 2) continue; if (mode == 3 && s.s < minsz) continue;
    uint64_t a = s.a; if (arm && s.t == STT_FUNC && !rawv) a &= ~1ull;
    vp_assert(j < k.v.size(), "every matching symbol is visited"); auto& g = k.v[j++]; vp_assert(g.n == s.n && g.a == a && g.s == s.s && g.b == s.b && g.t == s.t && g.x == s.x, "symbol");
  }
  vp_assert(j == k.v.size(), "only matching symbols are visited"); if (mode == 3) vp_assert(calls == (int)all.size(), "filter sees every symbol once");
  vp_assert(r.IsDynamicSharedObject() == (im.h.e_type == ET_DYN), "shared object"); vp_assert(ElfReader::IsNonStrippedELFBinary("a.out") == tabs[0], "has symbols"); vp_assert(!ElfReader::IsNonDebugStrippedELFBinary("a.out"), "no debug sections");
  vp_observe("n", j);
}
template <class A> void segments(int cfg) {
  typedef decltype(typename A::Phdr{}.p_vaddr) W; int type = (int[]){ET_EXEC, ET_DYN, ET_REL}[vp_choose(3, "type")]; Image<A> im(type, EM_X86_64); im.add("", SHT_NULL, ""); int n = vp_choose(4, "segments");
  for (int i = 0; i < n; i++) { typename A::Phdr p{}; p.p_type = vp_any<uint32_t>("type"); p.p_flags = vp_any<uint32_t>("flags"); p.p_offset = vp_any<W>("offset"); p.p_vaddr = vp_any<W>("vaddr"); p.p_paddr = vp_any<W>("paddr"); p.p_filesz = vp_any<W>("filesz"); p.p_memsz = vp_any<W>("memsz"); p.p_align = vp_any<W>("align"); im.ph.push_back(p); }
  unsigned char* d; size_t sz = im.finish(&d, cfg & 2); vpe::add("a.out", d, sz); ElfReader r("a.out"); auto v = r.GetSegmentInfo(); vp_assert((int)v.size() == n, "number of segments");
  for (int i = 0; i < n; i++) { auto& p = im.ph[i]; vp_assert(v[i].type == p.p_type && v[i].flags == p.p_flags && v[i].offset == p.p_offset && v[i].vaddr == p.p_vaddr && v[i].paddr == p.p_paddr && v[i].filesz == p.p_filesz && v[i].memsz == p.p_memsz && v[i].align == p.p_align, "segment"); }
  uint64_t first = 0; if (type != ET_REL) for (int i = n; i-- > 0;) if (im.ph[i].p_type == PT_LOAD) first = im.ph[i].p_vaddr; vp_assert(r.VaddrOfFirstLoadSegment() == first, "link address");
  vp_observe("n", n);
}
template <class A> void buildid(int cfg) {
  Image<A> im(ET_DYN, EM_X86_64); im.add("", SHT_NULL, ""); std::vector<std::string> ids; int ns = 1 + vp_choose(2, "sections"), total = 0;
  for (int s = 0; s < ns; s++) {
    std::string b; int nn = 1 + vp_choose(2, "notes");
    for (int i = 0; i < nn; i++) {
      int k = vp_choose(4, "kind"); std::string id = raw((const int[]){20, 5, 8, 0}[k == 1 ? 1 + vp_choose(2, "length") : 0], "id");
      if (k < 2) { note(b, NT_GNU_BUILD_ID, std::string("GNU\0", 4), id); ids.push_back(id); } else if (k == 2) note(b, NT_GNU_BUILD_ID, std::string("Go\0", 3), raw(5, "x")); else note(b, NT_GNU_ABI_TAG, std::string("GNU\0", 4), raw(7, "x"));
    }
    im.add(s ? ".note.b" : ".note.a", SHT_NOTE, b); total += nn;
  }
  unsigned char* d; size_t sz = im.finish(&d); vpe::add("a.out", d, sz); ElfReader r("a.out"); std::string got = r.GetBuildId(), want;
  if (ids.size() == 1) for (unsigned char c : ids[0]) { auto hx = [](int x) { return (char)(x < 10 ? '0' + x : 'a' + x - 10); }; want += hx(c >> 4); want += hx(c & 15); }
  vp_assert(got == want, "build id"); vp_observe("n", got.size());
}
template <class A> void bad() {
  Image<A> im(ET_EXEC, EM_X86_64); im.add("", SHT_NULL, ""); unsigned char* d; size_t sz = im.finish(&d); int k = vp_choose(4, "byte"); uint8_t x = vp_any<uint8_t>("value"); d[k] = x; uint8_t cls = vp_any<uint8_t>("class"); d[4] = cls; uint8_t dat = vp_any<uint8_t>("byte order"); d[5] = dat; vpe::add("a.out", d, sz);
  bool magic = x == (uint8_t)ELFMAG[k]; ElfReader r(vp_choose(2, "name") ? "a.out" : "missing"); ElfReader q("[vdso]"), w("x (deleted)"); vp_assert(!q.IsElf64File() && !w.IsElf64File(), "pseudo files"); ElfReader e("a.out");
  vp_assert(e.IsElf32File() == (magic && cls == 1 && dat == 1) && e.IsElf64File() == (magic && cls == 2 && dat == 1), "file identification");
  if (!e.IsElf32File() && !e.IsElf64File()) { vp_assert(e.GetSegmentInfo().empty() && e.VaddrOfFirstLoadSegment() == 0 && !e.IsDynamicSharedObject() && e.GetSectionIndexByType(1, 0) == -1 && !e.GetSectionName(0) && e.GetBuildId().empty(), "not an ELF file"); size_t z; vp_assert(!e.GetSectionByName(".text", &z) && !e.GetSectionByIndex(0, &z), "not an ELF file"); Sink s; e.VisitSymbols(&s); vp_assert(s.v.empty(), "no symbols"); }
  vp_observe("c", cls);
}
}
#define BOTH(f) extern "C" void elf_##f() { if (vp_cfg() & 1) f<A32>(vp_cfg()); else f<A64>(vp_cfg()); }
BOTH(sections) BOTH(symbols) BOTH(segments) BOTH(buildid)
extern "C" void elf_bad() { if (vp_cfg() & 1) bad<A32>(); else bad<A64>(); }
extern "C" void elf_names() {
  std::string a, b; int k = vp_choose(4, "shape"); int n = 3; a = k & 1 ? ".debug_" : "."; b = k & 2 ? ".zdebug_" : "."; std::string x = raw(n, "x"), y = raw(n, "y"); a += x; b += y;
  bool dz = a.rfind(".debug_", 0) == 0 && b.rfind(".zdebug_", 0) == 0; vp_assert(ElfReader::SectionNamesMatch(a, b) == (dz ? a.substr(7) == b.substr(8) : a == b), "compressed debug sections match their plain names"); vp_observe("k", k);
}
