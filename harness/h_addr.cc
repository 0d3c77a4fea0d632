// M07: the address side of the symbol map, read from an ELF image.
#include "symref.h"
#include "elfgen.h"
#include <set>
using namespace elfgen;
namespace {
// name, type, is it a function as far as the profile is concerned
struct Kind { const char* n; int type; bool fn; };
const Kind K[] = {{"f", STT_FUNC, true}, {"g", STT_FUNC, true}, {"d.cold", STT_OBJECT, true}, {"e.__part.31", STT_NOTYPE, true}, {"h@plt", STT_FUNC, false}, {"v", STT_OBJECT, false}, {"e.__part.3x", STT_OBJECT, false}, {"__llvm_fs_discriminator__", STT_OBJECT, true}, {"t", STT_FUNC, true}};
struct S { const Kind* k; uint64_t a, s; };
struct Bin { Image<A64> im; std::vector<S> v; Bin(int type = ET_EXEC) : im(type, EM_X86_64) { im.add("", SHT_NULL, ""); }
  void syms(bool zero) { std::string b; Str st; Elf64_Sym z{}; put(b, z); st.add("xx@plt"); for (auto& s : v) { Elf64_Sym y{}; y.st_name = s.k->n[0] == 't' ? 6 : st.add(s.k->n); y.st_value = s.a; y.st_size = s.s; y.st_info = 16 + s.k->type; y.st_shndx = 1; put(b, y); } (void)zero;
    int ix = im.add(".symtab", SHT_SYMTAB, b); im.sh[ix].sh_entsize = sizeof z; im.sh[ix].sh_link = ix + 1; im.add(".strtab", SHT_STRTAB, st.s); }
  void seg(uint32_t t, uint32_t fl, uint64_t off, uint64_t va) { Elf64_Phdr p{}; p.p_type = t; p.p_flags = fl; p.p_offset = off; p.p_vaddr = va; im.ph.push_back(p); }
  void done(const char* n) { unsigned char* d; size_t sz = im.finish(&d); vpe::add(n, d, sz); } };
}
// looking up any address, the names at an address, and which symbols count as functions
extern "C" void lookup() {
  Bin b; int n = 3; int k0 = vp_cfg() % 10;
  for (int i = 0; i < n; i++) { S s; s.k = &K[i == 0 && k0 < 9 ? k0 : (int)vp_choose(i == 1 && vp_tier() ? 9 : 2, "kind")]; s.a = vp_any<uint64_t>("address"); s.s = vp_any<uint64_t>("size"); vp_assume(s.a <= s.a + s.s); b.v.push_back(s); }
  b.syms(true); b.done("a.out"); SymbolMap m("a.out"); std::vector<S> fn; std::vector<std::pair<std::string, std::string>> al;
  for (auto& s : b.v) { bool fs = s.k == &K[7]; if (!s.k->fn || (s.s == 0 && !fs)) continue; bool dup = false; for (auto& o : fn) if (o.a == s.a) { dup = true; al.push_back({o.k->n, s.k->n}); break; } if (!dup) fn.push_back(s); }
  uint64_t q = vp_any<uint64_t>("query"); const std::string* nm = nullptr; uint64_t lo = 1, hi = 2; bool got = m.GetSymbolInfoByAddr(q, &nm, &lo, &hi); const S* best = nullptr; for (auto& s : fn) if (s.a <= q && (!best || s.a > best->a)) best = &s; bool want = best && q < best->a + best->s;
  vp_assert(got == want, "an address belongs to the function that covers it"); if (got && want) vp_assert(*nm == best->k->n && lo == best->a && hi == best->a + best->s, "function at an address"); if (!got) vp_assert(lo == 1 && hi == 2 && !nm, "no function, nothing reported");
  vp_assert(m.GetSymbolInfoByAddr(q, nullptr, nullptr, nullptr) == want, "outputs are optional");
  const std::string* st = m.GetSymbolNameByStartAddr(q); const S* at = nullptr; for (auto& s : fn) if (s.a == q) at = &s; vp_assert((st != nullptr) == (at != nullptr) && (!st || *st == at->k->n), "function starting at an address");
  auto& na = m.GetNameAddrMap(); for (auto& s : fn) { uint64_t hiA = s.a; for (auto& o : fn) if (o.k == s.k && o.a > hiA) hiA = o.a; auto it = na.find(s.k->n); vp_assert(it != na.end() && it->second == hiA, "address of a function"); }
  size_t names = 0; for (size_t i = 0; i < fn.size(); i++) { bool first = true; for (size_t j = 0; j < i; j++) first &= fn[j].k != fn[i].k; names += first; } vp_assert(na.size() == names, "only functions have addresses");
  for (auto& s : fn) m.AddSymbol(s.k->n);
  for (auto& a : al) vp_assert(m.GetSymbolByName(a.second) && (a.first == a.second || m.GetSymbolByName(a.first)), "aliases are known");
  for (size_t i = 0; i < al.size(); i++) { bool unique = true; for (auto& s : fn) unique &= s.k->n != al[i].second; if (unique) { int c = 0; for (auto& x : al) c += x.second == al[i].second; if (c == 1) vp_assert(m.GetSymbolByName(al[i].first) == m.GetSymbolByName(al[i].second), "aliases share the profile"); } }
  vp_reach(got ? "found" : "none"); if (K[k0 % 9].fn) vp_must_reach("found"); vp_must_reach("none"); vp_observe("got", got);
}
// file offsets and addresses of the loaded segments
extern "C" void translate() {
  Bin b; int cfg = vp_cfg(); bool kernel = cfg & 1, ko = cfg & 2; struct G { uint64_t o, v, n; }; std::vector<G> g;
  if (ko) { int t = b.im.add(".text", SHT_PROGBITS, "abcd"); b.im.sh[t].sh_addr = vp_any<uint32_t>("addr"); b.done("m.ko"); SymbolMap m("m.ko"); m.ReadLoadableExecSegmentInfo(kernel); uint64_t q = vp_any<uint32_t>("offset"); vp_assume(q >= b.im.sh[t].sh_offset); vp_assume(b.im.sh[t].sh_addr % 16 == 0); uint64_t va = m.get_static_vaddr(q); vp_assert(va == b.im.sh[t].sh_addr + q - b.im.sh[t].sh_offset, "address of a module offset"); vp_assert(m.GetFileOffsetFromStaticVaddr(va) == q, "offset of a module address"); return; }
  // where a segment is loaded relative to its place in the file, never decreasing
  static const uint64_t D[] = {(uint64_t)-0x1000, 0, 0x1000, 0x400000, 0xffff000000000000};
  uint64_t end = 0x2000; int n = 3 + vp_tier(), dk = vp_choose(5, "displacement");
  for (int i = 0; i < n; i++) {
    uint64_t oo = i == 0 && kernel ? 0x2000 + 0x1000 * vp_choose(2, "first") : vp_bytes(6, "offset"), e = vp_bytes(6, "end"); vp_assume(oo >= end && e > oo); end = e; int k = vp_choose(3, "kind"); if (i && dk < 4) dk += vp_choose(2, "displacement");
    b.seg(k == 2 ? PT_NOTE : PT_LOAD, k == 0 ? PF_R | PF_X : k == 1 ? PF_R | PF_W : PF_R | PF_X, oo, oo + D[dk]); if (k == 0) g.push_back({oo, oo + D[dk], e});
  }
  b.done("a.out"); SymbolMap m("a.out"); m.ReadLoadableExecSegmentInfo(kernel); if (g.empty()) return; uint64_t base = kernel ? g[0].o : 0;  int s = vp_choose(g.size(), "segment"); uint64_t q = vp_bytes(6, "place"); vp_assume(q >= g[s].o && q < g[s].n);
  uint64_t off = q - base, va = g[s].v - g[s].o + q;
  vp_assert(m.get_static_vaddr(off) == va, "address of a file offset"); vp_assert(m.GetFileOffsetFromStaticVaddr(va) == off, "file offset of an address");
  vp_observe("va", va);
}
// which functions count as sampled
extern "C" void sampled() {
  Bin b; int n = 3; uint64_t E[3]; for (int i = 0; i < n; i++) { S s; s.k = &K[i]; s.a = vp_bytes(6, "address"); uint64_t e = vp_bytes(6, "end"); vp_assume(e > s.a); s.s = e - s.a; if (i) vp_assume(s.a >= E[i - 1]); E[i] = e; b.v.push_back(s); }
  b.syms(false); uint64_t so = 0x2000 + vp_bytes(5, "offset"), sv = so + (const uint64_t[]){0, 0x1000, (uint64_t)-0x2000}[vp_choose(3, "displacement")]; b.seg(PT_LOAD, PF_R, 0, 0); b.seg(PT_LOAD, PF_R | PF_X, so, sv); b.done("a.out"); SymbolMap m("a.out"); m.ReadLoadableExecSegmentInfo(false);
  std::set<uint64_t> q; for (int i = 0; i < 2; i++) { uint64_t x = vp_bytes(6, "sample"); vp_assume(x >= so); vp_assume(x > 0x2000); q.insert(x); }
  int c = vp_choose(4, "counted"); bool hot[3] = {}; for (int i = 0; i < 3; i++) { if (c == i) { m.AddSymbol(K[i].n); m.AddSymbolEntryCount(K[i].n, 0, vp_choose(2, "zero")); hot[i] = m.GetSymbolByName(K[i].n)->total_count > 0; } }
  auto r = m.GetSampledSymbolStartAddressSizeMap(q); size_t want = 0;
  for (int i = 0; i < n; i++) { bool in = hot[i], near = hot[i]; for (uint64_t x : q) { uint64_t a = x + (sv - so); in |= a >= b.v[i].a && a < E[i]; near |= a >= b.v[i].a && (i + 1 == n || a < b.v[i + 1].a); } auto it = r.find(b.v[i].a); bool got = it != r.end(); want += got; if (in) vp_assert(got, "a function with samples is reported"); if (!near) vp_assert(!got, "a function without samples is not"); if (got) vp_assert(it->second == b.v[i].s, "function size"); }
  vp_assert(r.size() == want, "only functions are reported"); vp_observe("n", want);
}
