// P12: what is read from the profiled binary: build identifier, executable segments, kernel module data.
#include <memory>
#include <string>
#include <vector>
#include "llvm_propeller_binary_content.h"
#include "addr2cu.h"
#include "llvm/Object/ELFObjectFile.h"
#include "llvm/Support/FileSystem.h"
#include "elfgen.h"
#include "vp.h"
using namespace devtools_crosstool_autofdo;
using namespace elfgen;
namespace { unsigned char* img; size_t imgn; bool fileThere = true, dwpThere; std::string asked, dwpAsked, dwpGiven; int dwarf; 
struct Buf : llvm::MemoryBuffer { Buf() { init((char*)img, (char*)img + imgn, false); } BufferKind getBufferKind() const override { return MemoryBuffer_Malloc; } llvm::StringRef getBufferIdentifier() const override { return "mem"; } };
}
// The file system and LLVM's choice of an object reader.
llvm::ErrorOr<std::unique_ptr<llvm::MemoryBuffer>> llvm::MemoryBuffer::getFile(const llvm::Twine& n, bool, bool, bool, std::optional<llvm::Align>) { llvm::SmallString<32> b; asked = n.toStringRef(b).str(); if (!fileThere) return std::make_error_code(std::errc::no_such_file_or_directory); return std::unique_ptr<llvm::MemoryBuffer>(new Buf); }
std::error_code llvm::sys::fs::access(const llvm::Twine& n, AccessMode) { llvm::SmallString<32> b; dwpAsked = n.toStringRef(b).str(); return dwpThere ? std::error_code() : std::make_error_code(std::errc::no_such_file_or_directory); }
namespace { template <class T> llvm::Expected<std::unique_ptr<llvm::object::ObjectFile>> mk(llvm::MemoryBufferRef r) { auto o = llvm::object::ELFObjectFile<T>::create(r, false); if (!o) return o.takeError(); return std::make_unique<llvm::object::ELFObjectFile<T>>(std::move(*o)); } }
llvm::Expected<std::unique_ptr<llvm::object::ObjectFile>> llvm::object::ObjectFile::createELFObjectFile(llvm::MemoryBufferRef r, bool) { return r.getBufferStart()[4] == 1 ? mk<llvm::object::ELF32LE>(r) : mk<llvm::object::ELF64LE>(r); }
namespace devtools_crosstool_autofdo {
absl::StatusOr<std::unique_ptr<llvm::DWARFContext>> CreateDWARFContext(const llvm::object::ObjectFile&, absl::string_view d) { dwarf++; dwpGiven = std::string(d); return absl::FailedPreconditionError("no units"); }
}
namespace {
bool parse(const std::string& s, std::vector<std::pair<std::string, std::string>>& kv) {   // keys and values; false when malformed
  size_t i = 0; if (s.empty() || s[0] == 0 || s[s.size() - 1] != 0) return false;
  while (i < s.size()) {
    size_t e = i; while (s[e]) e++; size_t q = i; while (q < e && s[q] != '=') q++; if (q == e || q == i) return false;
    std::string k = s.substr(i, q - i); bool dup = false; for (auto& x : kv) dup |= x.first == k; if (!dup) kv.push_back({k, s.substr(q + 1, e - q - 1)});
    for (i = e; i < s.size() && !s[i];) i++;
  }
  return true;
}
template <class M> void same(const M& m, std::vector<std::pair<std::string, std::string>>& kv) { vp_assert(m.size() == kv.size(), "number of module properties"); for (auto& x : kv) { auto i = m.find(x.first); vp_assert(i != m.end() && i->second == x.second, "module property"); } }
}
extern "C" void modinfo() {
  int n = vp_cfg(); std::string s; for (int i = 0; i < n; i++) { static const char A[] = {0, '=', 'k', 'n'}; int k = vp_choose(4, "byte"); s.push_back(k == 2 ? (char)vp_any<unsigned char>("letter") : A[k]); if (k == 2) vp_assume(s.back() != 0 && s.back() != '='); }
  std::vector<std::pair<std::string, std::string>> kv; bool ok = parse(s, kv); char* d = (char*)malloc(n + 1); memcpy(d, s.data(), n); auto got = ELFFileUtilBase::ParseModInfoSectionContent(absl::string_view(d, n));
  vp_assert(got.ok() == ok, "malformed module data is refused"); if (ok) same(*got, kv); vp_observe("pairs", kv.size()); vp_reach(ok ? "ok" : "bad"); if (n > 2) vp_must_reach("ok"); vp_must_reach("bad");
}
namespace {
std::string note(const char* name, int type, const std::string& desc) { std::string r; uint32_t v[3] = {(uint32_t)strlen(name) + 1, (uint32_t)desc.size(), (uint32_t)type}; for (auto x : v) put(r, x); r += name; r.push_back(0); while (r.size() % 4) r.push_back(0); r += desc; while (r.size() % 4) r.push_back(0); return r; }
std::string hex(const std::string& d) { std::string r; for (unsigned char c : d) for (int n : {c >> 4, c & 15}) r.push_back((char)(n < 10 ? '0' + n : 'a' + n - 10)); return r; }
template <class A> void run(int kind) {
  // kinds: 0 executable, 1 shared or PIE, 2 kernel module, 3 other relocatable object, 4 missing file
  Image<A> im(kind == 1 ? ET_DYN : kind == 2 || kind == 3 ? ET_REL : ET_EXEC, A::cls == ELFCLASS32 ? EM_386 : EM_X86_64); im.add("", SHT_NULL, "");
  auto sym = [&](const char* w) { return A::cls == ELFCLASS32 ? vp_any<uint32_t>(w) : vp_any<uint64_t>(w); };
  std::vector<BinaryContent::Segment> want; int text = -1;
  if (kind < 2) for (int i = 0; i < 3; i++) { typename A::Phdr p{}; p.p_type = i == 2 ? vp_any<uint32_t>("type") : vp_choose(2, "loadable") ? PT_LOAD : PT_NOTE; p.p_flags = vp_any<uint32_t>("flags"); p.p_offset = sym("offset"); p.p_vaddr = sym("address"); p.p_memsz = sym("memory size"); p.p_filesz = vp_bytes(2, "file size"); p.p_paddr = 77; im.ph.push_back(p); bool x = (p.p_type == PT_LOAD) & ((p.p_flags & PF_X) != 0); if (vp_concretize(x)) want.push_back({p.p_offset, p.p_vaddr, p.p_memsz}); }
  // sections named like a text section, in any order and with any flags
  int order = vp_choose(3, "sections");
  for (int i = 0; i < 2; i++) { int ix = im.add(i == (order & 1) ? ".text" : ".init", SHT_PROGBITS, i ? "abcdefgh" : "ab"); auto& s = im.sh[ix]; s.sh_flags = order == 2 ? SHF_ALLOC : vp_any<uint8_t>("section flags"); s.sh_addr = sym("section address"); bool x = (s.sh_flags & (SHF_ALLOC | SHF_EXECINSTR)) == (SHF_ALLOC | SHF_EXECINSTR); if (i == (order & 1) && kind == 2 && vp_concretize(x)) text = ix; }
  // build identifiers
  std::string id; for (int i = 0; i < 3; i++) id.push_back((char)vp_any<unsigned char>("id")); int ids = vp_choose(7, "build id"), al = "\0\1\4"[vp_choose(3, "alignment")]; std::string wantId; int first = im.sh.size();
  if (ids == 1 || ids == 2) { im.add(ids == 1 ? ".note.gnu.build-id" : ".notes", SHT_NOTE, note("XYZ", 1, "abcd") + note("GNU", 3, id)); wantId = hex(id); }
  if (ids == 3) im.add(".note.ABI-tag", SHT_NOTE, note("GNU", 3, id));
  if (ids == 4) im.add(".note.gnu.build-id", SHT_PROGBITS, note("GNU", 3, id));
  if (ids == 5) { im.add(".notes", SHT_NOTE, note("GNU", 3, id)); im.add(".note.gnu.build-id", SHT_NOTE, note("GNU", 3, "zz")); wantId = hex(id); }
  if (ids == 6) { im.add(".notes", SHT_NOTE, note("GNU", 5, "prop") + note("GNU", 3, id)); wantId = hex(id); }
  for (size_t i = first; i < im.sh.size(); i++) im.sh[i].sh_addralign = al;
  bool once = kind == 2 ? vp_choose(2, "module section") : false, minfo = kind == 2 && vp_choose(2, "module data"); std::string mi("name=m"); mi.push_back(0); mi += "v"; mi.push_back((char)vp_any<unsigned char>("byte")); mi += "1"; mi.push_back(0); std::vector<std::pair<std::string, std::string>> kv; bool mok = parse(mi, kv);
  if (once) im.add(".gnu.linkonce.this_module", SHT_PROGBITS, "m"); if (minfo) im.add(".modinfo", SHT_PROGBITS, mi);
  imgn = im.finish(&img); for (size_t i = 0; i < im.sh.size(); i++) if (text == (int)i) want.push_back({im.sh[i].sh_offset, im.sh[i].sh_addr, im.sh[i].sh_size});
  fileThere = kind != 4; dwpThere = vp_choose(2, "dwp file"); const char* nm = kind == 2 ? "m.ko" : kind == 3 ? "m.o" : "a.out";
  auto got = GetBinaryContent(nm); bool ok = kind < 2 ? !want.empty() : kind == 2 ? once && minfo && mok && text >= 0 : false;
  vp_assert(got.ok() == ok, "binaries without executable code are refused"); vp_assert(asked == nm, "file read");
  if (ok) {
    BinaryContent& b = **got; vp_assert(b.file_name == nm && b.is_pie == (kind == 1) && b.is_relocatable == (kind == 2), "kind of the binary"); vp_assert(b.build_id == wantId, "build identifier");
    vp_assert(dwarf == 1 && dwpAsked == std::string(nm) + ".dwp" && b.dwp_file_name == (dwpThere ? std::string(nm) + ".dwp" : "") && dwpGiven == b.dwp_file_name && !b.dwarf_context, "debug package");
    vp_assert(b.segments.size() == want.size(), "executable segments"); for (size_t i = 0; i < want.size() && i < b.segments.size(); i++) vp_assert(b.segments[i].offset == want[i].offset && b.segments[i].vaddr == want[i].vaddr && b.segments[i].memsz == want[i].memsz, "extent of a segment");
    vp_assert(b.kernel_module.has_value() == (kind == 2), "module"); if (kind == 2) { vp_assert(b.kernel_module->text_section_index == text, "text section of a module"); same(b.kernel_module->modinfo, kv); }
    vp_observe("segments", want.size());
  }
  vp_reach(ok ? "ok" : "refused"); if (kind < 3) vp_must_reach("ok"); vp_must_reach("refused");
}
}
extern "C" void binary() { int k = vp_cfg() % 10; if (vp_cfg() / 10) run<A32>(k); else run<A64>(k); }
