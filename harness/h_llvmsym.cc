// D11: inline stacks from LLVM's debug information reader (a stand-in holding the units, tables and entries made up here).
#include <memory>
#include <string>
#include <vector>
#include "addr2line.h"
#include "llvm/Object/ELFObjectFile.h"
#include "elfgen.h"
#include "vp.h"
using namespace devtools_crosstool_autofdo;
using namespace elfgen;
using llvm::DWARFDebugLine;
namespace {
unsigned char* img; size_t imgn; bool there = true, module; std::string asked;
struct Buf : llvm::MemoryBuffer { Buf() { init((char*)img, (char*)img + imgn, false); } BufferKind getBufferKind() const override { return MemoryBuffer_Malloc; } llvm::StringRef getBufferIdentifier() const override { return module ? "m.ko" : "prog"; } };
struct Fr { const char* want; uint64_t start, cf, cl, cd; };
uint64_t some(int n, uint64_t v, const char* w) { int k = vp_choose(n + 1, w); if (k < n) return k; vp_assume(v >= (uint64_t)n); return v; }   // below n, or any other value
uint64_t where; int seen;   // the address asked for; how often a unit was asked
}
llvm::Expected<llvm::object::OwningBinary<llvm::object::ObjectFile>> llvm::object::ObjectFile::createObjectFile(llvm::StringRef n) {
  asked = std::string(n.data(), n.size()); if (!there) return llvm::errorCodeToError(std::make_error_code(std::errc::no_such_file_or_directory));
  auto b = std::make_unique<Buf>(); auto o = ELFObjectFile<ELF64LE>::create(llvm::MemoryBufferRef(llvm::StringRef((char*)img, imgn), module ? "m.ko" : "prog"), true); if (!o) return o.takeError();
  std::unique_ptr<ObjectFile> p = std::make_unique<ELFObjectFile<ELF64LE>>(std::move(*o)); return OwningBinary<ObjectFile>(std::move(p), std::move(b));
}
extern "C" void llvmstack() {
  int depth = 1 + vp_cfg() % 3, v = vp_cfg() / 3 % 2 ? 5 : 4; module = vp_cfg() / 6; there = vp_choose(4, "binary") != 0;
  Image<A64> im(module ? ET_REL : ET_EXEC, EM_X86_64); im.add("", SHT_NULL, ""); int order = there ? vp_choose(3, "sections") : 0, tx = -1; uint64_t ta = 0, tn = 8;   // .text second, first, or missing
  for (int i = 0; i < 2; i++) { bool t = order < 2 && i == order; int ix = im.add(t ? ".text" : i ? ".text.b" : ".init", SHT_PROGBITS, t ? "abcdefgh" : "ab"); auto& s = im.sh[ix]; s.sh_flags = SHF_ALLOC | SHF_EXECINSTR; s.sh_addr = (i ? 0x1000 : 0) + (t ? 0x40 : 0); if (t) { tx = ix; ta = s.sh_addr; } }
  imgn = im.finish(&img);
  auto* c = new llvm::DWARFContext; llvm::DWARFContext::next() = c; where = vp_any<uint64_t>("address"); vp_assume(where < (1ull << 48)); int hit = 0; bool table = true; if (there) { hit = vp_choose(4, "unit"); if (hit == 3) { hit = 1; table = false; } }   // neither, one of two, or one without lines
  bool go = hit && table; auto pick = [&](int n, const char* w) { return go ? vp_choose(n, w) : 0; };
  static const char* FN[] = {"_Zf", "_Zg", "_Zh"}; static const char* DN[] = {"d0", "d1", "d2"}; static const char* SN[] = {"a.cc", "b.h"};
  auto* lt = new DWARFDebugLine::LineTable; lt->Prologue.FormParams.Version = v; uint64_t dir[2]; for (auto* d : DN) lt->Prologue.IncludeDirectories.push_back(llvm::DWARFFormValue(d));
  for (int i = 0; i < 2; i++) { dir[i] = !go ? 1 : i ? (v == 5 ? 1 : 2) : some(4, vp_any<uint64_t>("directory"), "which directory"); DWARFDebugLine::FileNameEntry e; e.Name = llvm::DWARFFormValue(SN[i]); e.DirIdx = dir[i]; lt->Prologue.FileNames.push_back(e); }
  bool rows = go && vp_choose(2, "row"); int files = v == 5 ? 0 : 1; uint64_t rl[3], rd[3]; uint64_t rf[3]; int row = rows ? vp_choose(2, "which row") : 0;
  for (int i = 0; i < 2; i++) { DWARFDebugLine::Row r; r.Line = rl[i] = vp_any<uint32_t>("line"); r.Discriminator = rd[i] = vp_any<uint32_t>("discriminator"); r.File = rf[i] = i == row && rows ? some(3, vp_any<uint16_t>("file"), "which file") : 1; r.Column = 9; lt->Rows.push_back(r); }
  uint64_t wantSec = llvm::object::SectionedAddress::UndefSection; bool inText = tx >= 0 && vp_concretize((where >= ta) & (where < ta + tn)); if (module && inText) wantSec = tx;
  int looks = 0; lt->find = [&](llvm::object::SectionedAddress a) -> uint32_t { looks++; vp_assert(a.Address == where && a.SectionIndex == wantSec, "row looked up by address and section"); return rows ? row : -1u; };
  std::vector<std::unique_ptr<llvm::VpEntry>> es; std::vector<Fr> fr;
  for (int i = 0; i < depth; i++) { auto e = std::make_unique<llvm::VpEntry>(); e->name = "short"; e->linkage = FN[i]; Fr f; f.want = FN[i]; f.start = e->decl_line = vp_any<uint32_t>("start line"); f.cf = e->call_file = go && i + 1 < depth ? some(3, vp_any<uint32_t>("call file"), "which call file") : 1; f.cl = e->call_line = vp_any<uint32_t>("call line"); f.cd = e->call_disc = vp_any<uint32_t>("call discriminator"); fr.push_back(f); es.push_back(std::move(e)); }
  int off[2] = {0, 0x40}; if (pick(2, "offsets")) off[0] = 0x80; 
  for (int i = 0; i < 2; i++) { auto u = std::make_unique<llvm::DWARFCompileUnit>(); u->offset = off[i]; bool me = hit == i + 1; u->lines = me && table ? lt : nullptr; u->chain = [&, me](uint64_t a) { vp_assert(me && a == where, "chain of the unit of the address"); std::vector<const llvm::VpEntry*> r; for (auto& e : es) r.push_back(e.get()); return r; }; c->units.push_back(std::move(u)); }
  c->aranges.find = [&](uint64_t a) -> uint64_t { seen++; vp_assert(a == where, "unit found by address"); return hit ? off[hit - 1] : ~0ull; };
  std::unique_ptr<Addr2line> a(Addr2line::Create("the binary")); vp_assert(asked == "the binary" && (a != nullptr) == there, "binaries that cannot be read are refused"); vp_must_reach("refused"); vp_must_reach("stack"); vp_must_reach("empty"); if (!a) { vp_reach("refused"); return; }
  SourceStack s; a->GetInlineStack(where, &s); bool ok = hit && table; vp_assert(s.size() == (ok ? depth : 0u), "one entry per function"); vp_reach(ok ? "stack" : "empty");
  if (ok) {
    uint64_t f = rows ? rf[row] : ~0u, l = rows ? rl[row] : 0, d = rows ? rd[row] : 0;
    for (int i = 0; i < depth && i < (int)s.size(); i++) {
      vp_assert(std::string(s[i].func_name) == fr[i].want && s[i].start_line == fr[i].start, "function"); vp_assert(s[i].line == l && s[i].discriminator == d, "line and discriminator");
      int k = vp_concretize((f == (uint64_t)files)) ? 0 : vp_concretize(f == (uint64_t)files + 1) ? 1 : -1; bool known = k >= 0; vp_assert(s[i].file_name == (known ? SN[k] : ""), "file");
      int dk = -1; if (known) for (int j = 0; j < 4; j++) if (vp_concretize(dir[k] == (uint64_t)j)) dk = j;
      std::string dn = dk <= 0 ? "" : v == 5 ? dk < 3 ? DN[dk] : "" : DN[dk - 1]; vp_assert(s[i].dir_name == dn || (v == 5 && !dk && s[i].dir_name == DN[0]), "directory");
      f = fr[i].cf; l = fr[i].cl; d = fr[i].cd;
    }
  }
  vp_observe("frames", s.size());
}
