// G06/T01: reading and merging LLVM profiles. LLVM's file reader and writer are replaced by stand-ins.
#include "llvm_profile_reader.h"
#include "symref.h"
#include "llvmref.h"
#include "llvm/ProfileData/SampleProfReader.h"
#include "llvm/ProfileData/SampleProfWriter.h"
#include "llvm/Support/VirtualFileSystem.h"
#include "llvm/Support/raw_ostream.h"
using namespace rf;
namespace sp = llvm::sampleprof;
namespace {
uint64_t cnt(const char* n) { return vp_bytes(5, n); }
struct Prof { std::string file; sp::SampleProfileMap fs; sp::ProfileSymbolList syms; bool has = false, isfs = false; int create = 0, read = 0; };
Prof in[3]; int nin; int lastpass;
struct Rd : sp::SampleProfileReader {
  Prof& p; Rd(Prof& p, llvm::LLVMContext& c) : SampleProfileReader(nullptr, c, sp::SPF_Text), p(p) {}
  std::error_code readHeader() override { return {}; }
  std::error_code readImpl() override { if (p.read) return std::error_code(p.read, llvm::sampleprof_category()); Profiles = p.fs; if (p.isfs) sp::FunctionSamples::ProfileIsFS = true; return {}; }
  std::unique_ptr<sp::ProfileSymbolList> getProfileSymbolList() override { if (!p.has) return nullptr; auto l = std::make_unique<sp::ProfileSymbolList>(); l->merge(p.syms); return l; }
};
}
llvm::ErrorOr<std::unique_ptr<sp::SampleProfileReader>> sp::SampleProfileReader::create(llvm::StringRef f, llvm::LLVMContext& c, llvm::vfs::FileSystem&, FSDiscriminatorPass p, llvm::StringRef) {
  lastpass = (int)p;
  for (int i = 0; i < nin; i++) if (llvm::StringRef(in[i].file) == f && !in[i].create) return std::unique_ptr<sp::SampleProfileReader>(new Rd(in[i], c));
  return std::error_code(2, llvm::sampleprof_category());
}
namespace {
uint64_t offof(uint32_t l, uint32_t d) { return (uint64_t)l << 32 | d; }
// one sampled location, on both sides
void body(sp::FunctionSamples& s, Fn& f, uint32_t l, uint32_t d, uint64_t n) { s.addBodySamples(l, d, n); Pos& p = f.at(offof(l, d)); p.n += n; p.inst = 1; }
void target(sp::FunctionSamples& s, Fn& f, uint32_t l, uint32_t d, const char* t, const char* orig, uint64_t n) { s.addCalledTargetSamples(l, d, sp::FunctionId(llvm::StringRef(t)), n); f.at(offof(l, d)).inst = 1; f.tgt(offof(l, d), orig) += n; }
sp::FunctionSamples& inl(sp::FunctionSamples& s, uint32_t l, uint32_t d, const char* n) { sp::FunctionId id{llvm::StringRef(n)}; auto& r = s.functionSamplesAt(sp::LineLocation(l, d))[id]; r.setFunction(id); return r; }
uint64_t sum(Fn& f) { f.total = 0; for (auto& p : f.pos) f.total += p.n; for (auto& c : f.calls) f.total += sum(*c.f); return f.total; }
sp::FunctionSamples& top(Prof& p, const char* n) { sp::SampleContext c{llvm::StringRef(n)}; return p.fs.create(c); }
// the profile of a file enters the expected map
void take(Map& m, const char* name, Fn& f, uint64_t head, uint64_t tot) { sum(f); Fn& d = m.get(name); f.head = 0; d.add(f); d.head += head; if (d.total == 0) d.total += tot; }
}
// Reading up to two profiles into one symbol map.
extern "C" void reader() {
  int shape = vp_cfg(); static const char* FN[2][2] = {{"aa", "b"}, {"aa", "cc.llvm.5"}}; Map want; want.f.reserve(4); nin = 2;
  absl::node_hash_set<std::string> names; SymbolMap m; uint32_t l0 = vp_any<uint32_t>("line"), d0 = vp_any<uint32_t>("disc");
  for (int i = 0; i < 2; i++) {
    Prof& p = in[i]; p.file = i ? "two" : "one";
    for (int k = 0; k < 2; k++) {
      auto& s = top(p, FN[i][k]); Fn f; f.name = FN[i][k]; bool A = k == 0; uint64_t h = cnt("head"), t = vp_bytes(5, "total"); s.addHeadSamples(h); s.setTotalSamples(t);
      if (A) {
        uint32_t l = i ? vp_any<uint32_t>("line") : l0, d = i ? vp_any<uint32_t>("disc") : d0; body(s, f, l, d, cnt("count"));
        if (shape & 1) target(s, f, l, d, "zz", "zz", cnt("calls"));
        if (shape & 2) target(s, f, l, d, i ? "zz" : "q", i ? "zz" : "q", cnt("calls"));
        if (shape & 4) { auto& g = inl(s, l0, d0, "g"); Fn& G = f.call(offof(l0, d0), "g"); uint32_t gl = vp_any<uint32_t>("line"); body(g, G, gl, 1, cnt("count")); if (shape & 1) target(g, G, gl, 1, "q", "q", cnt("calls"));
          if (shape & 8) { auto& x = inl(g, 7, i, "x"); Fn& X = G.call(offof(7, i), "x"); body(x, X, 3, 0, cnt("count")); auto& y = inl(g, 7, i, "y"); Fn& Y = G.call(offof(7, i), "y"); body(y, Y, 4, 0, cnt("count")); } }
        if (shape & 16) { auto& g = inl(s, l0, d0, "h"); Fn& G = f.call(offof(l0, d0), "h"); body(g, G, 1, i, cnt("count")); body(s, f, 50, 60, cnt("count")); }
      } else if (i == 1) { body(s, f, 9, 9, cnt("count")); target(s, f, 9, 9, "t.llvm.12", "t", 5); }
      else if (shape & 8) body(s, f, vp_any<uint32_t>("line"), 2, cnt("count"));
      take(want, FN[i][k], f, h, t);
    }
    p.isfs = (shape & 1) && i == (shape >> 2 & 1); if (shape & 2) { p.has = true; p.syms.add(llvm::StringRef(i ? "s2" : "s1")); p.syms.add(llvm::StringRef("s0")); }
  }
  for (int i = 0; i < 2; i++) {
    LLVMProfileReader r(&m, names); absl::SetFlag(&FLAGS_use_base_only_in_fs_discriminator, i == 1); vp_assert(r.ReadFromFile(in[i].file), "a readable profile is read");
    vp_assert(lastpass == (int)(i ? sp::FSDiscriminatorPass::Base : sp::FSDiscriminatorPass::PassLast), "discriminator bits asked for"); vp_assert(r.ProfileIsFS() == in[i].isfs, "flow-sensitive profiles are told apart");
    auto* l = r.GetProfileSymbolList(); vp_assert((l != nullptr) == in[i].has, "symbol list"); if (l) vp_assert(l->size() == 2 && l->contains("s0") && l->contains(i ? "s2" : "s1"), "symbol list contents");
  }
  check(m, want, "profiles read add up"); vp_reach("end"); vp_must_reach("end");
}
// Unreadable profiles change nothing.
extern "C" void broken() {
  nin = 2; in[0].file = "one"; in[1].file = "two"; absl::node_hash_set<std::string> names; SymbolMap m; bool first = vp_choose(2, "first"); Map want; want.f.reserve(2);
  Fn f; auto& s = top(in[0], "aa"); body(s, f, 1, 2, 3); auto& t = top(in[1], "b"); Fn g; body(t, g, 1, 2, 4);
  if (first) { LLVMProfileReader r(&m, names); vp_assert(r.ReadFromFile("one"), "read"); take(want, "aa", f, 0, 0); }
  if (vp_choose(2, "how")) in[1].create = 1; else in[1].read = 1 + vp_choose(2, "error");
  LLVMProfileReader r(&m, names); vp_assert(!r.ReadFromFile("two"), "an unreadable profile is reported"); check(m, want, "an unreadable profile changes nothing"); vp_reach("end"); vp_must_reach("end");
}
// Symbols that are not to be merged: stripped, kept if only one profile has them, or kept as cold.
extern "C" void special() {
  static const char* SA[] = {"sa"}; static const char* SO[] = {"so", "sx"}; static const char* CO[] = {"co"}; SpecialSyms sy(SA, 1, SO, 2, CO, 1);
  static const char* N[] = {"sa", "sa1", "s", "so", "so.2", "xso", "co", "co9", "sx", "aa"}; absl::node_hash_set<std::string> names; SymbolMap m; Map want; want.f.reserve(8); nin = 3;
  int rounds = 3, per = 1; bool skip[10] = {}; int pair = vp_cfg();
  for (int i = 0; i < rounds; i++) {
    Prof& p = in[i]; p.file = i == 0 ? "one" : i == 1 ? "two" : "three";
    for (int k = 0; k < per + (i == 0); k++) {
      int w = k ? (pair + 3) % 10 : i == 0 ? pair : (int)vp_choose(3, "name") ? pair : (pair + (i == 1 ? 1 : 3)) % 10; uint64_t c = cnt("count"), h = cnt("head"); auto& s = top(p, N[w]); s.addHeadSamples(h); Fn f; body(s, f, 1, 2, c);
      std::string n = N[w]; auto pre = [&](const char* x) { return n.compare(0, 2, x) == 0; };
      if (skip[w] || pre("sa")) continue;
      if (pre("so") || pre("sx")) { if (Fn* g = want.find(n)) { g->total = g->head = 0; skip[w] = true; continue; } }
      else if (pre("co")) { want.get(n).total = 11; skip[w] = true; continue; }
      take(want, N[w], f, h, 0);
    }
  }
  for (int i = 0; i < rounds; i++) { LLVMProfileReader r(&m, names, &sy); vp_assert(r.ReadFromFile(in[i].file), "read"); }
  // a dropped symbol has no samples left: writers leave it out
  vp_assert(m.map().size() == want.f.size(), "symbols");
  for (auto& f : want.f) { const Symbol* s = m.GetSymbolByName(f.name); vp_assert(s != nullptr, "symbol"); if (!s) continue; vp_assert(s->total_count == f.total && s->head_count == f.head, "special symbols"); if (f.total != 0) check(*s, f, "special symbols"); }
  vp_reach("end"); vp_must_reach("end");
}
