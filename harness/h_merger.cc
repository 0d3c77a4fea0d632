// T01: the profile merging tool as a whole.
#include "profile_writer.h"
#include "profile_reader.h"
#define main merger_main
#include "profile_merger.cc"
#undef main
#include "h_merge.cc"
namespace {
// what the tool hands to LLVM's profile writer
struct Out { int format = -1; std::string file; int made = 0, written = 0; bool compress = false, md5 = false, partial = false, split = false, fs = false; sp::ProfileSymbolList* list = nullptr; Map keep; std::vector<std::string> syms; bool fail = false; } out;
// a copy that outlives the tool's strings
void grab(Fn& d, const sp::FunctionSamples& s) {
  d.name = s.getFunction().str(); d.total = s.getTotalSamples(); d.head = s.getHeadSamples();
  for (auto& p : s.getBodySamples()) { uint64_t o = (uint64_t)p.first.LineOffset << 32 | p.first.Discriminator; d.at(o).n = p.second.getSamples(); for (auto& t : p.second.getCallTargets()) d.tgt(o, t.first.str()) = t.second; }
  for (auto& p : s.getCallsiteSamples()) for (auto& t : p.second) grab(d.call((uint64_t)p.first.LineOffset << 32 | p.first.Discriminator, t.first.str()), t.second);
}
void grab(Map& d, const sp::SampleProfileMap& m) { d.f.reserve(8); for (auto& p : m) grab(d.get(p.second.getFunction().str()), p.second); }
void equal(const Fn& a, Fn& b, bool top, const char* what) {
  vp_assert(a.total == b.total && (!top || a.head == b.head) && a.pos.size() == b.pos.size() && a.calls.size() == b.calls.size(), what);
  for (auto& p : a.pos) { bool hit = false; for (auto& q : b.pos) if (p.off == q.off) { hit = true; vp_assert(p.n == q.n && p.t.size() == q.t.size(), what); for (auto& t : p.t) { bool h = false; for (auto& u : q.t) if (u.name == t.name) { h = true; vp_assert(u.n == t.n, what); } vp_assert(h, what); } } vp_assert(hit, what); }
  for (auto& c : a.calls) { bool hit = false; for (auto& k : b.calls) if (k.off == c.off && k.name == c.name) { hit = true; equal(*c.f, *k.f, false, what); } vp_assert(hit, what); }
}
struct Null : llvm::raw_ostream { Null() : raw_ostream(true) {} void write_impl(const char*, size_t) override {} uint64_t current_pos() const override { return 0; } };
struct Wr : sp::SampleProfileWriter {
  Wr(std::unique_ptr<llvm::raw_ostream>& o) : SampleProfileWriter(o) {}
  std::error_code writeSample(const sp::FunctionSamples&) override { return {}; }
  std::error_code writeHeader(const sp::SampleProfileMap&) override { return {}; }
  std::error_code write(const sp::SampleProfileMap& m) override { out.written++; grab(out.keep, m); out.fs = sp::FunctionSamples::ProfileIsFS; if (out.list) for (const char* s : {"s0", "s1", "s2"}) if (out.list->contains(s)) out.syms.push_back(s); return {}; }
  void setProfileSymbolList(sp::ProfileSymbolList* l) override { out.list = l; }
  void setToCompressAllSections() override { out.compress = true; } void setUseMD5() override { out.md5 = true; } void setPartialProfile() override { out.partial = true; } void setUseCtxSplitLayout() override { out.split = true; }
};
}
llvm::ErrorOr<std::unique_ptr<sp::SampleProfileWriter>> sp::SampleProfileWriter::create(llvm::StringRef f, sp::SampleProfileFormat format) {
  out.made++; out.format = format; out.file = f.str(); if (out.fail) return std::error_code(2, llvm::sampleprof_category());
  std::unique_ptr<llvm::raw_ostream> o(new Null); return std::unique_ptr<sp::SampleProfileWriter>(new Wr(o));
}
namespace {
int run(std::vector<const char*> files) { std::vector<char*> a{(char*)"merger"}; for (auto f : files) a.push_back((char*)f); return merger_main((int)a.size(), a.data()); }
uint64_t small(const char* n) { return vp_bytes(2, n); }
// function aa of one input: own samples, two inlined calls at one place, one of them with a nested one, three call targets
void fill(Prof& p, Fn& f, int i, bool x, bool few, uint64_t& head) {
  auto& s = top(p, "aa"); f.name = "aa"; head = small("head"); s.addHeadSamples(head); uint32_t l = few ? 1 : vp_bytes(2, "line"); body(s, f, l, 0, few ? 20 + i : small("count"));
  auto& g = inl(s, 2, 0, "g"); Fn& G = f.call(offof(2, 0), "g"); body(g, G, 1, 1, small("count"));
  if (x) { auto& y = inl(g, 3, i, "x"); Fn& X = G.call(offof(3, i), "x"); body(y, X, 1, 2, small("count")); }
  auto& h = inl(s, 2, 0, "h"); Fn& H = f.call(offof(2, 0), "h"); body(h, H, 1, 2, few && !i ? 3 : small("count"));
  static const char* T[] = {"t1", "t2", "t3"}; for (int k = 0; k < 2; k++) target(s, f, 5, 0, T[(k + i) % 3], T[(k + i) % 3], few && i ? 40 + k : small("calls"));
}
}
// Two LLVM profiles, merged with the tool's options.
extern "C" void llvmmerge() {
  int c = vp_cfg(); Map want; want.f.reserve(6); nin = 2; absl::SetFlag(&FLAGS_is_llvm, true); absl::SetFlag(&FLAGS_output_file, std::string("merged"));
  bool nest = c == 2 || c == 5 || c == 8, strip = c == 2 || c == 5 || c == 9, cut = c == 3 || c == 5, trim = c == 4 || c == 5 || c == 8, spec = c == 6;
  for (int i = 0; i < 2; i++) {
    Prof& p = in[i]; p.file = i ? "two" : "one"; Fn f; uint64_t h; fill(p, f, i, nest, c == 5 || c == 8, h); take(want, "aa", f, h, 0);
    const char* nm = spec ? "_GLOBAL__sub_I_a" : i ? "x" : "b"; Fn g; g.name = nm; auto& s = top(p, nm); uint64_t k = small("count"); body(s, g, 1, 1, k); if (!spec) take(want, nm, g, 0, 0); else if (i == 0) want.get(nm).total = 11;
    p.isfs = c == 7 && i == 0; if (c == 1 || c == 7) { p.has = true; p.syms.add(llvm::StringRef(i ? "s2" : "s1")); p.syms.add(llvm::StringRef("s0")); }
  }
  static const char* FORMAT[] = {"text", "extbinary", "binary", "text", "binary", "extbinary", "text", "binary", "text", "text"}; static const int FV[] = {sp::SPF_Text, sp::SPF_Ext_Binary, sp::SPF_Binary, sp::SPF_Text, sp::SPF_Binary, sp::SPF_Ext_Binary, sp::SPF_Text, sp::SPF_Binary, sp::SPF_Text, sp::SPF_Text};
  absl::SetFlag(&FLAGS_format, std::string(FORMAT[c])); bool fl[4] = {}; if (c == 1) { for (auto& b : fl) b = vp_choose(2, "flag"); absl::SetFlag(&FLAGS_compress, fl[0]); absl::SetFlag(&FLAGS_use_md5, fl[1]); absl::SetFlag(&FLAGS_partial_profile, fl[2]); absl::SetFlag(&FLAGS_split_layout, fl[3]); }
  if (c == 1 || c == 7) absl::SetFlag(&FLAGS_include_symbol_list, true); if (spec) absl::SetFlag(&FLAGS_merge_special_syms, false);
  if (nest) absl::SetFlag(&FLAGS_max_inline_callsite_nesting_level, 1); if (strip) absl::SetFlag(&FLAGS_strip_symbols_regex, std::string("x")); if (cut) absl::SetFlag(&FLAGS_inline_instances_at_same_loc_cutoff, 1); if (trim) absl::SetFlag(&FLAGS_max_call_targets, 1);
  vp_assert(run({"one", "two"}) == 0, "merged"); vp_assert(out.made == 1 && out.written == 1 && out.file == "merged" && out.format == FV[c], "one profile of the requested format in the requested file");
  vp_assert(out.compress == fl[0] && out.md5 == fl[1] && out.partial == fl[2] && out.split == fl[3], "options of the file"); vp_assert(out.syms.size() == (c == 1 ? 3 : 0), "merged symbol list"); vp_assert(out.fs == (c == 7), "flow-sensitive if any input is");
  if (!nest && !strip && !cut && !trim) {
    size_t n = 0; for (auto& F : want.f) { bool emit = F.total > 10; Fn* it = out.keep.find(F.name); vp_assert((it != nullptr) == emit, "the functions above the threshold"); if (!it) continue; n++; Fn w; fold(w, F); equal(w, *it, true, "merged profile"); }
    vp_assert(out.keep.f.size() == n, "number of functions"); vp_reach(n == want.f.size() ? "all" : "some");
  } else {
    // the transformations, in the order the tool documents, on the sum of the inputs
    absl::node_hash_set<std::string> names; SymbolMap m; for (int i = 0; i < 2; i++) { LLVMProfileReader r(&m, names); r.ReadFromFile(in[i].file); } m.CalculateThreshold();
    if (nest) m.FlattenNestedInlineCallsites(1); if (strip) m.RemoveSymsMatchingRegex("x"); if (cut) m.throttleInlineInstancesAtSameLocation(1); if (trim) m.TrimCallTargets(1);
    StringIndexMap nm; FileIndexMap files; StringTableUpdater::Update(m, &nm, &files); LLVMProfileBuilder b(nm); Map e; grab(e, b.ConvertProfiles(m));
    vp_assert(e.f.size() == out.keep.f.size(), "functions left"); for (auto& p : e.f) { Fn* it = out.keep.find(p.name); vp_assert(it != nullptr, "function left"); if (it) equal(p, *it, true, "transformed profile"); }
    if (strip) vp_assert(out.keep.find("x") == nullptr, "stripped, even where flattening made it");
    vp_reach("all");
  }
  vp_must_reach("all");
}
// Combinations that are refused: nothing is written.
extern "C" void refuse() {
  int c = vp_cfg(); nin = 2; absl::SetFlag(&FLAGS_is_llvm, true); for (int i = 0; i < 2; i++) { in[i].file = i ? "two" : "one"; Fn f; body(top(in[i], "aa"), f, 1, 2, small("count")); }
  static const char* F[] = {"text", "binary"}; absl::SetFlag(&FLAGS_format, std::string(F[vp_choose(2, "format")]));
  if (c == 0) absl::SetFlag(&FLAGS_compress, true); if (c == 1) absl::SetFlag(&FLAGS_use_md5, true); if (c == 2) absl::SetFlag(&FLAGS_partial_profile, true); if (c == 3) absl::SetFlag(&FLAGS_split_layout, true); if (c == 4) absl::SetFlag(&FLAGS_format, std::string("bin")); if (c == 5) out.fail = true;
  if (c == 6) { (vp_choose(2, "which") ? in[1] : in[0]).create = 1; vp_expect_fatal(1); }
  int r = run({"one", "two"}); vp_assert(c != 6, "an unreadable input is fatal"); vp_assert(r == 1 && out.written == 0, "refused"); vp_reach("end"); vp_must_reach("end");
}
// Two or three AutoFDO profiles.
extern "C" void gcovmerge() {
  int c = vp_cfg(); absl::SetFlag(&FLAGS_gcov_version, (uint64_t)(1 + c % 2)); absl::SetFlag(&FLAGS_output_file, std::string("merged")); int nf = (c & 2) ? 3 : 2; Map want; want.f.reserve(4); static const char* FILES[] = {"one", "two", "three"}; static const char* OTHER[] = {"b", "cc", "b"};
  for (int i = 0; i < nf; i++) {
    SymbolMap m; for (int k = 0; k < 2; k++) {
      const char* nm = k ? OTHER[i] : "aa"; m.AddSymbol(nm); Fn f; f.name = nm; uint64_t h = small("head"); m.AddSymbolEntryCount(nm, h);
      for (int q = 0; q < (k ? 1 : 2); q++) {
        int depth = k ? 1 : q ? 2 : 1 + (c >> 2 & 1); SourceStack st; Fn* g = &f;
        for (int d = 0; d < depth; d++) { uint32_t l = k == 0 && d == 0 && q == 0 ? (uint32_t)vp_bytes(2, "line") : 4 + q; st.push_back(SourceInfo(d == depth - 1 ? nm : "in", "", "", 0, l, d)); }
        uint64_t n = small("count"); m.AddSourceCount(nm, st, n, 1, 1, SymbolMap::AFDOPROFILE); auto off = [&](const SourceInfo& s) { return offof(s.line, s.discriminator); };
        for (int d = depth - 1; d > 0; d--) g = &g->call(off(st[d]), st[d - 1].func_name); Pos& p = g->at(off(st[0])); p.n += n; p.inst = 1;
        if (q || k) { uint64_t t = small("calls"); const char* tn = i == 2 ? "aa" : "t"; m.AddIndirectCallTarget(nm, st, tn, t, SymbolMap::AFDOPROFILE); g->tgt(off(st[0]), tn) = t; }
      }
      if (sum(f) > 0) take(want, nm, f, h, 0);    // empty functions are not in the file
    }
    AutoFDOProfileWriter w(&m, 1 + c % 2); vp_assert(w.WriteToFile(FILES[i]), "input");
  }
  std::vector<const char*> a(FILES, FILES + nf); vp_assert(run(a) == 0, "merged"); SymbolMap back; AutoFDOProfileReader rd(&back, true); vp_assert(rd.ReadFromFile("merged"), "readable");
  Map e; e.f.reserve(4); for (auto& f : want.f) if (f.total > 10) { Fn& d = e.get(f.name); d.add(f); std::function<void(Fn&)> one = [&](Fn& g) { for (auto& p : g.pos) p.inst = 1; for (auto& k : g.calls) one(*k.f); }; one(d); }
  check(back, e, "merged profile"); vp_reach(e.f.size() == want.f.size() ? "all" : "some"); vp_must_reach("all"); vp_must_reach("some");
}
