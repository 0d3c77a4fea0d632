// P13: the module a function belongs to is the compile unit of its code.
#include <memory>
#include <string>
#include <vector>
#include "addr2cu.h"
#include "branch_aggregation.h"
#include "llvm_propeller_binary_address_mapper.h"
#include "llvm_propeller_cfg.h"
#include "llvm_propeller_program_cfg.h"
#include "llvm_propeller_program_cfg_builder.h"
#include "vp.h"
using namespace devtools_crosstool_autofdo;
using llvm::object::BBAddrMap;
namespace {
const char* NM[] = {"a.cc", "dir/b.cc", "c.cc"};
struct U { bool skel, dwo, named; uint64_t lo, hi; const char* want; };
std::vector<U> us;
llvm::DWARFContext* units(int n) {
  auto* c = new llvm::DWARFContext; uint64_t at = 0x1000;
  for (int i = 0; i < n; i++) {
    auto u = std::make_unique<llvm::DWARFCompileUnit>(); U x; int k = vp_choose(6, "unit"); x.skel = k >= 3; x.dwo = k == 4 || k == 5; x.named = k != 1 && k != 5; x.lo = at + vp_bytes(1, "gap"); x.hi = x.lo + vp_bytes(2, "size"); at = x.hi; u->lo = x.lo; u->hi = x.hi;
    u->own.tag = x.skel ? llvm::dwarf::DW_TAG_skeleton_unit : llvm::dwarf::DW_TAG_compile_unit; u->own.comp_dir = u->dwo.comp_dir = "/src"; u->has_dwo = x.dwo;
    if (x.dwo) { u->own.name = "skeleton"; u->dwo.name = x.named ? NM[i] : nullptr; } else if (k == 2) u->own.inherited = NM[i]; else u->own.name = x.named ? NM[i] : nullptr;
    x.want = x.named ? NM[i] : ""; us.push_back(x); c->units.push_back(std::move(u));
  }
  return c;
}
const U* at(uint64_t a) { for (auto& u : us) if (u.lo <= a && a < u.hi) return &u; return nullptr; }
}
extern "C" void module() {
  int n = vp_cfg() % 4; bool dwp = vp_cfg() / 4; llvm::DWARFContext::next() = units(n); alignas(16) static char mem[256]; auto& obj = *(llvm::object::ObjectFile*)mem; std::string name = dwp ? "prog.dwp" : "";
  auto r = CreateDWARFContext(obj, name); auto* m = llvm::DWARFContext::made(); vp_assert(m && m->obj == &obj && m->reloc == 0 && !m->loaded && m->dwp == name, "opened with its debug package");
  bool skel = false; for (auto& u : us) skel |= u.skel; bool ok = n && (dwp || !skel); vp_assert(r.ok() == ok, "no units, or units elsewhere without a package, are refused"); vp_reach(ok ? "ok" : "refused"); if (n) vp_must_reach("ok"); if (!n || !dwp) vp_must_reach("refused"); if (!r.ok()) return;
  Addr2Cu a(**r); uint64_t q = 0xf80 + vp_bytes(4, "address"); auto g = a.GetCompileUnitFileNameForCodeAddress(q); const U* u = at(q); vp_assert(g.ok() == (u != nullptr), "an address of no unit is refused"); if (u && g.ok()) vp_assert(std::string(*g) == u->want, "name of the unit");
  vp_observe("found", u != nullptr);
}
extern "C" void graphs() {
  int n = vp_cfg() & 3; bool with = vp_cfg() & 4; llvm::DWARFContext* c = units(n); std::vector<BBAddrMap> maps; std::vector<BbHandle> hs; absl::btree_set<int> sel; absl::flat_hash_map<int, BinaryAddressMapper::FunctionSymbolInfo> sym; uint64_t at0[2] = {0x1000 + vp_bytes(2, "function"), 0x30000}; if (n) at0[1] = us[n - 1].lo + vp_bytes(1, "function");
  vp_assume((at0[1] < at0[0] - 64) | (at0[1] > at0[0] + 64));
  for (int f = 0; f < 2; f++) { BBAddrMap m; m.BBRanges.emplace_back(); m.BBRanges[0].BaseAddress = at0[f]; m.BBRanges[0].BBEntries.emplace_back(0, 0, 16, BBAddrMap::BBEntry::Metadata{true, false, false, false, false}); maps.push_back(m); sel.insert(f); sym[f].section_name = ".text"; sym[f].aliases.push_back(f ? "g" : "f"); hs.push_back({f, 0}); }
  BranchAggregation ag; ag.branch_counters[{.from = at0[0] + 4, .to = at0[1]}] = 5; 
  if (at0[1] < at0[0]) hs = {{1, 0}, {0, 0}};
  BinaryAddressMapper m(sel, maps, hs, sym); PropellerStats st; Addr2Cu a(*c); auto r = ProgramCfgBuilder(&m, st).Build(ag, nullptr, with ? &a : nullptr); vp_assert(r.ok(), "built"); if (!r.ok()) return;
  int k = 0; for (auto* g : (*r)->GetCfgs()) { int f = g->function_index(); const U* u = at(at0[f]); k++; vp_assert(g->module_name().has_value() == (with && u), "module is known"); if (with && u && g->module_name()) vp_assert(g->module_name()->str() == u->want, "module of a function"); vp_reach(with && u ? "known" : "unknown"); }
  vp_assert(k == 2, "both functions"); if (with && n) vp_must_reach("known"); vp_must_reach("unknown"); vp_observe("graphs", k);
}
