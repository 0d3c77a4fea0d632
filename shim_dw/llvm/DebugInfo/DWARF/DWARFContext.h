// A stand-in for LLVM's DWARF reader: units with ranges, tags and names given by the harness.
#ifndef VP_DWARFCONTEXT_H
#define VP_DWARFCONTEXT_H
#include <cstdint>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "llvm/ADT/ArrayRef.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/ADT/iterator_range.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/DebugInfo/DIContext.h"
#include "llvm/Object/ObjectFile.h"
namespace llvm {
class LoadedObjectInfo;
class DWARFFormValue { public: const char* s = nullptr; DWARFFormValue() = default; explicit DWARFFormValue(const char* p) : s(p) {} };
namespace dwarf {
inline StringRef toStringRef(const std::optional<DWARFFormValue>& v, StringRef d = {}) { return v ? StringRef(v->s) : d; }
inline std::optional<const char*> toString(const std::optional<DWARFFormValue>& v) { if (!v) return std::nullopt; return v->s; }
inline const char* toString(const std::optional<DWARFFormValue>& v, const char* d) { return v ? v->s : d; }
}
class DWARFUnit;
class DWARFDebugAranges { public: std::function<uint64_t(uint64_t)> find; uint64_t findAddress(uint64_t a) const { return find(a); } };
class DWARFDebugLine {
 public:
  struct FileNameEntry { DWARFFormValue Name; uint64_t DirIdx = 0; };
  struct Row { uint32_t Line = 0; uint32_t Discriminator = 0; uint16_t Column = 0; uint16_t File = 1; };
  struct Prologue {
    dwarf::FormParams FormParams{}; std::vector<DWARFFormValue> IncludeDirectories; std::vector<FileNameEntry> FileNames;
    uint16_t getVersion() const { return FormParams.Version; }
    bool hasFileAtIndex(uint64_t i) const { return getVersion() >= 5 ? i < FileNames.size() : i != 0 && i <= FileNames.size(); }
    const FileNameEntry& getFileNameEntry(uint64_t i) const { return FileNames[getVersion() >= 5 ? i : i - 1]; }
  };
  struct LineTable { struct Prologue Prologue; std::vector<Row> Rows; std::function<uint32_t(object::SectionedAddress)> find; uint32_t lookupAddress(object::SectionedAddress a, bool* = nullptr) const { return find(a); } bool hasFileAtIndex(uint64_t i) const { return Prologue.hasFileAtIndex(i); } };
};
// Attributes of a unit's entry; what it leaves out may come from the entry it refers to.
struct VpEntry { dwarf::Tag tag = dwarf::DW_TAG_compile_unit; const char* name = nullptr; const char* inherited = nullptr; const char* comp_dir = nullptr; const char* linkage = nullptr; uint32_t decl_line = 0, call_file = 0, call_line = 0, call_disc = 0; };
class DWARFDie {
 public:
  DWARFDie() = default; explicit DWARFDie(const VpEntry* e) : e_(e) {}
  bool isValid() const { return e_ != nullptr; } explicit operator bool() const { return isValid(); }
  dwarf::Tag getTag() const { return e_ ? e_->tag : dwarf::DW_TAG_null; }
  std::optional<DWARFFormValue> find(dwarf::Attribute a) const { return get(a, false); }
  std::optional<DWARFFormValue> find(ArrayRef<dwarf::Attribute> as) const { for (auto a : as) if (auto v = get(a, false)) return v; return std::nullopt; }
  std::optional<DWARFFormValue> findRecursively(ArrayRef<dwarf::Attribute> as) const { if (auto v = find(as)) return v; for (auto a : as) if (auto v = get(a, true)) return v; return std::nullopt; }
  const char* getSubroutineName(DINameKind k) const { return !e_ || k == DINameKind::None ? nullptr : k == DINameKind::LinkageName && e_->linkage ? e_->linkage : e_->name; }
  const char* getLinkageName() const { return e_ ? e_->linkage : nullptr; }
  uint64_t getDeclLine() const { return e_ ? e_->decl_line : 0; }
  void getCallerFrame(uint32_t& f, uint32_t& l, uint32_t& c, uint32_t& d) const { f = e_->call_file; l = e_->call_line; c = 0; d = e_->call_disc; }
  const char* getShortName() const { auto v = findRecursively({dwarf::DW_AT_name}); return v ? v->s : nullptr; }
 private:
  std::optional<DWARFFormValue> get(dwarf::Attribute a, bool inherited) const { if (!e_) return std::nullopt; const char* s = a == dwarf::DW_AT_name ? inherited ? e_->inherited : e_->name : a == dwarf::DW_AT_comp_dir && !inherited ? e_->comp_dir : nullptr; if (!s) return std::nullopt; return DWARFFormValue(s); }
  const VpEntry* e_ = nullptr;
};
class DWARFUnit {
 public:
  virtual ~DWARFUnit() = default;
  DWARFDie getUnitDIE(bool = true) { return DWARFDie(&own); }
  DWARFDie getNonSkeletonUnitDIE(bool = true, StringRef = {}) { return DWARFDie(has_dwo ? &dwo : &own); }
  uint64_t getOffset() const { return offset; }
  void getInlinedChainForAddress(uint64_t a, SmallVectorImpl<DWARFDie>& v) { v.clear(); for (auto* e : chain(a)) v.push_back(DWARFDie(e)); }
  std::function<std::vector<const VpEntry*>(uint64_t)> chain; uint64_t offset = 0; DWARFDebugLine::LineTable* lines = nullptr;
  bool isTypeUnit() const { return false; }
  VpEntry own, dwo; bool has_dwo = false; uint64_t lo = 0, hi = 0;
};
class DWARFCompileUnit : public DWARFUnit {};
struct VpContextArgs { const object::ObjectFile* obj; int reloc; bool loaded; std::string dwp; };
class DWARFContext {
 public:
  enum class ProcessDebugRelocations { Process, Ignore };
  typedef std::vector<std::unique_ptr<DWARFUnit>> Units;
  static std::unique_ptr<DWARFContext> create(const object::ObjectFile& o, ProcessDebugRelocations r = ProcessDebugRelocations::Process, const LoadedObjectInfo* l = nullptr, std::string dwp = "") { made() = new VpContextArgs{&o, (int)r, l != nullptr, dwp}; return std::unique_ptr<DWARFContext>(next()); }
  iterator_range<Units::iterator> compile_units() { return make_range(units.begin(), units.end()); }
  iterator_range<Units::iterator> normal_units() { return compile_units(); }
  iterator_range<Units::iterator> info_section_units() { return compile_units(); }
  unsigned getNumCompileUnits() { return units.size(); }
  DWARFUnit* getUnitAtIndex(unsigned i) { return units[i].get(); }
  DWARFCompileUnit* getCompileUnitForCodeAddress(uint64_t a) { for (auto& u : units) if (u->lo <= a && a < u->hi) return (DWARFCompileUnit*)u.get(); return nullptr; }
  const DWARFDebugAranges* getDebugAranges() { return &aranges; }
  const DWARFDebugLine::LineTable* getLineTableForUnit(DWARFUnit* u) { return u->lines; }
  DWARFDebugAranges aranges; Units units;
  static DWARFContext*& next() { static DWARFContext* c; return c; }
  static VpContextArgs*& made() { static VpContextArgs* a; return a; }
};
}
#endif
