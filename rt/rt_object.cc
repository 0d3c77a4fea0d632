// Pieces of libLLVM's object reader, for bitcode only: the reader's own templates, instantiated from its headers.
#include "vp.h"
#ifdef VP_BC
#include <cstring>
#include "llvm/Object/ELFObjectFile.h"
#include "llvm/Object/Error.h"
#include "llvm/Support/MemoryBufferRef.h"
namespace { struct Cat : std::error_category { const char* name() const noexcept override { return "object"; } std::string message(int) const override { return ""; } }; Cat cat; }
const std::error_category& llvm::object::object_category() { return cat; }
namespace std { inline namespace _V2 { const error_category& generic_category() noexcept { return cat; } } }
namespace llvm {
MemoryBufferRef::MemoryBufferRef(const MemoryBuffer& b) : Buffer(b.getBuffer()), Identifier("mem") {}
void ErrorInfoBase::anchor() {} char ErrorInfoBase::ID = 0; char ErrorList::ID = 0; char StringError::ID = 0; char ECError::ID = 0;
StringError::StringError(const Twine&, std::error_code ec) : EC(ec) {}
StringError::StringError(std::error_code ec, const Twine&) : EC(ec) {}
StringError::StringError(std::string&&, std::error_code ec, bool) : EC(ec) {}
void StringError::log(raw_ostream&) const {}
std::error_code StringError::convertToErrorCode() const { return EC; }
Error errorCodeToError(std::error_code ec) { if (!ec) return Error::success(); return Error(std::make_unique<StringError>("", ec)); }
std::string toString(Error e) { consumeError(std::move(e)); return "error"; }
std::string Twine::str() const { SmallString<32> b; toVector(b); return std::string(b.begin(), b.end()); }
void Twine::toVector(SmallVectorImpl<char>& out) const {
  struct W { static void one(Child c, NodeKind k, SmallVectorImpl<char>& o) {
    auto add = [&](const char* p, size_t n) { o.append(p, p + n); };
    switch (k) { case TwineKind: c.twine->toVector(o); break; case CStringKind: add(c.cString, strlen(c.cString)); break; case StdStringKind: add(c.stdString->data(), c.stdString->size()); break;
      case PtrAndLengthKind: case StringLiteralKind: add(c.ptrAndLength.ptr, c.ptrAndLength.length); break; case CharKind: add(&c.character, 1); break; default: break; } } };
  W::one(LHS, LHSKind, out); W::one(RHS, RHSKind, out);
}
namespace object {
Binary::Binary(unsigned t, MemoryBufferRef m) : TypeID(t), Data(m) {}
Binary::~Binary() {}
StringRef Binary::getData() const { return Data.getBuffer(); }
StringRef Binary::getFileName() const { return Data.getBufferIdentifier(); }
MemoryBufferRef Binary::getMemoryBufferRef() const { return Data; }
SymbolicFile::SymbolicFile(unsigned t, MemoryBufferRef m) : Binary(t, m) {}
SymbolicFile::~SymbolicFile() {}
ObjectFile::ObjectFile(unsigned t, MemoryBufferRef m) : SymbolicFile(t, m) {}
void ObjectFile::anchor() {}
ELFObjectFileBase::ELFObjectFileBase(unsigned t, MemoryBufferRef m) : ObjectFile(t, m) {}
template class ELFFile<ELF32LE>; template class ELFFile<ELF64LE>;
}
}
#endif
