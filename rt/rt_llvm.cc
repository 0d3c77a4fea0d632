// Pieces of libLLVM that the harnesses reach, for bitcode only: replays link the real library.
#include "vp.h"
#ifdef VP_BC
#include <cstdlib>
#include <cstring>
#include "llvm/ADT/DenseMapInfo.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringMap.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/ProfileData/SampleProf.h"
#include "llvm/Support/MD5.h"
#include "llvm/Support/MemAlloc.h"
#include "llvm/ADT/Twine.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/Path.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ProfileData/SampleProfWriter.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/Support/VirtualFileSystem.h"
namespace std { inline namespace _V2 { const error_category& system_category() noexcept { static long x[4]; return *(const error_category*)x; } } }
namespace llvm {
namespace sampleprof { bool FunctionSamples::ProfileIsFS = false, FunctionSamples::ProfileIsProbeBased = false, FunctionSamples::ProfileIsCS = false, FunctionSamples::ProfileIsPreInlined = false, FunctionSamples::UseMD5 = false, FunctionSamples::HasUniqSuffix = true; }
static uint64_t fnv(const char* p, size_t n, uint64_t h = 14695981039346656037ull) { for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 1099511628211ull; return h; }
void* allocate_buffer(size_t n, size_t) { return malloc(n); }
void deallocate_buffer(void* p, size_t, size_t) { free(p); }
unsigned DenseMapInfo<StringRef, void>::getHashValue(StringRef s) { uint64_t h = fnv(s.data(), s.size()); return (unsigned)(h ^ h >> 32); }
template <class T> void SmallVectorBase<T>::grow_pod(void* first, size_t min, size_t ts) {
  size_t cap = 2 * (size_t)Capacity + 1; if (cap < min) cap = min; void* p = malloc(cap * ts); memcpy(p, BeginX, (size_t)Size * ts); if (BeginX != first) free(BeginX); BeginX = p; Capacity = (T)cap;
}
template <class T> void* SmallVectorBase<T>::mallocForGrow(void* first, size_t min, size_t ts, size_t& newcap) { size_t cap = 2 * (size_t)Capacity + 1; if (cap < min) cap = min; newcap = cap; return malloc(cap * ts); }
template class SmallVectorBase<uint32_t>; template class SmallVectorBase<uint64_t>;
// any hash that tells the names of the harness apart will do
MD5::MD5() { memset(&InternalState, 0, sizeof InternalState); }
void MD5::update(StringRef s) { uint64_t h = fnv(s.data(), s.size()); memcpy(&InternalState, &h, 8); }
void MD5::final(MD5Result& r) { memset(&r, 0, sizeof r); memcpy(&r, &InternalState, 8); }
// string maps: open addressing over the same table layout
uint32_t StringMapImpl::hash(StringRef s) { uint64_t h = fnv(s.data(), s.size()); return (uint32_t)(h ^ h >> 32); }
static unsigned* hashes(StringMapEntryBase** t, unsigned n) { return (unsigned*)(t + n + 1); }
void StringMapImpl::init(unsigned n) { if (!n) n = 16; TheTable = (StringMapEntryBase**)calloc(n + 1, sizeof(StringMapEntryBase*) + sizeof(unsigned)); TheTable[n] = (StringMapEntryBase*)2; NumBuckets = n; NumItems = 0; NumTombstones = 0; }
StringMapImpl::StringMapImpl(unsigned n, unsigned itemSize) { ItemSize = itemSize; if (n) { unsigned c = 1; while (c < n * 4 / 3 + 1) c *= 2; init(c); } }
static StringRef keyof(StringMapEntryBase* e, unsigned isz) { return StringRef((char*)e + isz, e->getKeyLength()); }
unsigned StringMapImpl::LookupBucketFor(StringRef k, uint32_t h) {
  if (!NumBuckets) init(16);
  unsigned* hs = hashes(TheTable, NumBuckets); unsigned b = h & (NumBuckets - 1); int tomb = -1;
  for (;; b = (b + 1) & (NumBuckets - 1)) {
    StringMapEntryBase* e = TheTable[b];
    if (!e) { if (tomb >= 0) b = tomb; hs[b] = h; return b; }
    if (e == getTombstoneVal()) { if (tomb < 0) tomb = b; continue; }
    if (hs[b] == h && keyof(e, ItemSize) == k) return b;
  }
}
int StringMapImpl::FindKey(StringRef k, uint32_t h) const {
  if (!NumBuckets) return -1; unsigned* hs = hashes(TheTable, NumBuckets); unsigned b = h & (NumBuckets - 1);
  for (;; b = (b + 1) & (NumBuckets - 1)) { StringMapEntryBase* e = TheTable[b]; if (!e) return -1; if (e != getTombstoneVal() && hs[b] == h && keyof(e, ItemSize) == k) return b; }
}
void StringMapImpl::RemoveKey(StringMapEntryBase* v) { RemoveKey(keyof(v, ItemSize)); }
StringMapEntryBase* StringMapImpl::RemoveKey(StringRef k) { int b = FindKey(k, hash(k)); if (b < 0) return nullptr; StringMapEntryBase* r = TheTable[b]; TheTable[b] = getTombstoneVal(); --NumItems; ++NumTombstones; return r; }
unsigned StringMapImpl::RehashTable(unsigned keep) {
  unsigned n; if (NumItems * 4 > NumBuckets * 3) n = NumBuckets * 2; else if (NumBuckets - (NumItems + NumTombstones) <= NumBuckets / 8) n = NumBuckets; else return keep;
  auto** t = (StringMapEntryBase**)calloc(n + 1, sizeof(StringMapEntryBase*) + sizeof(unsigned)); t[n] = (StringMapEntryBase*)2; unsigned *nh = hashes(t, n), *oh = hashes(TheTable, NumBuckets), res = keep;
  for (unsigned i = 0; i < NumBuckets; i++) { StringMapEntryBase* e = TheTable[i]; if (!e || e == getTombstoneVal()) continue; unsigned b = oh[i] & (n - 1); while (t[b]) b = (b + 1) & (n - 1); t[b] = e; nh[b] = oh[i]; if (i == keep) res = b; }
  free(TheTable); TheTable = t; NumBuckets = n; NumTombstones = 0; return res;
}
MemoryBuffer::~MemoryBuffer() {}
void MemoryBuffer::init(const char* b, const char* e, bool) { BufferStart = b; BufferEnd = e; }
namespace sys { namespace path {
StringRef filename(StringRef p, Style) { size_t i = p.size(); while (i && p[i - 1] != '/') i--; if (i == p.size() && i) return i == 1 ? p.substr(0, 1) : StringRef("."); return p.substr(i); }
bool is_absolute(const Twine& t, Style) { SmallString<64> b; StringRef p = t.toStringRef(b); return !p.empty() && p[0] == '/'; }
} }
LLVMContext::LLVMContext() : pImpl(nullptr) {}
LLVMContext::~LLVMContext() {}
namespace vfs { IntrusiveRefCntPtr<FileSystem> getRealFileSystem() { return IntrusiveRefCntPtr<FileSystem>(); } }
raw_ostream::~raw_ostream() {}
void raw_ostream::flush_nonempty() {}
std::error_code sampleprof::SampleProfileWriter::write(const SampleProfileMap&) { return {}; }
// errors: only "no error" occurs
}
namespace { struct Cat : std::error_category { const char* name() const noexcept override { return "llvm.sampleprof"; } std::string message(int) const override { return ""; } }; Cat cat; }
const std::error_category& llvm::sampleprof_category() { return cat; }
#endif
