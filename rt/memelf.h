// In-memory files behind open/pread/mmap for code under check.
#ifndef VP_MEMELF_H
#define VP_MEMELF_H
#ifdef __cplusplus
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstring>
#include <cstdlib>
#include <fstream>
#include <string>
#include <filesystem>
#ifdef HAVE_LLVM
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/VirtualFileSystem.h"
#include "llvm/Support/raw_ostream.h"
#endif
namespace vpe {
struct Node { const char* name; unsigned char* d; size_t n; };
inline Node nodes[8]; inline int nnodes, nopen;
inline void add(const char* name, void* d, size_t n) { nodes[nnodes++] = {name, (unsigned char*)d, n}; }
inline int fopen_(const char* n, int) { for (int i = 0; i < nnodes; i++) if (!std::strcmp(nodes[i].name, n)) { nopen++; return 100 + i; } return -1; }
inline ssize_t pread_(int fd, void* b, size_t n, off_t o) {
  if (fd < 100 || fd >= 100 + nnodes) return -1; Node& f = nodes[fd - 100];
  if (o < 0) return -1; if ((size_t)o >= f.n) return 0; if (n > f.n - o) n = f.n - o; std::memcpy(b, f.d + o, n); return n;
}
// every mapping is a fresh copy of whole pages, so reads outside it are seen
inline void* mmap_(void*, size_t n, int, int, int fd, off_t o) {
  if (fd < 100 || fd >= 100 + nnodes || !n || o % 4096) return (void*)-1; Node& f = nodes[fd - 100];
  size_t sz = n < f.n ? (n + 4095) / 4096 * 4096 : n; unsigned char* p = (unsigned char*)calloc(sz, 1);
  if ((size_t)o < f.n) std::memcpy(p, f.d + o, f.n - o < sz ? f.n - o : sz); return p;
}
inline int munmap_(void* p, size_t) { free(p); return 0; }
inline int close_(int) { nopen--; return 0; }
}
#define open(n, f) fopen_vp(n, f)
#define fopen_vp(n, f) vpe::fopen_(n, f)
#define close(f) vpe::close_(f)
#define pread vpe::pread_
#define mmap vpe::mmap_
#define munmap vpe::munmap_
#define getpagesize() 4096
#endif
#endif
