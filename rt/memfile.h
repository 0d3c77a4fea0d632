// In-memory stdio files for code under check: included before every source of a job that needs it.
#ifndef VP_MEMFILE_H
#define VP_MEMFILE_H
#ifdef __cplusplus
#include <cstdio>
#include <cstdarg>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <string>
#include <fstream>
#include <iostream>
namespace vpf {
struct Node { const char* name; unsigned char* d; size_t n, cap; };
struct File { Node* f; size_t pos; bool wr, rd, eof; };
inline Node nodes[8]; inline int nnodes;
inline int maxread;      // when set, a read returns at most this many bytes
inline Node* find(const char* n, bool make) {
  for (int i = 0; i < nnodes; i++) if (!std::strcmp(nodes[i].name, n)) return &nodes[i];
  if (!make || nnodes == 8) return nullptr;
  Node* x = &nodes[nnodes++]; x->name = strdup(n); x->cap = 1 << 16; x->d = (unsigned char*)malloc(x->cap); x->n = 0; return x;
}
inline void put(Node* x, size_t at, const void* p, size_t n) {
  while (at + n > x->cap) { x->cap *= 2; x->d = (unsigned char*)realloc(x->d, x->cap); }
  std::memcpy(x->d + at, p, n); if (at + n > x->n) x->n = at + n;
}
inline FILE* open_(const char* n, const char* mode) {
  bool w = mode[0] == 'w' || mode[0] == 'a', plus = std::strchr(mode, '+') != nullptr;
  Node* x = find(n, w); if (!x) return nullptr;
  if (mode[0] == 'w') x->n = 0;
  File* f = (File*)malloc(sizeof(File)); f->f = x; f->pos = mode[0] == 'a' ? x->n : 0; f->wr = w || plus; f->rd = !w || plus; f->eof = false; return (FILE*)f;
}
inline size_t write(const void* p, size_t sz, size_t n, FILE* h) { File* f = (File*)h; if (!f->wr) return 0; put(f->f, f->pos, p, sz * n); f->pos += sz * n; return n; }
inline size_t read(void* p, size_t sz, size_t n, FILE* h) {
  File* f = (File*)h; if (!f->rd) return 0;
  size_t want = sz * n, left = f->pos < f->f->n ? f->f->n - f->pos : 0; if (want > left) { want = left; f->eof = true; }
  std::memcpy(p, f->f->d + f->pos, want); f->pos += want; return sz ? want / sz : 0;
}
inline int close_(FILE* h) { free(h); return 0; }
inline int seek(FILE* h, long o, int w) { File* f = (File*)h; f->pos = w == 0 ? o : w == 1 ? f->pos + o : f->f->n + o; f->eof = false; return 0; }
inline long tell(FILE* h) { return (long)((File*)h)->pos; }
inline char* gets(char* b, int n, FILE* h) { File* f = (File*)h; int i = 0; while (i + 1 < n && f->pos < f->f->n) { char c = f->f->d[f->pos++]; b[i++] = c; if (c == '\n') break; } if (!i) { f->eof = true; return nullptr; } b[i] = 0; return b; }
inline int vprint(FILE* h, const char* fmt, ...) { char b[512]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (n > 511) n = 511; write(b, 1, n, h); return n; }
inline int puts(const char* s, FILE* h) { write(s, 1, std::strlen(s), h); return 1; }
inline int putc(int c, FILE* h) { char x = c; write(&x, 1, 1, h); return c; }
inline int getc(FILE* h) { File* f = (File*)h; if (f->pos >= f->f->n) { f->eof = true; return -1; } return f->f->d[f->pos++]; }
// %[l..]u %x %d %c %s and literals
inline int vscan(FILE* h, const char* fmt, ...) {
  File* f = (File*)h; va_list ap; va_start(ap, fmt); int got = 0; bool end = false;
  auto cur = [&]() -> unsigned { if (f->pos < f->f->n) return f->f->d[f->pos]; f->eof = true; return 0x100; };
  auto skip = [&] { while (cur() == ' ' || cur() - 9u < 5u) f->pos++; };
  for (; *fmt && !end; fmt++) {
    if (*fmt == ' ' || (*fmt >= 9 && *fmt <= 13)) { skip(); continue; }
    if (*fmt != '%') { if (cur() != (unsigned char)*fmt) { if (cur() > 255 && !got) got = -1; break; } f->pos++; continue; }
    int lng = 0, wid = 0; fmt++; while (*fmt >= '0' && *fmt <= '9') wid = wid * 10 + *fmt++ - '0'; while (*fmt == 'l' || *fmt == 'z' || *fmt == 'j' || *fmt == 't') { lng++; fmt++; }
    if (*fmt == 'c') { if (cur() > 255) { if (!got) got = -1; break; } *va_arg(ap, char*) = cur(); f->pos++; got++; continue; }
    skip(); if (cur() > 255) { if (!got) got = -1; break; }
    if (*fmt == 's') { char* o = va_arg(ap, char*); int left = wid ? wid : -1; while (left-- && cur() < 0x100 && cur() != ' ' && !(cur() - 9u < 5u)) { *o++ = cur(); f->pos++; } *o = 0; got++; continue; }
    unsigned base = *fmt == 'x' ? 16 : 10; bool neg = false; unsigned long v = 0; int nd = 0;
    if (cur() == '-') { neg = true; f->pos++; } else if (cur() == '+') f->pos++;
    if (base == 16 && cur() == '0' && f->pos + 1 < f->f->n && (f->f->d[f->pos + 1] | 32) == 'x') f->pos += 2;
    for (;; nd++) { unsigned c = cur(), a = c - '0', b = (c | 32) - 'a'; unsigned isd = a < 10, isx = (b < 6) & (base == 16) & (c < 256); if (!(isd | isx)) break; v = v * base + (isx ? b + 10 : a); f->pos++; }
    if (!nd) { end = true; break; }
    if (neg) v = 0 - v; if (lng) *va_arg(ap, unsigned long*) = v; else *va_arg(ap, unsigned*) = v; got++;
  }
  va_end(ap); return got;
}
}
#define fprintf vpf::vprint
#define fscanf vpf::vscan
#define fputs vpf::puts
#define fputc vpf::putc
#define fgetc vpf::getc
#define fopen vpf::open_
#define fwrite vpf::write
#define fread vpf::read
#define fclose vpf::close_
#define fseek vpf::seek
#define ftell vpf::tell
#define rewind(f) vpf::seek(f, 0, 0)
#define fgets vpf::gets
#undef feof
#define feof(h) (((vpf::File*)(h))->eof)
#undef ferror
#define ferror(h) 0
#define fflush(h) 0
#define setbuf(f, b) ((void)0)
#define unlink(n) 0
#endif
#endif
