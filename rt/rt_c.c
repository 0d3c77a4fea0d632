// C library stand-ins executed symbolically (bitcode only, never linked natively).
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include "vp.h"
#define NB __attribute__((no_builtin))
NB size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
NB size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
NB int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
NB int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
NB int tolower(int c) { return lc(c); }
NB int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
NB int isdigit(int c) { return c >= '0' && c <= '9'; }
NB int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
NB int isalpha(int c) { c = lc(c); return c >= 'a' && c <= 'z'; }
NB int isalnum(int c) { return isdigit(c) || isalpha(c); }
NB int isxdigit(int c) { return isdigit(c) || (lc(c) >= 'a' && lc(c) <= 'f'); }
NB int isprint(int c) { return c >= 32 && c < 127; }
NB int strcasecmp(const char* a, const char* b) { while (*a && lc((unsigned char)*a) == lc((unsigned char)*b)) a++, b++; return lc((unsigned char)*a) - lc((unsigned char)*b); }
NB char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
NB char* stpcpy(char* d, const char* s) { while ((*d = *s++)) d++; return d; }
NB char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
NB char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
NB char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
NB char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
NB void* memchr(const void* p, int c, size_t n) { const unsigned char* s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
NB void* memrchr(const void* p, int c, size_t n) { const unsigned char* s = p; while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n); return 0; }
NB char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
NB char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = malloc(n); memcpy(r, s, n); return r; }
NB char* strpbrk(const char* s, const char* a) { for (; *s; s++) if (strchr(a, *s)) return (char*)s; return 0; }
NB size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
NB size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
static int digv(int c) { if (c >= '0' && c <= '9') return c - '0'; c = lc(c); if (c >= 'a' && c <= 'z') return c - 'a' + 10; return 99; }
NB unsigned long strtoul(const char* s, char** e, int base) {
  const char* p = s; while (isspace((unsigned char)*p)) p++;
  int neg = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && lc(p[1]) == 'x' && digv(p[2]) < 16) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; const char* st = p; int ovf = 0;
  while (digv((unsigned char)*p) < base) { unsigned long d = digv((unsigned char)*p); if (v > (~0ul - d) / (unsigned long)base) ovf = 1; v = v * base + d; p++; }
  if (e) *e = (char*)(p == st ? s : p);
  if (ovf) return ~0ul;
  return neg ? -v : v;
}
NB unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
NB long strtol(const char* s, char** e, int b) { return (long)strtoul(s, e, b); }
NB long long strtoll(const char* s, char** e, int b) { return (long long)strtoul(s, e, b); }
NB unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
NB unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
NB long __isoc23_strtol(const char* s, char** e, int b) { return (long)strtoul(s, e, b); }
NB long long __isoc23_strtoll(const char* s, char** e, int b) { return (long)strtoul(s, e, b); }
NB int atoi(const char* s) { return (int)strtol(s, 0, 10); }
NB long atol(const char* s) { return strtol(s, 0, 10); }
NB long long atoll(const char* s) { return strtol(s, 0, 10); }
char* getenv(const char* n) { return 0; }

// ---- formatted output ----
struct sink { char* p; size_t n, cap; };
static void put(struct sink* s, char c) { if (s->p && s->n + 1 < s->cap) s->p[s->n] = c; s->n++; }
static void putn(struct sink* s, unsigned long v, unsigned base, int upper, int width, int zero, int left, int neg, int prec) {
  char t[72]; int k = 0;
  do { unsigned d = v % base; t[k++] = d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10; v /= base; } while (v);
  while (k < prec) t[k++] = '0';
  if (neg && !zero) t[k++] = '-';
  int pad = width - k - (neg && zero);
  if (neg && zero) put(s, '-');
  if (!left) for (; pad > 0; pad--) put(s, zero ? '0' : ' ');
  while (k) put(s, t[--k]);
  if (left) for (; pad > 0; pad--) put(s, ' ');
}
NB int vsnprintf(char* buf, size_t cap, const char* f, va_list ap) {
  struct sink s = {buf, 0, cap};
  for (; *f; f++) {
    if (*f != '%') { put(&s, *f); continue; }
    f++;
    int zero = 0, left = 0, width = 0, lng = 0, prec = -1, alt = 0;
    for (;; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '#') alt = 1; else if (*f == '+' || *f == ' ') {} else break; }
    if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') { lng++; f++; }
    while (*f == 'h') f++;
    switch (*f) {
      case 'd': case 'i': { long v = lng ? va_arg(ap, long) : va_arg(ap, int); putn(&s, v < 0 ? -(unsigned long)v : v, 10, 0, width, zero, left, v < 0, prec); break; }
      case 'u': { unsigned long v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); putn(&s, v, 10, 0, width, zero, left, 0, prec); break; }
      case 'x': case 'X': { unsigned long v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (alt && v) { put(&s, '0'); put(&s, *f); } putn(&s, v, 16, *f == 'X', width, zero, left, 0, prec); break; }
      case 'o': { unsigned long v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); putn(&s, v, 8, 0, width, zero, left, 0, prec); break; }
      case 'p': { unsigned long v = va_arg(ap, unsigned long); put(&s, '0'); put(&s, 'x'); putn(&s, v, 16, 0, 0, 0, 0, 0, -1); break; }
      case 'c': put(&s, (char)va_arg(ap, int)); break;
      case 's': { const char* q = va_arg(ap, const char*); if (!q) q = "(null)"; size_t n = prec >= 0 ? strnlen(q, prec) : strlen(q); int pad = width - (int)n; if (!left) for (; pad > 0; pad--) put(&s, ' '); for (size_t i = 0; i < n; i++) put(&s, q[i]); if (left) for (; pad > 0; pad--) put(&s, ' '); break; }
      case 'f': case 'g': case 'e': case 'F': {
        double d = va_arg(ap, double); if (prec < 0) prec = 6;
        if (d < 0) { put(&s, '-'); d = -d; }
        int strip = 0; if (*f == 'g' && d != 0) { if (d < 1e-4 || d >= 999999) vp_fatal("rt: unsupported %g value"); int k = 0; for (double t = d; t >= 1; t /= 10) k++; strip = 1; prec = prec > k ? prec - k : 0; } else if (*f == 'g') prec = 0;
        double sc = 1; for (int i = 0; i < prec; i++) sc *= 10;
        unsigned long long ip = (unsigned long long)d; unsigned long long fr = (unsigned long long)((d - (double)ip) * sc + 0.5);
        if ((double)fr >= sc) { ip++; fr = 0; }
        putn(&s, ip, 10, 0, 0, 0, 0, 0, -1); if (strip) while (prec && fr % 10 == 0) { fr /= 10; prec--; } if (prec) { put(&s, '.'); putn(&s, fr, 10, 0, prec, 1, 0, 0, -1); } break;
      }
      case '%': put(&s, '%'); break;
      default: vp_fatal("rt: unsupported printf conversion");
    }
  }
  if (buf && cap) buf[s.n < cap ? s.n : cap - 1] = 0;
  return (int)s.n;
}
NB int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
NB int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }
int puts(const char* s) { return 0; }
int putchar(int c) { return c; }
int* __errno_location(void) { static int e; return &e; }
char* basename(const char* p) { const char* r = p; for (; *p; p++) if (*p == 47) r = p + 1; return (char*)r; }   // GNU version
