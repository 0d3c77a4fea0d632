// Interface between harnesses and (a) the symbolic executor, (b) native replay.
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void vp_symbolic(void* p, size_t n, const char* name);
void vp_num(void* p, size_t n, const char* name);   // the same, as one number of n bytes
void vp_assume(int c);
void vp_assert(int c, const char* msg);
void vp_observe(const char* tag, uint64_t v);
void vp_reach(const char* tag);
void vp_must_reach(const char* tag);
int vp_tier(void);   // 0 quick, 1 thorough
int vp_cfg(void);    // shard / configuration number
int vp_is_engine(void);
uint64_t vp_concretize(uint64_t v);
void vp_expect_fatal(int on);               // CHECK/LOG(FATAL)/abort end the path quietly
void vp_step_limit(uint64_t n, int is_error);  // bound on instructions from here (0 = off)
__attribute__((noreturn)) void vp_fatal(const char* msg);
__attribute__((noreturn)) void vp_stop(void);
void vp_dbg(const char* tag, uint64_t v);
int vp_is_symbolic(uint64_t v);
#ifdef __cplusplus
}
template <class T> static inline T vp_any(const char* name) { T v; vp_symbolic(&v, sizeof(T), name); return v; }
// any value below 256^n
static inline uint64_t vp_bytes(int n, const char* name) { uint64_t v = 0; vp_num(&v, n, name); return v; }
static inline bool vp_anybool(const char* name) { uint8_t v; vp_symbolic(&v, 1, name); vp_assume(v <= 1); return v & 1; }
// value in [0, n)
static inline uint64_t vp_below(uint64_t n, const char* name) {
  if (n <= 256) { uint8_t v; vp_symbolic(&v, 1, name); vp_assume(v < n); return v; }
  uint64_t v; vp_symbolic(&v, 8, name); vp_assume(v < n); return v;
}
// value in [0, n), explored one by one
static inline uint64_t vp_choose(uint64_t n, const char* name) { return vp_concretize(vp_below(n, name)); }
#endif
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define VP_ASSERT(c) vp_assert(!!(c), #c)
#endif
