// Native implementation of vp.h: inputs come from the file given as argv[1].
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static unsigned char* buf; static size_t len, pos; static int tier, cfg, expectFatal;
static void fin(int code) { fflush(stdout); fflush(stderr); _exit(code); }
extern "C" {
void vp_symbolic(void* p, size_t n, const char*) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = pos < len ? buf[pos] : 0, pos++; }
void vp_num(void* p, size_t n, const char* s) { vp_symbolic(p, n, s); }
void vp_assume(int c) { if (!c) { printf("VP-END assume\n"); fin(77); } }
void vp_assert(int c, const char* m) { if (!c) { printf("VP-ASSERT %s\n", m); fin(10); } }
void vp_observe(const char* t, uint64_t v) { printf("VP-OBS %s %llu\n", t, (unsigned long long)v); }
void vp_reach(const char*) {}
void vp_must_reach(const char*) {}
int vp_tier() { return tier; }
int vp_cfg() { return cfg; }
int vp_is_engine() { return 0; }
uint64_t vp_concretize(uint64_t v) { return v; }
void vp_expect_fatal(int on) { expectFatal = on; }
void vp_step_limit(uint64_t, int) {}
void vp_fatal(const char* m) { if (expectFatal) { printf("VP-END fatal-ok\n"); fin(0); } printf("VP-FATAL %s\n", m); fin(11); }
void vp_stop() { printf("VP-END stop\n"); fin(0); }
void vp_dbg(const char* t, uint64_t v) { fprintf(stderr, "DBG %s = %llu\n", t, (unsigned long long)v); }
int vp_is_symbolic(uint64_t) { return 0; }
}
extern "C" void vp_unresolved() { printf("VP-END unresolved\n"); fin(98); }
#include <exception>
#include <signal.h>
static void onabort(int) { vp_fatal("abort"); }
#include <dlfcn.h>
// usage: replay INPUT ENTRY TIER CFG
int main(int argc, char** argv) {
  FILE* f = fopen(argv[1], "rb"); if (!f) return 99;
  fseek(f, 0, SEEK_END); len = ftell(f); rewind(f); buf = (unsigned char*)malloc(len + 1); if (fread(buf, 1, len, f) != len) return 99; fclose(f);
  tier = argc > 3 && !strcmp(argv[3], "thorough"); cfg = argc > 4 ? atoi(argv[4]) : 0;
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[2]);
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[2]); return 98; }
  signal(SIGABRT, onabort);
  alarm(20);
  fn();
  printf("VP-END ok\n");
  fin(0);
}
