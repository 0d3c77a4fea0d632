// What the code under check prints on standard output, collected in vpout::s: included before every source of a job that needs it.
#ifndef VP_MEMPRINT_H
#define VP_MEMPRINT_H
#ifdef __cplusplus
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <string>
namespace vpout {
inline std::string s;
inline int pf(const char* f, ...) { char b[512]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); if (n >= (int)sizeof b) abort(); s.append(b, n); return n; }
inline int add(const std::string& t) { s += t; return (int)t.size(); }
}
#define printf(...) vpout::pf(__VA_ARGS__)
#endif
#endif
