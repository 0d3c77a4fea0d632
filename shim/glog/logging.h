// Stand-in for glog: operands are evaluated, nothing is formatted; failed CHECKs end in vp_fatal.
#ifndef VP_GLOG_H
#define VP_GLOG_H
#include <ostream>
#include <string>
#include <string_view>
#include <memory>
#include "vp.h"
namespace vplog {
struct Null {
  template <class T> Null& operator<<(const T&) { return *this; }
  Null& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
struct FatalT : Null {
  const char* m;
  explicit FatalT(const char* s) : m(s) {}
  template <class T> FatalT& operator<<(const T&) { return *this; }
  FatalT& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  [[noreturn]] ~FatalT() { vp_fatal(m); }
};
struct Voidify { void operator&(const Null&) {} };
struct VoidifyF { template <class T> void operator&&(const T&) const {} };
template <class T> T notnull(T&& t, const char* m) { if (t == nullptr) vp_fatal(m); return std::forward<T>(t); }
}
#define VPLOG_INFO vplog::Null()
#define VPLOG_WARNING vplog::Null()
#define VPLOG_ERROR vplog::Null()
#define VPLOG_DFATAL vplog::FatalT("LOG(DFATAL)")
#define VPLOG_FATAL vplog::FatalT("LOG(FATAL) at " __FILE__ ":" VP_STR(__LINE__))
#define VPLOG_QFATAL VPLOG_FATAL
#undef LOG
#define LOG(s) VPLOG_##s
#define PLOG(s) VPLOG_##s
#define VLOG(n) vplog::Null()
#define VLOG_IS_ON(n) false
#define DLOG(s) VPLOG_##s
#define LOG_IF(s, c) if (!(c)) {} else LOG(s)
#define LOG_EVERY_N(s, n) LOG(s)
#define LOG_FIRST_N(s, n) LOG(s)
#define LOG_IF_EVERY_N(s, c, n) LOG_IF(s, c)
#undef CHECK
#define CHECK(c) if (__builtin_expect(!!(c), 1)) {} else vplog::FatalT("CHECK failed: " #c)
#define PCHECK(c) CHECK(c)
#define QCHECK(c) CHECK(c)
#define VPCHK(a, op, b) if (__builtin_expect(!!((a) op (b)), 1)) {} else vplog::FatalT("CHECK failed: " #a " " #op " " #b)
#define CHECK_EQ(a, b) VPCHK(a, ==, b)
#define CHECK_NE(a, b) VPCHK(a, !=, b)
#define CHECK_LT(a, b) VPCHK(a, <, b)
#define CHECK_LE(a, b) VPCHK(a, <=, b)
#define CHECK_GT(a, b) VPCHK(a, >, b)
#define CHECK_GE(a, b) VPCHK(a, >=, b)
#define CHECK_NOTNULL(p) vplog::notnull((p), "CHECK_NOTNULL " #p)
#define CHECK_OK(s) CHECK((s).ok())
#define QCHECK_OK(s) CHECK((s).ok())
#define QCHECK_EQ CHECK_EQ
#define QCHECK_NE CHECK_NE
// Release builds (the repository's default and this sandbox's build keep assertions
// off only with NDEBUG); DCHECKs are on unless NDEBUG is defined, as in glog.
#ifdef NDEBUG
#define DCHECK(c) while (false) CHECK(c)
#else
#define DCHECK(c) CHECK(c)
#endif
#define DCHECK_EQ(a, b) DCHECK((a) == (b))
#define DCHECK_NE(a, b) DCHECK((a) != (b))
#define DCHECK_LT(a, b) DCHECK((a) < (b))
#define DCHECK_LE(a, b) DCHECK((a) <= (b))
#define DCHECK_GT(a, b) DCHECK((a) > (b))
#define DCHECK_GE(a, b) DCHECK((a) >= (b))
namespace google { inline void InitGoogleLogging(const char*) {} }
#endif
