// In-memory output file streams for code under check: included before every source of a job that needs it.  Everything that
// says std::ostream or std::ofstream afterwards means these classes.
#ifndef VP_MEMSTREAM_H
#define VP_MEMSTREAM_H
#ifdef __cplusplus
#include <bits/stdc++.h>
#include "memfile.h"
namespace std {
struct vpostream {
  vpf::Node* f = nullptr;
  vpostream& put(const void* p, size_t n) { vpf::put(f, f->n, p, n); return *this; }
  vpostream& write(const char* p, long n) { return put(p, n); }
  bool good() const { return f != nullptr; } explicit operator bool() const { return good(); } bool fail() const { return !good(); } void flush() {}
};
inline vpostream& vpnum(vpostream& o, unsigned long long v, bool neg) { char b[24]; int i = 24; do { b[--i] = '0' + v % 10; v /= 10; } while (v); if (neg) b[--i] = '-'; return o.put(b + i, 24 - i); }
template <class T> vpostream& operator<<(vpostream& o, const T& v) {
  using D = std::decay_t<T>;
  if constexpr (std::is_same_v<D, char>) return o.put(&v, 1);
  else if constexpr (std::is_same_v<D, bool>) return o.put(v ? "1" : "0", 1);
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) { std::string_view s = v; return o.put(s.data(), s.size()); }
  else if constexpr (std::is_floating_point_v<D>) { char b[64]; int n = snprintf(b, 64, "%g", (double)v); return o.put(b, n); }
  else if constexpr (std::is_signed_v<D>) { if (v < 0) return vpnum(o, 0 - (unsigned long long)v, true); return vpnum(o, (unsigned long long)v, false); }
  else { static_assert(std::is_integral_v<D>, "a printable type"); return vpnum(o, v, false); }
}
struct vpofstream : vpostream {
  static constexpr int out = 0, binary = 0, trunc = 0;
  explicit vpofstream(const std::string& n, int = 0) { if ((f = vpf::find(n.c_str(), true))) f->n = 0; }
  explicit vpofstream(const char* n, int = 0) : vpofstream(std::string(n)) {}
  bool is_open() const { return good(); } void close() {}
};
}
#define ostream vpostream
#define ofstream vpofstream
#endif
#endif
