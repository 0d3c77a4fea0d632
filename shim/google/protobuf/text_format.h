// Stand-in for protobuf's text format: hands messages over instead of printing them.
#pragma once
#include "google/protobuf/io/zero_copy_stream_impl.h"
namespace google { namespace protobuf {
struct TextFormat {
  static inline const void* printed; static inline int fd, prints, failing; static inline const void* source;
  template <class M> static bool Print(const M& m, io::FileOutputStream* o) { printed = &m; fd = o->fd; prints++; return !failing; }
  template <class M> static bool Parse(io::FileInputStream* i, M* m) { fd = i->fd; if (!source) return false; *m = *(const M*)source; return true; }
};
} }
