// Stand-in for protobuf's file streams: only their descriptors and whether they were closed.
#pragma once
namespace google { namespace protobuf { namespace io {
struct FileOutputStream { int fd; explicit FileOutputStream(int f, int = -1) : fd(f) {} static inline int closed, failing; bool Close() { closed++; return !failing; } bool Flush() { return true; } void SetCloseOnDelete(bool) {} };
struct FileInputStream { int fd; explicit FileInputStream(int f, int = -1) : fd(f) {} bool Close() { return true; } void SetCloseOnDelete(bool) {} };
} } }
