// Stand-in for protobuf's repeated fields (elements have stable addresses, as in RepeatedPtrField).
#ifndef VP_PB_H
#define VP_PB_H
#include <memory>
#include <string>
#include <vector>
#include <cstdint>
namespace google::protobuf {
template <class T> class RepeatedPtrField {
  std::vector<std::unique_ptr<T>> v_;
 public:
  using value_type = T;
  template <class It, class R> struct Iter {
    using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = long; using pointer = R*; using reference = R&;
    It i; R& operator*() const { return **i; } R* operator->() const { return i->get(); } Iter& operator++() { ++i; return *this; } Iter operator++(int) { Iter r = *this; ++i; return r; } Iter& operator--() { --i; return *this; }
    bool operator==(const Iter& o) const { return i == o.i; } bool operator!=(const Iter& o) const { return i != o.i; } long operator-(const Iter& o) const { return i - o.i; } Iter operator+(long n) const { return {i + n}; } R& operator[](long n) const { return *i[n]; }
  };
  using const_iterator = Iter<typename std::vector<std::unique_ptr<T>>::const_iterator, const T>; using iterator = Iter<typename std::vector<std::unique_ptr<T>>::iterator, T>;
  RepeatedPtrField() = default; RepeatedPtrField(const RepeatedPtrField& o) { for (auto& x : o) *Add() = x; } RepeatedPtrField(RepeatedPtrField&&) = default;
  RepeatedPtrField& operator=(const RepeatedPtrField& o) { if (this != &o) { v_.clear(); for (auto& x : o) *Add() = x; } return *this; } RepeatedPtrField& operator=(RepeatedPtrField&&) = default;
  T* Add() { v_.push_back(std::make_unique<T>()); return v_.back().get(); } void Add(T t) { *Add() = std::move(t); }
  int size() const { return (int)v_.size(); } bool empty() const { return v_.empty(); } void Clear() { v_.clear(); }
  const T& Get(int i) const { return *v_.at(i); } const T& operator[](int i) const { return *v_.at(i); } const T& at(int i) const { return *v_.at(i); } T* Mutable(int i) { return v_.at(i).get(); } T& operator[](int i) { return *v_.at(i); }
  const_iterator begin() const { return {v_.begin()}; } const_iterator end() const { return {v_.end()}; } iterator begin() { return {v_.begin()}; } iterator end() { return {v_.end()}; }
};
template <class T> class RepeatedField : public std::vector<T> { public: using std::vector<T>::vector; const T& Get(int i) const { return (*this)[i]; } void Add(T t) { this->push_back(t); } };
}
#endif
