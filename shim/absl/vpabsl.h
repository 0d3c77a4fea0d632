// A small stand-in for the parts of Abseil that autofdo uses, built on libstdc++ so
// that it can be executed symbolically.  flat_* containers relocate their elements
// when they grow (so stale pointers are caught), iterate in insertion order or, when
// vp_map_reverse is set, in reverse.
#ifndef VP_ABSL_H
#define VP_ABSL_H
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <map>
#include <memory>
#include <new>
#include <numeric>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <ostream>
#include "vp.h"
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_GUARDED_BY(x)
#define ABSL_LOCKS_EXCLUDED(...)
#define ABSL_EXCLUSIVE_LOCKS_REQUIRED(...)
#define ABSL_ATTRIBUTE_UNUSED __attribute__((unused))
#define ABSL_MUST_USE_RESULT
#define ABSL_DEPRECATED(x)
#define ABSL_PREDICT_TRUE(x) (x)
#define ABSL_PREDICT_FALSE(x) (x)
#define ABSL_ARRAYSIZE(a) (sizeof(a) / sizeof((a)[0]))
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]
inline bool vp_map_reverse = false;

namespace absl {
using string_view = std::string_view;
template <class T> using Nonnull = T;
template <class T> using Nullable = T;
template <class T> using NullabilityUnknown = T;
template <class T> using optional = std::optional<T>;
using std::nullopt;
using std::make_optional;
template <class... T> using variant = std::variant<T...>;
using std::holds_alternative; using std::get_if; using std::visit; using std::make_unique;
template <class T> std::unique_ptr<T> WrapUnique(T* p) { return std::unique_ptr<T>(p); }
template <class To> constexpr To implicit_cast(typename std::enable_if<true, To>::type t) { return t; }
using std::move; using std::forward; using std::exchange;
template <class... Ts> struct OverloadT : Ts... { using Ts::operator()...; };
template <class... Ts> OverloadT(Ts...) -> OverloadT<Ts...>;
template <class... Ts> OverloadT<std::decay_t<Ts>...> Overload(Ts&&... t) { return OverloadT<std::decay_t<Ts>...>{std::forward<Ts>(t)...}; }

// ---- containers ----
namespace vpi {
template <class T> struct KeyOf { static const T& k(const T& t) { return t; } using key = T; };
template <class K, class V> struct KeyOf<std::pair<const K, V>> { static const K& k(const std::pair<const K, V>& t) { return t.first; } using key = K; };
template <class A, class B> bool eqk(const A& a, const B& b) { return a == b; }
template <class Eq> struct EqSel { template <class A, class B> static bool f(const A& a, const B& b) { return Eq{}(a, b); } };
template <class T> struct EqSel<std::equal_to<T>> { template <class A, class B> static bool f(const A& a, const B& b) {
  if constexpr (std::is_convertible_v<const A&, std::string_view> && std::is_convertible_v<const B&, std::string_view>) return std::string_view(a) == std::string_view(b);
  else return a == b; } };
// Slots with liveness flags; growth relocates (flat) or keeps node addresses (node).
template <class T, class Eq, bool Node> class Table {
 public:
  struct Slot { T* p; };
  std::vector<T*> s_;       // null = erased
  T* block_ = nullptr; size_t cap_ = 0, live_ = 0;
  Table() {}
  ~Table() { clear(); }
  Table(const Table& o) { for (T* p : o.s_) if (p) push(*p); }
  Table(Table&& o) noexcept { swap(o); }
  Table& operator=(const Table& o) { if (this != &o) { clear(); for (T* p : o.s_) if (p) push(*p); } return *this; }
  Table& operator=(Table&& o) noexcept { if (this != &o) { clear(); swap(o); } return *this; }
  void swap(Table& o) { s_.swap(o.s_); std::swap(block_, o.block_); std::swap(cap_, o.cap_); std::swap(live_, o.live_); }
  void clear() {
    for (T*& p : s_) if (p) { p->~T(); if (Node) ::operator delete((void*)p); p = nullptr; }
    s_.clear(); live_ = 0;
    if (block_) { ::operator delete((void*)block_); block_ = nullptr; cap_ = 0; }
  }
  template <class... A> T* push(A&&... a) {
    T* r;
    if (Node) r = (T*)::operator new(sizeof(T));
    else {
      if (s_.size() == cap_) {
        size_t nc = cap_ == 0 ? 1 : cap_ * 2 + 1;
        T* nb = (T*)::operator new(sizeof(T) * nc);
        T* tmp = nb + s_.size(); new (tmp) T(std::forward<A>(a)...);  // arguments may alias old elements
        for (size_t i = 0; i < s_.size(); i++) if (s_[i]) { new (nb + i) T(std::move(*s_[i])); s_[i]->~T(); s_[i] = nb + i; }
        if (block_) ::operator delete((void*)block_);
        block_ = nb; cap_ = nc; s_.push_back(tmp); live_++; return tmp;
      }
      r = block_ + s_.size();
    }
    new (r) T(std::forward<A>(a)...);
    s_.push_back(r); live_++;
    return r;
  }
  template <class K> size_t idx(const K& k) const {
    for (size_t i = 0; i < s_.size(); i++) if (s_[i] && EqSel<Eq>::f(KeyOf<T>::k(*s_[i]), k)) return i;
    return s_.size();
  }
  void eraseAt(size_t i) { s_[i]->~T(); if (Node) ::operator delete((void*)s_[i]); s_[i] = nullptr; live_--; if (!live_ && Node) s_.clear(); }
  void eraseBlocky(size_t i) { eraseAt(i); }
};
template <class T, class Tab, bool C> struct It {
  using value_type = T; using difference_type = ptrdiff_t; using iterator_category = std::forward_iterator_tag;
  using reference = std::conditional_t<C, const T&, T&>; using pointer = std::conditional_t<C, const T*, T*>;
  const Tab* t = nullptr; size_t i = 0;  // i in [0,size]; size = end.  In reverse mode, slot = size-1-i.
  size_t slot() const { return vp_map_reverse ? t->s_.size() - 1 - i : i; }
  void skip() { while (i < t->s_.size() && !t->s_[slot()]) ++i; }
  It() {}
  It(const Tab* tt, size_t ii) : t(tt), i(ii) {}
  template <bool C2, class = std::enable_if_t<C && !C2>> It(const It<T, Tab, C2>& o) : t(o.t), i(o.i) {}
  reference operator*() const { return *t->s_.at(slot()); }
  pointer operator->() const { return t->s_.at(slot()); }
  It& operator++() { ++i; skip(); return *this; }
  It operator++(int) { It r = *this; ++*this; return r; }
  bool isEnd() const { return !t || i >= t->s_.size(); }
  friend bool operator==(const It& a, const It& b) { return (a.isEnd() && b.isEnd()) || (!a.isEnd() && !b.isEnd() && a.i == b.i); }
  friend bool operator!=(const It& a, const It& b) { return !(a == b); }
};
template <class T, class Eq, bool Node, bool IsMap> class Hashed {
 public:
  using Tab = Table<T, Eq, Node>;
  using key_type = typename KeyOf<T>::key; using value_type = T; using size_type = size_t; using difference_type = ptrdiff_t;
  using iterator = It<T, Tab, !IsMap>; using const_iterator = It<T, Tab, true>;
  using reference = T&; using const_reference = const T&; using pointer = T*; using const_pointer = const T*;
  Tab t;
  Hashed() {}
  explicit Hashed(size_t) {}
  Hashed(std::initializer_list<T> l) { for (auto& x : l) insert(x); }
  template <class I, class = typename std::iterator_traits<I>::iterator_category> Hashed(I a, I b) { for (; a != b; ++a) insert(T(*a)); }
  iterator mk(size_t slot) const { if (slot >= t.s_.size()) return iterator(&t, t.s_.size()); return iterator(&t, vp_map_reverse ? t.s_.size() - 1 - slot : slot); }
  iterator begin() { iterator i(&t, 0); i.skip(); return i; }
  iterator end() { return iterator(&t, t.s_.size()); }
  const_iterator begin() const { const_iterator i(&t, 0); i.skip(); return i; }
  const_iterator end() const { return const_iterator(&t, t.s_.size()); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  size_t size() const { return t.live_; }
  bool empty() const { return t.live_ == 0; }
  void clear() { t.clear(); }
  void reserve(size_t) {}
  void rehash(size_t) {}
  void swap(Hashed& o) { t.swap(o.t); }
  friend void swap(Hashed& a, Hashed& b) { a.t.swap(b.t); }
  template <class K = key_type> iterator find(const K& k) { return mk(t.idx(k)); }
  template <class K = key_type> const_iterator find(const K& k) const { return mk(t.idx(k)); }
  template <class K = key_type> bool contains(const K& k) const { return t.idx(k) < t.s_.size(); }
  template <class K = key_type> size_t count(const K& k) const { return contains(k); }
  template <class K = key_type> std::pair<iterator, iterator> equal_range(const K& k) { auto a = find(k), b = a; if (b != end()) ++b; return {a, b}; }
  std::pair<iterator, bool> insert(const T& v) { size_t i = t.idx(KeyOf<T>::k(v)); if (i < t.s_.size()) return {mk(i), false}; t.push(v); return {mk(t.s_.size() - 1), true}; }
  std::pair<iterator, bool> insert(T&& v) { size_t i = t.idx(KeyOf<T>::k(v)); if (i < t.s_.size()) return {mk(i), false}; t.push(std::move(v)); return {mk(t.s_.size() - 1), true}; }
  iterator insert(const_iterator, const T& v) { return insert(v).first; }
  iterator insert(const_iterator, T&& v) { return insert(std::move(v)).first; }
  template <class I, class = typename std::iterator_traits<I>::iterator_category> void insert(I a, I b) { for (; a != b; ++a) insert(T(*a)); }
  void insert(std::initializer_list<T> l) { for (auto& x : l) insert(x); }
  template <class... A> std::pair<iterator, bool> emplace(A&&... a) { T v(std::forward<A>(a)...); return insert(std::move(v)); }
  template <class... A> iterator emplace_hint(const_iterator, A&&... a) { return emplace(std::forward<A>(a)...).first; }
  void erase(iterator i) { t.eraseAt(i.slot()); }
  template <class I = const_iterator, class = std::enable_if_t<IsMap && std::is_same_v<I, const_iterator>>> void erase(I i) { t.eraseAt(i.slot()); }
  template <class K = key_type, class = std::enable_if_t<!std::is_convertible_v<K, iterator> && !std::is_convertible_v<K, const_iterator>>> size_t erase(const K& k) { size_t i = t.idx(k); if (i >= t.s_.size()) return 0; t.eraseAt(i); return 1; }
  template <class P> size_t eraseIf(P p) { size_t n = 0; for (size_t i = 0; i < t.s_.size(); i++) if (t.s_[i] && p(*t.s_[i])) { t.eraseAt(i); n++; } return n; }
  friend bool operator==(const Hashed& a, const Hashed& b) {
    if (a.size() != b.size()) return false;
    for (auto& x : a) { auto i = b.find(KeyOf<T>::k(x)); if (i == b.end() || !(*i == x)) return false; }
    return true;
  }
  friend bool operator!=(const Hashed& a, const Hashed& b) { return !(a == b); }
};
template <class K, class V, class Eq, bool Node> class HMap : public Hashed<std::pair<const K, V>, Eq, Node, true> {
 public:
  using B = Hashed<std::pair<const K, V>, Eq, Node, true>; using B::B; using mapped_type = V; using iterator = typename B::iterator; using key_type = K;
  HMap() {}
  HMap(std::initializer_list<std::pair<const K, V>> l) : B(l) {}
  template <class Q> V& at_(const Q& k) { size_t i = this->t.idx(k); if (i >= this->t.s_.size()) vp_fatal("hash map at(): key not found"); return this->t.s_[i]->second; }
  template <class Q = K> V& at(const Q& k) { return at_(k); }
  template <class Q = K> const V& at(const Q& k) const { return const_cast<HMap*>(this)->at_(k); }
  template <class Q = K, class... A> std::pair<iterator, bool> try_emplace(const Q& k, A&&... a) {
    size_t i = this->t.idx(k); if (i < this->t.s_.size()) return {this->mk(i), false};
    this->t.push(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<A>(a)...)); return {this->mk(this->t.s_.size() - 1), true};
  }
  template <class... A> std::pair<iterator, bool> try_emplace(K&& k, A&&... a) {
    size_t i = this->t.idx(k); if (i < this->t.s_.size()) return {this->mk(i), false};
    this->t.push(std::piecewise_construct, std::forward_as_tuple(std::move(k)), std::forward_as_tuple(std::forward<A>(a)...)); return {this->mk(this->t.s_.size() - 1), true};
  }
  template <class Q, class M> std::pair<iterator, bool> insert_or_assign(Q&& k, M&& m) { K kk(std::forward<Q>(k)); size_t i = this->t.idx(kk); if (i < this->t.s_.size()) { this->t.s_[i]->second = std::forward<M>(m); return {this->mk(i), false}; } return try_emplace(std::move(kk), std::forward<M>(m)); }
  template <class Q = K, class = std::enable_if_t<!std::is_same_v<Q, K>>> V& operator[](const Q& k) { return try_emplace(k).first->second; }
  V& operator[](const K& k) { return try_emplace(k).first->second; }
  V& operator[](K&& k) { return try_emplace(std::move(k)).first->second; }
};
template <class T> struct LessSel { using type = std::less<T>; };
template <> struct LessSel<std::string> { using type = std::less<>; };
}  // namespace vpi
template <class K, class V, class H = void, class Eq = std::equal_to<K>, class A = void> class flat_hash_map : public vpi::HMap<K, V, Eq, false> { public: using vpi::HMap<K, V, Eq, false>::HMap; flat_hash_map() {} flat_hash_map(std::initializer_list<std::pair<const K, V>> l) : vpi::HMap<K, V, Eq, false>(l) {} };
template <class K, class V, class H = void, class Eq = std::equal_to<K>, class A = void> class node_hash_map : public vpi::HMap<K, V, Eq, true> { public: using vpi::HMap<K, V, Eq, true>::HMap; node_hash_map() {} };
template <class K, class H = void, class Eq = std::equal_to<K>, class A = void> class flat_hash_set : public vpi::Hashed<K, Eq, false, false> { public: using vpi::Hashed<K, Eq, false, false>::Hashed; flat_hash_set() {} flat_hash_set(std::initializer_list<K> l) : vpi::Hashed<K, Eq, false, false>(l) {} };
template <class K, class H = void, class Eq = std::equal_to<K>, class A = void> class node_hash_set : public vpi::Hashed<K, Eq, true, false> { public: using vpi::Hashed<K, Eq, true, false>::Hashed; node_hash_set() {} };
template <class K, class V, class C = typename vpi::LessSel<K>::type> class btree_map : public std::map<K, V, C> {
 public: using B = std::map<K, V, C>; using B::B; btree_map() {}
  template <class Q = K> bool contains(const Q& k) const { return this->find(k) != this->end(); }
};
template <class K, class C = typename vpi::LessSel<K>::type> class btree_set : public std::set<K, C> {
 public: using B = std::set<K, C>; using B::B; btree_set() {}
  template <class Q = K> bool contains(const Q& k) const { return this->find(k) != this->end(); }
};
template <class K, class V, class C = std::less<K>> using btree_multimap = std::multimap<K, V, C>;
template <class K, class C = std::less<K>> using btree_multiset = std::multiset<K, C>;
template <class T, class Eq, bool N, bool M, class P> size_t erase_if(vpi::Hashed<T, Eq, N, M>& c, P p) { return c.eraseIf(p); }
template <class K, class V, class C, class P> size_t erase_if(std::map<K, V, C>& c, P p) { size_t n = 0; for (auto i = c.begin(); i != c.end();) if (p(*i)) { i = c.erase(i); n++; } else ++i; return n; }
template <class K, class C, class P> size_t erase_if(std::set<K, C>& c, P p) { size_t n = 0; for (auto i = c.begin(); i != c.end();) if (p(*i)) { i = c.erase(i); n++; } else ++i; return n; }
template <class T> struct Hash { size_t operator()(const T&) const { return 0; } };
template <class T> size_t HashOf(const T&...) { return 0; }
struct HashState {};

template <class T, size_t N, class A = void> class InlinedVector : public std::vector<T> { public: using std::vector<T>::vector; };
template <class T, size_t N = 0> class FixedArray : public std::vector<T> { public: using std::vector<T>::vector; };

// ---- span ----
template <class T> class Span {
 public:
  using value_type = std::remove_cv_t<T>; using element_type = T; using iterator = T*; using const_iterator = const T*; using reference = T&; using size_type = size_t; using pointer = T*;
  T* d_ = nullptr; size_t n_ = 0;
  static constexpr size_t npos = ~size_t(0);
  constexpr Span() {}
  constexpr Span(T* p, size_t n) : d_(p), n_(n) {}
  template <size_t N> constexpr Span(T (&a)[N]) : d_(a), n_(N) {}
  template <class C, class = std::enable_if_t<!std::is_same_v<std::decay_t<C>, Span> && std::is_convertible_v<decltype(std::declval<C&>().data()), T*>>> constexpr Span(C& c) : d_(c.data()), n_(c.size()) {}
  template <class C, class = std::enable_if_t<std::is_const_v<T> && !std::is_same_v<std::decay_t<C>, Span> && std::is_convertible_v<decltype(std::declval<const C&>().data()), T*>>> constexpr Span(const C& c) : d_(c.data()), n_(c.size()) {}
  template <class U = T, class = std::enable_if_t<std::is_const_v<U>>> Span(std::initializer_list<value_type> l) : d_(l.begin()), n_(l.size()) {}
  T* data() const { return d_; } size_t size() const { return n_; } size_t length() const { return n_; } bool empty() const { return !n_; }
  T* begin() const { return d_; } T* end() const { return d_ + n_; } const T* cbegin() const { return d_; } const T* cend() const { return d_ + n_; }
  std::reverse_iterator<T*> rbegin() const { return std::reverse_iterator<T*>(end()); } std::reverse_iterator<T*> rend() const { return std::reverse_iterator<T*>(begin()); }
  T& operator[](size_t i) const { return d_[i]; } T& at(size_t i) const { if (i >= n_) vp_fatal("Span::at"); return d_[i]; }
  T& front() const { return d_[0]; } T& back() const { return d_[n_ - 1]; }
  Span subspan(size_t p, size_t n = npos) const { if (p > n_) vp_fatal("Span::subspan"); return Span(d_ + p, std::min(n, n_ - p)); }
  Span first(size_t n) const { return subspan(0, n); } Span last(size_t n) const { return subspan(n_ - n, n); }
  void remove_prefix(size_t n) { d_ += n; n_ -= n; } void remove_suffix(size_t n) { n_ -= n; }
};
template <class T> bool operator==(Span<T> a, Span<T> b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
template <class C> auto MakeConstSpan(const C& c) { return Span<const std::remove_pointer_t<decltype(c.data())>>(c); }
template <class C> auto MakeSpan(C& c) { return Span<std::remove_pointer_t<decltype(c.data())>>(c); }
template <class T> Span<T> MakeSpan(T* p, size_t n) { return Span<T>(p, n); }
template <class T> Span<const T> MakeConstSpan(T* p, size_t n) { return Span<const T>(p, n); }

// ---- functional ----
template <class S> class FunctionRef;
template <class R, class... A> class FunctionRef<R(A...)> {
  void* o_; R (*f_)(void*, A...);
 public:
  template <class F, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, FunctionRef> && std::is_invocable_r_v<R, F&, A...>>>
  FunctionRef(const F& f) : o_((void*)std::addressof(f)), f_([](void* o, A... a) -> R { return (R)(*(std::remove_reference_t<F>*)o)(std::forward<A>(a)...); }) {}
  template <class R2, class... A2> FunctionRef(R2 (*fp)(A2...)) : o_((void*)fp), f_([](void* o, A... a) -> R { return ((R2(*)(A2...))o)(std::forward<A>(a)...); }) {}
  R operator()(A... a) const { return f_(o_, std::forward<A>(a)...); }
};
template <class S> struct AnySig;
template <class R, class... A> struct AnySig<R(A...)> { using type = R(A...); };
template <class R, class... A> struct AnySig<R(A...) const> { using type = R(A...); };
template <class R, class... A> struct AnySig<R(A...) &&> { using type = R(A...); };
template <class R, class S> class AnyInvocableImpl;
template <class R, class... A> class AnyInvocableImpl<R, R(A...)> {
  struct Base { virtual ~Base() {} virtual R call(A... a) = 0; };
  template <class F> struct Impl : Base { F f; Impl(F&& g) : f(std::move(g)) {} Impl(const F& g) : f(g) {} R call(A... a) override { return (R)f(std::forward<A>(a)...); } };
  std::unique_ptr<Base> p_;
 public:
  AnyInvocableImpl() {}
  AnyInvocableImpl(std::nullptr_t) {}
  AnyInvocableImpl(AnyInvocableImpl&&) = default; AnyInvocableImpl& operator=(AnyInvocableImpl&&) = default;
  template <class F, class = std::enable_if_t<!std::is_base_of_v<AnyInvocableImpl, std::decay_t<F>>>> AnyInvocableImpl(F&& f) : p_(new Impl<std::decay_t<F>>(std::forward<F>(f))) {}
  R operator()(A... a) const { if (!p_) vp_fatal("empty AnyInvocable called"); return p_->call(std::forward<A>(a)...); }
  explicit operator bool() const { return !!p_; }
  friend bool operator==(const AnyInvocableImpl& a, std::nullptr_t) { return !a.p_; }
  friend bool operator!=(const AnyInvocableImpl& a, std::nullptr_t) { return !!a.p_; }
};
template <class S> struct RetOf; template <class R, class... A> struct RetOf<R(A...)> { using type = R; };
template <class S> using AnyInvocable = AnyInvocableImpl<typename RetOf<typename AnySig<S>::type>::type, typename AnySig<S>::type>;

// ---- status ----
enum class StatusCode : int { kOk = 0, kCancelled, kUnknown, kInvalidArgument, kDeadlineExceeded, kNotFound, kAlreadyExists, kPermissionDenied, kResourceExhausted, kFailedPrecondition, kAborted, kOutOfRange, kUnimplemented, kInternal, kUnavailable, kDataLoss, kUnauthenticated };
class Status {
  StatusCode c_ = StatusCode::kOk; std::string m_;
 public:
  Status() {}
  Status(StatusCode c, string_view m) : c_(c), m_(m) {}
  bool ok() const { return c_ == StatusCode::kOk; }
  StatusCode code() const { return c_; }
  string_view message() const { return m_; }
  std::string ToString() const { return m_; }
  void IgnoreError() const {}
  void Update(const Status& s) { if (ok()) *this = s; }
  friend bool operator==(const Status& a, const Status& b) { return a.c_ == b.c_ && a.m_ == b.m_; }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
  friend std::ostream& operator<<(std::ostream& o, const Status& s) { return o; }
};
inline Status OkStatus() { return Status(); }
#define VPST(n) inline Status n##Error(string_view m) { return Status(StatusCode::k##n, m); } inline bool Is##n(const Status& s) { return s.code() == StatusCode::k##n; }
VPST(Cancelled) VPST(Unknown) VPST(InvalidArgument) VPST(DeadlineExceeded) VPST(NotFound) VPST(AlreadyExists) VPST(PermissionDenied) VPST(ResourceExhausted) VPST(FailedPrecondition) VPST(Aborted) VPST(OutOfRange) VPST(Unimplemented) VPST(Internal) VPST(Unavailable) VPST(DataLoss)
#undef VPST
inline StatusCode ErrnoToStatusCode(int) { return StatusCode::kUnknown; }
inline Status ErrnoToStatus(int, string_view m) { return Status(StatusCode::kUnknown, m); }
template <class T> class StatusOr {
  Status s_; std::optional<T> v_;
 public:
  using value_type = T;
  StatusOr() : s_(StatusCode::kUnknown, "") {}
  StatusOr(const Status& s) : s_(s) { if (s_.ok()) vp_fatal("StatusOr built from OK status"); }
  StatusOr(Status&& s) : s_(std::move(s)) { if (s_.ok()) vp_fatal("StatusOr built from OK status"); }
  template <class U = T, class = std::enable_if_t<std::is_convertible_v<U&&, T> && !std::is_same_v<std::decay_t<U>, StatusOr> && !std::is_same_v<std::decay_t<U>, Status>>> StatusOr(U&& u) : v_(std::in_place, std::forward<U>(u)) {}
  template <class U, class = std::enable_if_t<!std::is_same_v<U, T> && std::is_convertible_v<U, T>>> StatusOr(StatusOr<U>&& o) : s_(o.status()) { if (o.ok()) v_.emplace(*std::move(o)); }
  StatusOr(const StatusOr&) = default; StatusOr(StatusOr&&) = default; StatusOr& operator=(const StatusOr&) = default; StatusOr& operator=(StatusOr&&) = default;
  bool ok() const { return s_.ok(); }
  const Status& status() const& { return s_; }
  Status status() && { return s_; }
  void need() const { if (!s_.ok()) vp_fatal("StatusOr value() on error"); }
  T& value() & { need(); return *v_; } const T& value() const& { need(); return *v_; } T&& value() && { need(); return std::move(*v_); }
  T& operator*() & { need(); return *v_; } const T& operator*() const& { need(); return *v_; } T&& operator*() && { need(); return std::move(*v_); }
  T* operator->() { need(); return &*v_; } const T* operator->() const { need(); return &*v_; }
  template <class U> T value_or(U&& u) const& { return ok() ? *v_ : static_cast<T>(std::forward<U>(u)); }
  template <class U> T value_or(U&& u) && { return ok() ? std::move(*v_) : static_cast<T>(std::forward<U>(u)); }
  template <class... A> T& emplace(A&&... a) { s_ = Status(); return v_.emplace(std::forward<A>(a)...); }
};

// ---- strings ----
namespace vpi {
inline std::string u2s(unsigned long long v) { char b[24]; int i = 24; do { b[--i] = '0' + v % 10; v /= 10; } while (v); return std::string(b + i, 24 - i); }
inline std::string i2s(long long v) { return v < 0 ? "-" + u2s(0 - (unsigned long long)v) : u2s(v); }
inline std::string x2s(unsigned long long v, bool up = false) { char b[20]; int i = 20; do { unsigned d = v & 15; b[--i] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; v >>= 4; } while (v); return std::string(b + i, 20 - i); }
inline std::string d2s(double d, const char* f = "%g") { char b[400]; snprintf(b, sizeof b, f, d); return b; }
struct StrSink { std::string s; void Append(string_view v) { s.append(v); } void Append(size_t n, char c) { s.append(n, c); } friend void AbslFormatFlush(StrSink* k, string_view v) { k->s.append(v); } };
template <class T, class = void> struct HasStringify : std::false_type {};
template <class T> struct HasStringify<T, std::void_t<decltype(AbslStringify(std::declval<StrSink&>(), std::declval<const T&>()))>> : std::true_type {};
}
struct Hex { unsigned long long v; int w; template <class T> explicit Hex(T t, int w = 0) : v((std::make_unsigned_t<T>)t), w(w) {} };
enum PadSpec { kNoPad = 1, kZeroPad2 = 2, kZeroPad4 = 4, kZeroPad8 = 8, kZeroPad16 = 16 };
namespace vpi {
template <class T> std::string str(const T& t) {
  using D = std::decay_t<T>;
  if constexpr (std::is_same_v<D, bool>) return t ? "1" : "0";
  else if constexpr (std::is_same_v<D, char>) return std::string(1, t);
  else if constexpr (std::is_convertible_v<const T&, string_view>) return std::string(string_view(t));
  else if constexpr (HasStringify<D>::value) { StrSink k; AbslStringify(k, t); return k.s; }
  else if constexpr (std::is_enum_v<D>) return i2s((long long)t);
  else if constexpr (std::is_integral_v<D>) { if constexpr (std::is_signed_v<D>) return i2s(t); else return u2s(t); }
  else if constexpr (std::is_floating_point_v<D>) return d2s(t);
  else if constexpr (std::is_same_v<D, Hex>) { std::string s = x2s(t.v); while ((int)s.size() < t.w) s = "0" + s; return s; }
  else if constexpr (std::is_pointer_v<D>) return "ptr";
  else return "?";
}
struct FArg { int kind; long long i; unsigned long long u; double d; std::string s; };
template <class T> FArg farg(const T& t) {
  using D = std::decay_t<T>; FArg a{0, 0, 0, 0, {}};
  if constexpr (std::is_floating_point_v<D>) { a.kind = 2; a.d = t; }
  else if constexpr (std::is_integral_v<D>) { a.kind = std::is_signed_v<D> ? 0 : 1; a.i = (long long)t; a.u = (unsigned long long)(std::make_unsigned_t<std::conditional_t<std::is_same_v<D, bool>, unsigned char, D>>)t; }
  else if constexpr (std::is_enum_v<D>) { a.kind = 0; a.i = (long long)t; a.u = (unsigned long long)a.i; }
  else { a.kind = 3; a.s = str(t); }
  return a;
}
inline std::string vfmt(string_view f, const std::vector<FArg>& as) {
  std::string o; size_t k = 0;
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { o += f[i]; continue; }
    if (++i >= f.size()) break;
    if (f[i] == '%') { o += '%'; continue; }
    bool zero = false, left = false, alt = false; int w = 0, p = -1;
    for (;; i++) { if (f[i] == '0') zero = true; else if (f[i] == '-') left = true; else if (f[i] == '#') alt = true; else if (f[i] == '+' || f[i] == ' ') {} else break; }
    while (f[i] >= '0' && f[i] <= '9') w = w * 10 + f[i++] - '0';
    if (f[i] == '.') { i++; p = 0; while (f[i] >= '0' && f[i] <= '9') p = p * 10 + f[i++] - '0'; }
    while (f[i] == 'l' || f[i] == 'z' || f[i] == 'h' || f[i] == 'j') i++;
    if (k >= as.size()) vp_fatal("StrFormat: too few arguments");
    const FArg& a = as[k++]; std::string s;
    switch (f[i]) {
      case 'x': case 'X': s = x2s(a.u, f[i] == 'X'); if (alt) s = "0x" + s; break;
      case 'c': s = std::string(1, (char)a.i); break;
      case 'f': case 'g': case 'e': { char b[16]; if (p < 0) snprintf(b, 16, "%%%c", f[i]); else snprintf(b, 16, "%%.%d%c", p, f[i]); double v = a.kind == 2 ? a.d : (double)a.i; uint64_t u; memcpy(&u, &v, 8); s = vp_is_symbolic(u) ? "<number>" : d2s(v, b); break; }   // texts of symbolic doubles only occur in messages
      default: s = a.kind == 0 ? i2s(a.i) : a.kind == 1 ? u2s(a.u) : a.kind == 2 ? d2s(a.d) : a.s; if (f[i] == 's' && p >= 0) s = s.substr(0, p);
    }
    while ((int)s.size() < w) { if (left) s += ' '; else s.insert(s.begin(), zero ? '0' : ' '); }
    o += s;
  }
  return o;
}
}
template <class... A> std::string StrCat(const A&... a) { std::string r; (void)std::initializer_list<int>{0, (r += vpi::str(a), 0)...}; return r; }
template <class... A> void StrAppend(std::string* r, const A&... a) { (void)std::initializer_list<int>{0, (r->append(vpi::str(a)), 0)...}; }
template <class... A> std::string StrFormat(string_view f, const A&... a) { return vpi::vfmt(f, std::vector<vpi::FArg>{vpi::farg(a)...}); }
template <class... A> std::string StreamFormat(string_view f, const A&... a) { return StrFormat(f, a...); }
template <class... A> std::string StrAppendFormat(std::string* r, string_view f, const A&... a) { return r->append(StrFormat(f, a...)); }
#ifdef VP_MEMPRINT_H
template <class... A> int PrintF(string_view f, const A&... a) { return vpout::add(StrFormat(f, a...)); }
#else
template <class... A> int PrintF(string_view f, const A&... a) { return (int)StrFormat(f, a...).size(); }
#endif
#ifdef VP_MEMFILE_H
template <class... A> int FPrintF(FILE* h, string_view f, const A&... a) { std::string r = StrFormat(f, a...); vpf::write(r.data(), 1, r.size(), h); return (int)r.size(); }
#else
template <class... A> int FPrintF(FILE*, string_view f, const A&... a) { return (int)StrFormat(f, a...).size(); }
#endif
template <class... A> using FormatSpec = string_view;
template <class... A> using ParsedFormat = string_view;
template <class S, class... A> bool Format(S* s, string_view f, const A&... a) {
  std::string r = StrFormat(f, a...);
  if constexpr (std::is_same_v<S, std::string>) s->append(r); else if constexpr (std::is_base_of_v<std::ostream, S>) s->write(r.data(), r.size()); else s->Append(r);
  return true;
}
inline bool StartsWith(string_view a, string_view b) { return a.size() >= b.size() && a.substr(0, b.size()) == b; }
inline bool EndsWith(string_view a, string_view b) { return a.size() >= b.size() && a.substr(a.size() - b.size()) == b; }
inline bool StrContains(string_view a, string_view b) { return a.find(b) != string_view::npos; }
inline bool StrContains(string_view a, char b) { return a.find(b) != string_view::npos; }
inline bool ConsumePrefix(string_view* s, string_view p) { if (!StartsWith(*s, p)) return false; s->remove_prefix(p.size()); return true; }
inline bool ConsumeSuffix(string_view* s, string_view p) { if (!EndsWith(*s, p)) return false; s->remove_suffix(p.size()); return true; }
inline string_view StripPrefix(string_view s, string_view p) { ConsumePrefix(&s, p); return s; }
inline string_view StripSuffix(string_view s, string_view p) { ConsumeSuffix(&s, p); return s; }
struct StreamFormatterT { template <class T> void operator()(std::string* o, const T& t) const { o->append(vpi::str(t)); } };
template <class F> struct PairFmt { std::string sep; template <class P> void operator()(std::string* o, const P& p) const { o->append(vpi::str(p.first)); o->append(sep); o->append(vpi::str(p.second)); } };
inline StreamFormatterT StreamFormatter() { return {}; }
inline StreamFormatterT AlphaNumFormatter() { return {}; }
inline PairFmt<int> PairFormatter(string_view s) { return {std::string(s)}; }
template <class C, class F> std::string StrJoin(const C& c, string_view sep, F f) { std::string r; bool first = true; for (auto&& x : c) { if (!first) r.append(sep); first = false; f(&r, x); } return r; }
template <class C> std::string StrJoin(const C& c, string_view sep) { return StrJoin(c, sep, StreamFormatterT()); }
template <class T> std::string StrJoin(std::initializer_list<T> c, string_view sep) { std::string r; bool first = true; for (auto& x : c) { if (!first) r.append(sep); first = false; r.append(vpi::str(x)); } return r; }
template <class I, class F, class = typename std::iterator_traits<I>::iterator_category> std::string StrJoin(I a, I b, string_view sep, F f) { std::string r; for (I i = a; i != b; ++i) { if (i != a) r.append(sep); f(&r, *i); } return r; }
template <class I, class = typename std::iterator_traits<I>::iterator_category> std::string StrJoin(I a, I b, string_view sep) { return StrJoin(a, b, sep, StreamFormatterT()); }
struct SkipEmpty {}; struct AllowEmpty {}; struct SkipWhitespace {};
struct ByAnyChar { std::string d; explicit ByAnyChar(string_view s) : d(s) {} };
struct Splits {
  std::vector<string_view> v;
  auto begin() const { return v.begin(); } auto end() const { return v.end(); }
  template <class C, class = typename C::value_type> operator C() const { C c; for (auto x : v) c.insert(c.end(), typename C::value_type(x)); return c; }
  template <class A, class B> operator std::pair<A, B>() const { std::pair<A, B> p; if (v.size() > 0) p.first = A(v[0]); if (v.size() > 1) p.second = B(v[1]); return p; }
};
namespace vpi {
template <class F> Splits split(string_view s, F isd, size_t dl, bool skip) { Splits r; size_t st = 0, i = 0; for (; i + (dl ? dl : 1) <= s.size() && !s.empty();) { if (isd(s.substr(i))) { if (!skip || i > st) r.v.push_back(s.substr(st, i - st)); i += dl; st = i; } else i++; } if (!skip || st < s.size()) r.v.push_back(s.substr(st)); return r; }
}
inline Splits StrSplit(string_view s, char d) { return vpi::split(s, [=](string_view x) { return x[0] == d; }, 1, false); }
inline Splits StrSplit(string_view s, char d, SkipEmpty) { return vpi::split(s, [=](string_view x) { return x[0] == d; }, 1, true); }
inline Splits StrSplit(string_view s, string_view d) { return vpi::split(s, [=](string_view x) { return StartsWith(x, d); }, d.size(), false); }
inline Splits StrSplit(string_view s, string_view d, SkipEmpty) { return vpi::split(s, [=](string_view x) { return StartsWith(x, d); }, d.size(), true); }
inline Splits StrSplit(string_view s, const ByAnyChar& d) { return vpi::split(s, [&](string_view x) { return d.d.find(x[0]) != std::string::npos; }, 1, false); }
template <class T> bool SimpleAtoi(string_view s, T* o) { std::string z(s); char* e; if (z.empty()) return false; if constexpr (std::is_signed_v<T>) { long long v = strtoll(z.c_str(), &e, 10); *o = (T)v; if ((long long)(T)v != v) return false; } else { if (z[0] == '-') return false; unsigned long long v = strtoull(z.c_str(), &e, 10); *o = (T)v; if ((unsigned long long)(T)v != v) return false; } return *e == 0; }
template <class T> bool SimpleHexAtoi(string_view s, T* o) { std::string z(s); char* e; if (z.empty()) return false; *o = (T)strtoull(z.c_str(), &e, 16); return *e == 0; }
inline string_view StripAsciiWhitespace(string_view s) { while (!s.empty() && (s[0] == ' ' || (s[0] >= 9 && s[0] <= 13))) s.remove_prefix(1); while (!s.empty() && (s.back() == ' ' || (s.back() >= 9 && s.back() <= 13))) s.remove_suffix(1); return s; }
inline string_view NullSafeStringView(const char* p) { return p ? string_view(p) : string_view(); }
namespace debugging_internal { inline bool Demangle(const char*, char*, int) { return false; } }

// ---- algorithms ----
#define VPC(n) template <class C, class... A> auto c_##n(C&& c, A&&... a) { using std::begin; using std::end; return std::n(begin(c), end(c), std::forward<A>(a)...); }
VPC(sort) VPC(stable_sort) VPC(find) VPC(find_if) VPC(any_of) VPC(all_of) VPC(none_of) VPC(count) VPC(count_if) VPC(accumulate) VPC(max_element) VPC(min_element) VPC(copy) VPC(copy_if) VPC(transform) VPC(upper_bound) VPC(lower_bound) VPC(for_each) VPC(reverse) VPC(fill) VPC(binary_search) VPC(is_sorted) VPC(move) VPC(iota) VPC(unique_copy) VPC(partition) VPC(stable_partition)
#undef VPC
template <class C, class I, class... A> void c_nth_element(C& c, I it, A&&... a) { std::nth_element(c.begin(), it, c.end(), std::forward<A>(a)...); }
template <class C, class D> bool c_equal(const C& c, const D& d) { return std::equal(std::begin(c), std::end(c), std::begin(d), std::end(d)); }
template <class C, class D, class P> bool c_equal(const C& c, const D& d, P p) { return std::equal(std::begin(c), std::end(c), std::begin(d), std::end(d), p); }
template <class C, class T> bool c_linear_search(const C& c, const T& t) { for (auto& x : c) if (x == t) return true; return false; }
template <class C, class T> bool linear_search(C a, C b, const T& t) { for (; a != b; ++a) if (*a == t) return true; return false; }

// ---- flags ----
template <class T> struct Flag { T v; };
template <class T> const T& GetFlag(const Flag<T>& f) { return f.v; }
template <class T, class U> void SetFlag(Flag<T>* f, U&& u) { f->v = std::forward<U>(u); }
inline void SetProgramUsageMessage(string_view) {}
inline std::vector<char*> ParseCommandLine(int c, char** v) { return std::vector<char*>(v, v + c); }

// ---- sync / time ----
class Mutex { public: void Lock() {} void Unlock() {} void ReaderLock() {} void ReaderUnlock() {} bool TryLock() { return true; } void AssertHeld() const {} };
class MutexLock { public: explicit MutexLock(Mutex*) {} };
class ReaderMutexLock { public: explicit ReaderMutexLock(Mutex*) {} };
class Time { public: long long ns = 0; };
class Duration { public: long long ns = 0; };
inline Time Now() { return {}; }
inline Time FromUnixNanos(long long n) { Time t; t.ns = n; return t; }
inline Time FromUnixSeconds(long long n) { Time t; t.ns = n * 1000000000ll; return t; }
inline Time InfinitePast() { Time t; t.ns = INT64_MIN; return t; }
inline long long ToUnixNanos(Time t) { return t.ns; }
inline Duration operator-(Time a, Time b) { Duration d; d.ns = a.ns - b.ns; return d; }
inline bool operator<(Time a, Time b) { return a.ns < b.ns; } inline bool operator>(Time a, Time b) { return a.ns > b.ns; } inline bool operator<=(Time a, Time b) { return a.ns <= b.ns; } inline bool operator>=(Time a, Time b) { return a.ns >= b.ns; } inline bool operator==(Time a, Time b) { return a.ns == b.ns; }
}  // namespace absl
#define ABSL_FLAG(T, n, d, h) absl::Flag<T> FLAGS_##n{d}
#define ABSL_DECLARE_FLAG(T, n) extern absl::Flag<T> FLAGS_##n
#define ABSL_RETIRED_FLAG(T, n, d, h) static_assert(true, "")
#endif
