// The types of the universe; see universe.h.
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <cstddef>
#include <cstring>
#include <deque>
#include <functional>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include "arpc/serializable.h"
#include "arpc/string_adapters.h"
#include "universe.h"

namespace uni {

template <typename T, typename Enable = void> struct U;   // gen, pat, eq, ref

template <typename T> T gen(int lvl) { return U<T>::gen(lvl); }
template <typename T> T pat(int i) { return U<T>::pat(i); }
template <typename T> bool eq(const T& a, const T& b) { return U<T>::eq(a, b); }
template <typename T> void ref(std::string& o, const T& v, bool big) { U<T>::ref(o, v, big); }

// --- scalars ---------------------------------------------------------------
enum class E8 : uint8_t { a = 0, b = 7, c = 255 };
enum class E32 : int32_t { a = 0, b = -5, c = 0x01020304 };
enum class EB : bool { no = false, yes = true };
enum class E64 : uint64_t { a = 0, b = 0x1122334455667788, c = ~0ull };
enum class EC : char { a = 'a', b = '\0' };
enum Old : uint16_t { old_a = 0, old_b = 0x1234 };

template <typename T>
struct U<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
  static T gen(int lvl) {
    static const T full[] = {T(0), T(1), T(-1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(0x0102030405060708ull), T(0x80), T(0x7f)};
    return lvl == 0 ? mc::pick(full, "int") : full[mc::choose(lvl == 1 ? 3 : 2, "int") * 2 + (lvl > 1)];
  }
  static T pat(int i) { return T(i * 0x0101010101010107ull + 3); }
  static bool eq(T a, T b) { return a == b; }
  static void ref(std::string& o, T v, bool big) { ref_raw(o, &v, sizeof v, big); }
};
template <> struct U<bool> {
  static bool gen(int) { return mc::choose(2, "bool"); }
  static bool pat(int i) { return i % 3 != 0; }
  static bool eq(bool a, bool b) { return a == b; }
  static void ref(std::string& o, bool v, bool) { o.push_back(v ? 1 : 0); }
};
template <typename T>
struct U<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  static T gen(int lvl) {
    static const T full[] = {T(0), T(-0.0), T(1.5), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::max(), std::numeric_limits<T>::quiet_NaN()};
    return lvl == 0 ? mc::pick(full, "float") : full[mc::choose(2, "float") + 1];
  }
  static T pat(int i) { return T(i) * T(1.25) - T(3); }
  static bool eq(T a, T b) { return std::memcmp(&a, &b, sizeof a) == 0; }
  static void ref(std::string& o, T v, bool big) { ref_raw(o, &v, sizeof v, big); }
};
template <typename T>
struct U<T, std::enable_if_t<std::is_enum_v<T>>> {
  using B = std::underlying_type_t<T>;
  static T gen(int lvl) { return T(uni::gen<B>(lvl)); }
  static T pat(int i) { return T(uni::pat<B>(i)); }
  static bool eq(T a, T b) {
    if (std::is_same_v<B, bool>) {   // one of two values only
      unsigned char x, y; std::memcpy(&x, &a, 1); std::memcpy(&y, &b, 1);
      return x == y && x < 2;
    }
    return a == b;
  }
  static void ref(std::string& o, T v, bool big) { B b = B(v); ref_raw(o, &b, sizeof b, big); }
};
// --- containers -------------------------------------------------------------
template <typename C> void add_to(C& c, typename C::value_type v, long) { c.push_back(std::move(v)); }
template <typename C> auto add_to(C& c, typename C::value_type v, int) -> decltype(typename C::key_type(), void()) { c.insert(std::move(v)); }
template <typename V> struct unconst { using type = V; };
template <typename K, typename M> struct unconst<std::pair<const K, M>> { using type = std::pair<K, M>; };

inline size_t container_size(int lvl, bool cheap) {
  // All small sizes, and the sizes around each step of the size encoding.
  static const size_t big[] = {0, 1, 2, 3, 127, 128, 129, 255, 256, 300, 16383, 16384, 16511, 2097151, 2097152, 2097153};
  if (lvl == 0) return big[mc::choose(cheap ? mc::tier_pick(13, 16) : mc::tier_pick(10, 13), "size")];
  return mc::choose(lvl == 1 ? 3 : 2, "size");
}
template <typename C>
struct UContainer {
  using V = typename unconst<typename C::value_type>::type;
  static constexpr bool cheap = std::is_arithmetic_v<V>;
  static C gen(int lvl) {
    C c;
    size_t n = container_size(lvl, cheap);
    for (size_t i = 0; i < n; i++) add_to(c, n <= 3 ? uni::gen<V>(lvl + 1 + (i > 1)) : uni::pat<V>(int(i)), 0);
    return c;
  }
  static C pat(int i) { C c; for (int k = 0; k < i % 4; k++) add_to(c, uni::pat<V>(i + k), 0); return c; }
  static bool eq(const C& a, const C& b) {
    if (a.size() != b.size()) return false;
    auto i = a.begin(); auto j = b.begin();
    for (; i != a.end(); ++i, ++j) if (!U<V>::eq(*i, *j)) return false;
    return true;
  }
  static void ref(std::string& o, const C& c, bool big) {
    ref_size(o, c.size());
    for (const auto& e : c) { const V v = e; U<V>::ref(o, v, big); }
  }
};
template <typename C> struct UUnordered : UContainer<C> {
  static bool eq(const C& a, const C& b) { return a == b; }
};
template <> struct U<std::string> : UContainer<std::string> {};
template <typename T> struct U<std::vector<T>> : UContainer<std::vector<T>> {};
template <typename T> struct U<std::deque<T>> : UContainer<std::deque<T>> {};
template <typename T> struct U<std::list<T>> : UContainer<std::list<T>> {};
template <typename T, typename C> struct U<std::set<T, C>> : UContainer<std::set<T, C>> {};
template <typename T> struct U<std::multiset<T>> : UContainer<std::multiset<T>> {};
template <typename T, typename V> struct U<std::map<T, V>> : UContainer<std::map<T, V>> {};
template <typename T, typename V> struct U<std::multimap<T, V>> : UContainer<std::multimap<T, V>> {};
template <typename T> struct U<std::unordered_set<T>> : UUnordered<std::unordered_set<T>> {};
template <typename T, typename V> struct U<std::unordered_map<T, V>> : UUnordered<std::unordered_map<T, V>> {};
template <typename T> struct U<arpc::flat_set<T>> : UContainer<arpc::flat_set<T>> {};
template <typename T> struct U<arpc::flat_multiset<T>> : UContainer<arpc::flat_multiset<T>> {};
template <typename T, typename V> struct U<arpc::flat_map<T, V>> : UContainer<arpc::flat_map<T, V>> {};
template <> struct U<std::wstring> : UContainer<std::wstring> {};
template <> struct U<std::u16string> : UContainer<std::u16string> {};
// Equal keys of unordered multi containers come in no particular order.
template <typename T> struct U<std::unordered_multiset<T>> : UUnordered<std::unordered_multiset<T>> {};
template <typename T, typename V> struct U<std::unordered_multimap<T, V>> : UUnordered<std::unordered_multimap<T, V>> {};
template <typename T> struct U<std::map<T, std::unique_ptr<int32_t>>> : UContainer<std::map<T, std::unique_ptr<int32_t>>> {
  using C = std::map<T, std::unique_ptr<int32_t>>;
  static bool eq(const C& a, const C& b) {
    if (a.size() != b.size()) return false;
    auto i = a.begin(); auto j = b.begin();
    for (; i != a.end(); ++i, ++j) if (!uni::eq(i->first, j->first) || !uni::eq(i->second, j->second)) return false;
    return true;
  }
  static void ref(std::string& o, const C& c, bool big) { ref_size(o, c.size()); for (const auto& e : c) { uni::ref(o, e.first, big); uni::ref(o, e.second, big); } }
};
// A container of a user's own, of the usual kind but with little else.
template <typename T> class Ring {
 public:
  using value_type = T; using size_type = std::size_t;
  auto begin() { return d_.begin(); } auto end() { return d_.end(); } auto begin() const { return d_.begin(); } auto end() const { return d_.end(); }
  size_t size() const { return d_.size(); } void clear() { d_.clear(); } void push_back(T v) { d_.push_back(std::move(v)); }
 private:
  std::list<T> d_;
};
template <typename T> struct U<Ring<T>> : UContainer<Ring<T>> {};
// The order of equal keys is not part of a flat multimap's value (its own tests
// pin that inserting puts the newest first).
template <typename T, typename V> struct U<arpc::flat_multimap<T, V>> : UContainer<arpc::flat_multimap<T, V>> {
  using C = arpc::flat_multimap<T, V>;
  static bool eq(const C& a, const C& b) {
    if (a.size() != b.size()) return false;
    std::vector<std::string> ea, eb;
    auto j = b.begin();
    for (auto i = a.begin(); i != a.end(); ++i, ++j) {
      if (!U<T>::eq(i->first, j->first)) return false;
      std::string s; uni::ref(s, i->first, true); s += '|'; uni::ref(s, i->second, true); ea.push_back(s);
      s.clear(); uni::ref(s, j->first, true); s += '|'; uni::ref(s, j->second, true); eb.push_back(s);
    }
    std::sort(ea.begin(), ea.end()); std::sort(eb.begin(), eb.end());
    return ea == eb;
  }
};
// vector<unique_ptr<..>> cannot be copied in UContainer::ref
template <typename T> struct U<std::vector<std::unique_ptr<T>>> : UContainer<std::vector<std::unique_ptr<T>>> {
  using C = std::vector<std::unique_ptr<T>>;
  static void ref(std::string& o, const C& c, bool big) { ref_size(o, c.size()); for (const auto& e : c) uni::ref(o, e, big); }
};
template <typename T, size_t N>
struct U<std::array<T, N>> {
  static std::array<T, N> gen(int lvl) { std::array<T, N> a{}; for (size_t i = 0; i < N; i++) a[i] = uni::gen<T>(lvl + 1); return a; }
  static std::array<T, N> pat(int i) { std::array<T, N> a{}; for (size_t k = 0; k < N; k++) a[k] = uni::pat<T>(i + k); return a; }
  static bool eq(const std::array<T, N>& a, const std::array<T, N>& b) { for (size_t i = 0; i < N; i++) if (!U<T>::eq(a[i], b[i])) return false; return true; }
  static void ref(std::string& o, const std::array<T, N>& v, bool big) { for (const auto& e : v) U<T>::ref(o, e, big); }
};
// --- products ---------------------------------------------------------------
template <typename... T>
struct U<std::tuple<T...>> {
  using X = std::tuple<T...>;
  static X gen(int lvl) { (void)lvl; return X{uni::gen<T>(lvl + 1)...}; }
  static X pat(int i) { (void)i; int k = 0; (void)k; return X{uni::pat<T>(i + k++)...}; }
  static bool eq(const X& a, const X& b) { return eq_(a, b, std::index_sequence_for<T...>()); }
  template <size_t... I> static bool eq_(const X& a, const X& b, std::index_sequence<I...>) { return (true && ... && U<T>::eq(std::get<I>(a), std::get<I>(b))); }
  static void ref(std::string& o, const X& v, bool big) { std::apply([&](const T&... e) { (void)o; (void)big; (U<T>::ref(o, e, big), ...); }, v); }
};
template <typename A, typename B>
struct U<std::pair<A, B>> {
  using X = std::pair<A, B>;
  static X gen(int lvl) { A a = uni::gen<A>(lvl + 1); B b = uni::gen<B>(lvl + 1); return X(std::move(a), std::move(b)); }
  static X pat(int i) { return X(uni::pat<A>(i), uni::pat<B>(i + 1)); }
  static bool eq(const X& a, const X& b) { return U<A>::eq(a.first, b.first) && U<B>::eq(a.second, b.second); }
  static void ref(std::string& o, const X& v, bool big) { U<A>::ref(o, v.first, big); U<B>::ref(o, v.second, big); }
};
template <typename T>
struct U<std::optional<T>> {
  using X = std::optional<T>;
  static X gen(int lvl) { X x; if (mc::choose(2, "present")) x.emplace(uni::gen<T>(lvl)); return x; }
  static X pat(int i) { X x; if (i % 3) x.emplace(uni::pat<T>(i)); return x; }
  static bool eq(const X& a, const X& b) { return bool(a) == bool(b) && (!a || U<T>::eq(*a, *b)); }
  static void ref(std::string& o, const X& v, bool big) { o.push_back(v ? 1 : 0); if (v) U<T>::ref(o, *v, big); }
};
template <typename T>
struct U<std::unique_ptr<T>> {
  using X = std::unique_ptr<T>;
  static X gen(int lvl) { X x; if (mc::choose(2, "present")) x = std::make_unique<T>(uni::gen<T>(lvl)); return x; }
  static X pat(int i) { X x; if (i % 3) x = std::make_unique<T>(uni::pat<T>(i)); return x; }
  static bool eq(const X& a, const X& b) { return bool(a) == bool(b) && (!a || U<T>::eq(*a, *b)); }
  static void ref(std::string& o, const X& v, bool big) { o.push_back(v ? 1 : 0); if (v) U<T>::ref(o, *v, big); }
};
template <typename R, typename P>
struct U<std::chrono::duration<R, P>> {
  using X = std::chrono::duration<R, P>;
  static X gen(int lvl) { return X(uni::gen<R>(lvl)); }
  static X pat(int i) { return X(R(i * 1000003)); }
  static bool eq(const X& a, const X& b) { return a.count() == b.count(); }
  static void ref(std::string& o, const X& v, bool big) { int64_t t = v.count(); ref_raw(o, &t, 8, big); }
};
template <typename C, typename D>
struct U<std::chrono::time_point<C, D>> {
  using X = std::chrono::time_point<C, D>;
  static X gen(int lvl) { return X(uni::gen<D>(lvl)); }
  static X pat(int i) { return X(uni::pat<D>(i)); }
  static bool eq(const X& a, const X& b) { return a == b; }
  static void ref(std::string& o, const X& v, bool big) { U<D>::ref(o, v.time_since_epoch(), big); }
};
// --- classes ----------------------------------------------------------------
struct Agg { int32_t x; double y; std::vector<std::string> z; };
struct Agg1 { uint16_t only; };
struct AggNest { Agg1 a; std::pair<bool, int8_t> b; char c; };
struct Fields : arpc::serializable<Fields> {
  int32_t x = 0; uint16_t skipped = 0; std::string y; std::vector<int16_t> z;
  ARPC_FIELDS(z, x, y);   // order differs from declaration order
};
struct Base1 : arpc::serializable<Base1> { int8_t p = 0; ARPC_FIELDS(p); };
struct Base2 : arpc::serializable<Base2, Base1> { uint32_t q = 0; ARPC_FIELDS(q); };
struct Other : arpc::serializable<Other> { bool r = false; ARPC_FIELDS(r); };
struct Derived : arpc::serializable<Derived, Base2, Other> { int64_t s = 0; ARPC_FIELDS(s); };
struct NoFields : arpc::serializable<NoFields> {};
struct OnlyBase : arpc::serializable<OnlyBase, Base1> {};
struct Custom : arpc::serializable<Custom> {
  int32_t f = 0; uint8_t n = 0; std::string body;
  ARPC_FIELDS(f);
  ARPC_CUSTOM_SERIALIZATION_VERSION(3);
  template <typename S> void save(S& s) const { s(body); s(n); }
  template <typename S> void load(S& s) { s(body); s(n); }
};
struct CustomChild : arpc::serializable<CustomChild, Custom> {
  int16_t g = 0; ARPC_FIELDS(g);
  ARPC_CUSTOM_SERIALIZATION_VERSION(4);
  uint8_t h = 0;
  template <typename S> void save(S& s) const { s(h); }
  template <typename S> void load(S& s) { s(h); }
};
struct PlainCustom {   // not derived from anything of the library
  uint16_t v = 0;
  static constexpr std::uint32_t custom_serialization_version = 7;
  template <typename S> void save(S& s) const { s(v); }
  template <typename S> void load(S& s) { s(v); }
};
struct WithArray : arpc::serializable<WithArray> { int16_t a[3] = {0, 0, 0}; std::string b[2]; ARPC_FIELDS(a, b); };
template <typename T> struct Tmpl : arpc::serializable<Tmpl<T>> {
  ARPC_OWN_TYPE(Tmpl);
  T t{}; ARPC_FIELDS(t);
};
struct Tree : arpc::serializable<Tree> {
  int8_t v = 0; std::unique_ptr<Tree> l, r;
  ARPC_FIELDS(v, l, r);
};

#define UNI_SIMPLE(T, GEN, PAT, EQ, REF)                                                        \
  template <> struct U<T> {                                                                     \
    static T gen(int lvl) { T v{}; (void)lvl; GEN; return v; }                                  \
    static T pat(int i) { T v{}; (void)i; PAT; return v; }                                      \
    static bool eq(const T& a, const T& b) { return EQ; }                                       \
    static void ref(std::string& o, const T& v, bool big) { (void)o; (void)v; (void)big; REF; } \
  };
#define G(f) v.f = uni::gen<std::decay_t<decltype(v.f)>>(lvl + 1)
#define PT(f, k) v.f = uni::pat<std::decay_t<decltype(v.f)>>(i + k)
#define EQF(f) uni::eq(a.f, b.f)
#define RF(f) uni::ref(o, v.f, big)
UNI_SIMPLE(Agg, (G(x), G(y), G(z)), (PT(x, 0), PT(y, 1), PT(z, 2)), EQF(x) && EQF(y) && EQF(z), (RF(x), RF(y), RF(z)))
UNI_SIMPLE(Agg1, (G(only)), (PT(only, 0)), EQF(only), (RF(only)))
UNI_SIMPLE(AggNest, (G(a), G(b), G(c)), (PT(a, 0), PT(b, 1), PT(c, 2)), EQF(a) && EQF(b) && EQF(c), (RF(a), RF(b), RF(c)))
UNI_SIMPLE(Fields, (G(x), G(y), G(z)), (PT(x, 0), PT(y, 1), PT(z, 2)), EQF(x) && EQF(y) && EQF(z), (RF(z), RF(x), RF(y)))
UNI_SIMPLE(Base1, (G(p)), (PT(p, 0)), EQF(p), (RF(p)))
UNI_SIMPLE(Derived, (G(p), G(q), G(r), G(s)), (PT(p, 0), PT(q, 1), PT(r, 2), PT(s, 3)), EQF(p) && EQF(q) && EQF(r) && EQF(s), (RF(p), RF(q), RF(r), RF(s)))
UNI_SIMPLE(NoFields, (void)0, (void)0, true, (void)0)
UNI_SIMPLE(OnlyBase, (G(p)), (PT(p, 0)), EQF(p), (RF(p)))
UNI_SIMPLE(Custom, (G(f), G(n), G(body)), (PT(f, 0), PT(n, 1), PT(body, 2)), EQF(f) && EQF(n) && EQF(body), (RF(f), RF(body), RF(n)))
UNI_SIMPLE(CustomChild, (G(f), G(n), G(body), G(g), G(h)), (PT(f, 0), PT(n, 1), PT(body, 2), PT(g, 3), PT(h, 4)), EQF(f) && EQF(n) && EQF(body) && EQF(g) && EQF(h), (RF(f), RF(body), RF(n), RF(g), RF(h)))
UNI_SIMPLE(PlainCustom, (G(v)), (PT(v, 0)), EQF(v), (RF(v)))
UNI_SIMPLE(WithArray, (G(a[0]), G(a[1]), G(a[2]), G(b[0]), G(b[1])), (PT(a[0], 0), PT(a[1], 1), PT(a[2], 2), PT(b[0], 1), PT(b[1], 2)),
           EQF(a[0]) && EQF(a[1]) && EQF(a[2]) && EQF(b[0]) && EQF(b[1]), (RF(a[0]), RF(a[1]), RF(a[2]), RF(b[0]), RF(b[1])))
template <typename T> struct U<Tmpl<T>> {
  static Tmpl<T> gen(int lvl) { Tmpl<T> v; G(t); return v; }
  static Tmpl<T> pat(int i) { Tmpl<T> v; PT(t, 0); return v; }
  static bool eq(const Tmpl<T>& a, const Tmpl<T>& b) { return EQF(t); }
  static void ref(std::string& o, const Tmpl<T>& v, bool big) { RF(t); }
};
template <> struct U<Tree> {
  static Tree gen(int lvl) {
    Tree t; t.v = uni::gen<int8_t>(2);
    if (lvl < 3) { if (mc::choose(2, "left")) t.l = std::make_unique<Tree>(gen(lvl + 1)); if (mc::choose(2, "right")) t.r = std::make_unique<Tree>(gen(lvl + 1)); }
    return t;
  }
  static Tree pat(int i) { Tree t; t.v = int8_t(i); if (i % 3 > 0) t.l = std::make_unique<Tree>(pat(i - 1)); if (i % 3 > 1) t.r = std::make_unique<Tree>(pat(i - 2)); return t; }
  static bool eq(const Tree& a, const Tree& b) { return a.v == b.v && uni::eq(a.l, b.l) && uni::eq(a.r, b.r); }
  static void ref(std::string& o, const Tree& v, bool big) { uni::ref(o, v.v, big); uni::ref(o, v.l, big); uni::ref(o, v.r, big); }
};
#undef G
#undef PT
#undef EQF
#undef RF

template <typename T>
struct Held final : Value {
  T v{};
  void gen(int lvl) override { v = uni::gen<T>(lvl); }
  void pat(int i) override { v = uni::pat<T>(i); }
  void encode(arpc::little_endian_binary_encoder& e) const override { e(v); }
  void encode(arpc::big_endian_binary_encoder& e) const override { e(v); }
  void encode_v(arpc::little_endian_binary_encoder& e) const override { e(v, arpc::verify_structure{}); }
  void encode_v(arpc::big_endian_binary_encoder& e) const override { e(v, arpc::verify_structure{}); }
  void decode(arpc::little_endian_binary_decoder& e) override { e(v); }
  void decode(arpc::big_endian_binary_decoder& e) override { e(v); }
  void decode_v(arpc::little_endian_binary_decoder& e) override { e(v, arpc::verify_structure{}); }
  void decode_v(arpc::big_endian_binary_decoder& e) override { e(v, arpc::verify_structure{}); }
  void ref(std::string& o, bool big) const override { uni::ref(o, v, big); }
  bool eq(const Value& o) const override { return uni::eq(v, static_cast<const Held<T>&>(o).v); }
  uint32_t hash() const override { return arpc::traits::type_hash_v<T>; }
};
#define UNI_T(...) uni::Type{#__VA_ARGS__, [] { return std::unique_ptr<uni::Value>(new uni::Held<__VA_ARGS__>()); }}

}  // namespace uni
