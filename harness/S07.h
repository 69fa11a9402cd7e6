#pragma once
#include <array>
#include <chrono>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include "arpc/serializable.h"
#include "arpc/type_hash.h"
#include "mc.h"
namespace s07 {
struct Entry { std::string name, desc, unversioned; uint32_t hash; };
void part1(std::vector<Entry>&); void part2(std::vector<Entry>&); void part3(std::vector<Entry>&);
void part4(std::vector<Entry>&); void part5(std::vector<Entry>&); void part6(std::vector<Entry>&);

enum class EU8 : uint8_t {}; enum class EI8 : int8_t {}; enum class EI32 : int32_t {}; enum class EU32 : uint32_t {}; enum EO : uint16_t {};
template <typename T> struct Uniq { static const char c; }; template <typename T> const char Uniq<T>::c = 0;
using Path = std::vector<const void*>;

template <typename T, typename E = void> struct D;   // name() and desc(path)
template <typename T> std::string down(Path p);
#define S07_LEAF(T, S) template <> struct D<T> { static std::string name() { return #T; } static std::string desc(const Path&) { return S; } };
S07_LEAF(void, "void") S07_LEAF(bool, "bool") S07_LEAF(char, "char")
S07_LEAF(signed char, "i1") S07_LEAF(unsigned char, "u1") S07_LEAF(short, "i2") S07_LEAF(unsigned short, "u2") S07_LEAF(int, "i4") S07_LEAF(unsigned, "u4")
S07_LEAF(long, "i8") S07_LEAF(unsigned long, "u8") S07_LEAF(long long, "i8") S07_LEAF(unsigned long long, "u8")
S07_LEAF(float, "f4") S07_LEAF(double, "f8")
S07_LEAF(EU8, "enum-u1") S07_LEAF(EI8, "enum-i1") S07_LEAF(EI32, "enum-i4") S07_LEAF(EU32, "enum-u4") S07_LEAF(EO, "enum-u2")
#undef S07_LEAF
#define S07_UN(TT, S) template <typename T> struct D<TT> { static std::string name() { return #TT "<" + D<T>::name() + ">"; } \
  static std::string desc(const Path& p) { return S "(" + down<T>(p) + ")"; } };
S07_UN(std::vector<T>, "seq") S07_UN(std::deque<T>, "seq") S07_UN(std::list<T>, "seq")
S07_UN(std::set<T>, "set") S07_UN(std::unordered_set<T>, "set") S07_UN(arpc::flat_set<T>, "set")
S07_UN(std::multiset<T>, "mset") S07_UN(std::unordered_multiset<T>, "mset") S07_UN(arpc::flat_multiset<T>, "mset")
S07_UN(std::optional<T>, "opt") S07_UN(std::unique_ptr<T>, "uptr") S07_UN(std::shared_ptr<T>, "sptr") S07_UN(std::weak_ptr<T>, "wptr")
#undef S07_UN
template <> struct D<std::string> { static std::string name() { return "string"; } static std::string desc(const Path& p) { return "seq(char)"; } };
template <> struct D<std::string_view> { static std::string name() { return "string_view"; } static std::string desc(const Path& p) { return "seq(char)"; } };
#define S07_MAP(TT, S) template <typename K, typename V> struct D<TT<K, V>> { static std::string name() { return #TT "<" + D<K>::name() + "," + D<V>::name() + ">"; } \
  static std::string desc(const Path& p) { return S "(" + down<std::pair<K, V>>(p) + ")"; } };
S07_MAP(std::map, "map") S07_MAP(std::unordered_map, "map") S07_MAP(arpc::flat_map, "map") S07_MAP(std::multimap, "mmap") S07_MAP(std::unordered_multimap, "mmap") S07_MAP(arpc::flat_multimap, "mmap")
#undef S07_MAP
template <typename T, size_t N> struct D<std::array<T, N>> { static std::string name() { return "array<" + D<T>::name() + "," + std::to_string(N) + ">"; }
  static std::string desc(const Path& p) { return "arr" + std::to_string(N) + "(" + down<T>(p) + ")"; } };
template <typename T, size_t N> struct D<T[N]> { static std::string name() { return D<T>::name() + "[" + std::to_string(N) + "]"; }
  static std::string desc(const Path& p) { return "arr" + std::to_string(N) + "(" + down<T>(p) + ")"; } };
template <typename... T> std::string list(const Path& p) { std::string r; ((r += down<T>(p) + ","), ...); return r; }
template <typename... T> std::string names() { std::string r; ((r += D<T>::name() + ","), ...); return r; }
template <typename... T> struct D<std::tuple<T...>> { static std::string name() { return "tuple<" + names<T...>() + ">"; } static std::string desc(const Path& p) { return "tuple" + std::to_string(sizeof...(T)) + "(" + list<T...>(p) + ")"; } };
template <typename A, typename B> struct D<std::pair<A, B>> { static std::string name() { return "pair<" + names<A, B>() + ">"; } static std::string desc(const Path& p) { return "tuple2(" + list<A, B>(p) + ")"; } };
template <typename R, typename... A> struct D<R(A...)> { static std::string name() { return "fn<" + names<R, A...>() + ">"; } static std::string desc(const Path& p) { return "fn(" + list<R, A...>(p) + ")"; } };
template <typename R, typename... A> struct D<R(A...) const> { static std::string name() { return "cfn<" + names<R, A...>() + ">"; } static std::string desc(const Path& p) { return "cfn(" + list<R, A...>(p) + ")"; } };
template <typename R, typename P> struct D<std::chrono::duration<R, P>> { static std::string name() { return "duration<" + std::to_string(P::num) + "/" + std::to_string(P::den) + ">"; }
  static std::string desc(const Path&) { return "dur" + std::to_string(P::num) + "/" + std::to_string(P::den); } };
template <typename C, typename Du> struct D<std::chrono::time_point<C, Du>> { static std::string name() { return "time_point<" + D<Du>::name() + ">"; }
  static std::string desc(const Path&) { return "tp" + std::to_string(Du::period::num) + "/" + std::to_string(Du::period::den); } };

// Classes say what they are made of: Bases, Fields, Version.
template <typename... T> struct L {};
template <typename... T> std::string list_of(L<T...>, const Path& p) { return std::to_string(sizeof...(T)) + ":" + list<T...>(p); }
template <typename T> struct D<T, std::void_t<typename T::Fields>> {
  static std::string name() { return T::type_name(); }
  static std::string desc(const Path& p) { return "class(bases " + list_of(typename T::Bases(), p) + " fields " + list_of(typename T::Fields(), p) + " version" + std::to_string(T::Version) + ")"; }
};
template <typename T, typename E = void> struct AggFields;
template <typename T> struct D<T, std::void_t<typename T::AggOf>> {
  static std::string name() { return T::type_name(); }
  static std::string desc(const Path& p) { return D<typename T::AggOf>::desc(p); }
};
// A type already on the path is a reference to that depth.
template <typename T> std::string down(Path p) {
  for (size_t i = 0; i < p.size(); i++) if (p[i] == &Uniq<T>::c) return "back" + std::to_string(i);
  p.push_back(&Uniq<T>::c);
  return D<T>::desc(p);
}
inline std::string strip_version(std::string s) {
  for (size_t i; (i = s.find(" version")) != std::string::npos;) { size_t e = s.find(')', i); bool zero = s.substr(i + 8, e - i - 8) == "0"; s.replace(i, e - i, zero ? " plain" : " custom"); }
  return s;
}
template <typename T> void add(std::vector<Entry>& v) {
  std::string d = down<T>({});
  v.push_back({D<T>::name(), d, strip_version(d), arpc::traits::type_hash_v<T>});
}
template <typename... T> void add_all(std::vector<Entry>& v, L<T...>) { (add<T>(v), ...); }

using Scalars = L<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, EU8, EI8, EI32, EU32, EO>;
using Few = L<bool, char, short, unsigned, double>;
// Apply every unary constructor to every type of a list.
template <typename T> using Unary = L<std::vector<T>, std::deque<T>, std::set<T>, std::multiset<T>, std::optional<T>, std::unique_ptr<T>, std::shared_ptr<T>, std::weak_ptr<T>,
                                      std::array<T, 1>, std::array<T, 2>, T[1], T[3], std::tuple<T>, std::tuple<T, T>, std::pair<T, bool>, std::pair<bool, T>, std::map<char, T>, std::multimap<char, T>, arpc::flat_map<T, char>, arpc::flat_multiset<T>,
                                      T(), T() const, void(T), void(T) const>;
// without those that cannot nest (functions, arrays of C arrays)
template <typename T> using Nest = L<std::vector<T>, std::list<T>, std::optional<T>, std::unique_ptr<T>, std::shared_ptr<T>, std::array<T, 1>, std::array<T, 2>, std::tuple<T>, std::pair<T, bool>, std::pair<bool, T>, std::map<char, T>, std::set<T>, std::multiset<T>>;
template <typename... T> struct Cat;
template <> struct Cat<> { using type = L<>; };
template <typename... A> struct Cat<L<A...>> { using type = L<A...>; };
template <typename... A, typename... B, typename... R> struct Cat<L<A...>, L<B...>, R...> : Cat<L<A..., B...>, R...> {};
template <template <typename> class F, typename X> struct Map;
template <template <typename> class F, typename... T> struct Map<F, L<T...>> { using type = typename Cat<F<T>...>::type; };
template <template <typename> class F, typename X> using map_t = typename Map<F, X>::type;
}
