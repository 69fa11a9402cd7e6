// Structures of every number of members: aggregates, classes with declared fields and tuples.
#pragma once
#include "arpc/binary_codecs.h"
#include "arpc/serializable.h"
#include "arpc/string_adapters.h"
#include "arpc/type_hash.h"
#include "mc.h"
#include <boost/preprocessor.hpp>
#include <string>
#include <tuple>
#include <vector>
namespace wide {
// Members of three types in turn, so that no two neighbours could be exchanged unnoticed.
template <int i> struct member { using type = std::conditional_t<i % 3 == 0, uint8_t, std::conditional_t<i % 3 == 1, std::string, uint16_t>>; };
inline void put(uint8_t& x, int i, int s) { x = uint8_t(i * 7 + s); }
inline void put(uint16_t& x, int i, int s) { x = uint16_t(i * 263 + s); }
inline void put(std::string& x, int i, int s) { x = std::string(i % 5, char('a' + s)) + std::to_string(i); }
inline void ref(std::string& o, uint8_t x, bool) { o += char(x); }
inline void ref(std::string& o, uint16_t x, bool big) { char a = char(x >> 8), b = char(x); if (big) { o += a; o += b; } else { o += b; o += a; } }
inline void ref(std::string& o, const std::string& x, bool) { o += char(x.size()); o += x; }
#define WIDE_MEMBER(z, i, d) typename member<i>::type BOOST_PP_CAT(f, i){};
#define WIDE_NAME(z, i, d) BOOST_PP_COMMA_IF(i) BOOST_PP_CAT(f, i)
#define WIDE_TYPE(z, i, d) BOOST_PP_COMMA_IF(i) typename member<i>::type
#define WIDE_EACH(z, i, d) f(BOOST_PP_CAT(this->f, i), i);
template <int n> struct agg; template <int n> struct cls;
// n is one more than the index: structures of 1..n members.
#define WIDE_STRUCTS(z, k, d)                                                                       \
  template <> struct agg<BOOST_PP_INC(k)> {                                                         \
    BOOST_PP_REPEAT_2ND(BOOST_PP_INC(k), WIDE_MEMBER, ~)                                            \
    template <typename F> void each(F f) { BOOST_PP_REPEAT_2ND(BOOST_PP_INC(k), WIDE_EACH, ~) }     \
  };
#define WIDE_CLASSES(z, k, d)                                                                       \
  template <> struct cls<BOOST_PP_INC(k)> : arpc::serializable<cls<BOOST_PP_INC(k)>> {              \
    BOOST_PP_REPEAT_2ND(BOOST_PP_INC(k), WIDE_MEMBER, ~)                                            \
    ARPC_FIELDS(BOOST_PP_REPEAT_2ND(BOOST_PP_INC(k), WIDE_NAME, ~));                                \
    template <typename F> void each(F f) { BOOST_PP_REPEAT_2ND(BOOST_PP_INC(k), WIDE_EACH, ~) }     \
  };
#define WIDE_TUPLES(z, k, d)                                                                        \
  inline std::tuple<BOOST_PP_REPEAT_2ND(BOOST_PP_INC(k), WIDE_TYPE, ~)> tuple_of(std::integral_constant<int, BOOST_PP_INC(k)>);
constexpr int kMembers = 32;
BOOST_PP_REPEAT(32, WIDE_STRUCTS, ~)
BOOST_PP_REPEAT(32, WIDE_CLASSES, ~)
BOOST_PP_REPEAT(32, WIDE_TUPLES, ~)
template <typename T> struct as_struct : T {};
template <int n> struct tup { decltype(tuple_of(std::integral_constant<int, n>{})) t;
  template <typename F> void each(F f) { int i = 0; std::apply([&](auto&... x) { (f(x, i++), ...); }, t); } };
template <typename S> auto& whole(S& s) { return s; }
template <int n> auto& whole(tup<n>& s) { return s.t; }
template <typename S> void one(const char* kind, int n, bool dirty) {
  const bool big = false;
  S v, w; std::string want, got;
  v.each([&](auto& x, int i) { put(x, i, 1); ref(want, x, big); });
  if (dirty) w.each([&](auto& x, int i) { put(x, i, 5); });
  arpc::string_output_stream os(got);
  const auto& c = whole(v);
  arpc::little_endian_binary_encoder e(os); e(c);
  MC_CHECK(got == want, std::string("layout/") + kind + std::to_string(n), mc::hex(got) + " instead of " + mc::hex(want));
  got += "x";
  arpc::string_input_stream is(got);
  arpc::little_endian_binary_decoder d(is); d(whole(w));
  MC_CHECK(is.pos() == want.size(), std::string("consumed/") + kind + std::to_string(n), std::to_string(is.pos()));
  std::string back; w.each([&](auto& x, int) { ref(back, x, big); });
  MC_CHECK(back == want, std::string("value/") + kind + std::to_string(n), mc::hex(back) + " instead of " + mc::hex(want));
  mc::outcome(mc::hash_str(want) + n); mc::nontrivial();
}
template <int... n> void members_of(int k, int kind, bool dirty) {
  switch (kind) {
    case 0: ((n == k ? one<agg<n>>("aggregate", n, dirty) : void()), ...); break;
    case 1: ((n == k ? one<cls<n>>("class", n, dirty) : void()), ...); break;
    case 2: ((n == k ? one<tup<n>>("tuple", n, dirty) : void()), ...); break;
  }
}
// One file each, for the compiler's sake.
#define WIDE_SMALL 1, 2, 3, 4, 5, 6, 7, 8, 9
#define WIDE_MIDDLE 10, 11, 12, 13, 16, 17
#define WIDE_LARGE 23, 31, 32
void small(int k, int kind, bool dirty); void middle(int k, int kind, bool dirty); void large(int k, int kind, bool dirty);
inline void all_members() {
  static const int sizes[] = {WIDE_SMALL, WIDE_MIDDLE, WIDE_LARGE};
  int k = mc::pick(sizes, "members"), kind = mc::choose(3, "kind"); bool dirty = mc::choose(2, "dirty");
  small(k, kind, dirty); middle(k, kind, dirty); large(k, kind, dirty);
}
}  // namespace wide
