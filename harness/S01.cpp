// S01: every supported value survives an encode/decode round trip.
#include <map>
#include <cmath>
#include <limits>
#include "arpc/serializable.h"
#include "universe.h"
using namespace uni;
static std::string brief(const std::string& s) { return mc::hex(s.substr(0, 48)) + (s.size() > 48 ? "... (" + std::to_string(s.size()) + " bytes)" : ""); }

template <typename F> static void with_decoder(arpc::input_stream& in, bool big, F f) {
  if (big) { arpc::big_endian_binary_decoder d(in); f(d); } else { arpc::little_endian_binary_decoder d(in); f(d); }
}
static void single(const std::vector<Type>& types) {
  const Type& t = mc::pick(types, "type");
  bool big = mc::choose(2, "big-endian");
  auto v = t.make();
  v->gen(0);
  auto w = t.make();
  int dirty = mc::choose(3, "target");   // default constructed, or holding something else
  if (dirty) w->pat(dirty * 3 - 1);
  std::string bytes = v->encoded(big);
  std::string buf = bytes + "\xaa\x01\x80";
  mc::trace("%s big=%d bytes=%s", t.name, big, brief(bytes).c_str());
  arpc::string_input_stream in(buf);
  std::string err;
  try { with_decoder(in, big, [&](auto& d) { w->decode(d); }); } catch (const std::exception& e) { err = e.what(); if (err.empty()) err = "exception"; }
  if (!err.empty()) mc::fail(std::string("decode-threw/") + t.name, err + " for " + brief(bytes));
  MC_CHECK(in.pos() == bytes.size(), std::string("consumed/") + t.name, "consumed " + std::to_string(in.pos()) + " of " + brief(bytes));
  MC_CHECK(v->eq(*w), std::string("value/") + t.name, "decoded value differs, bytes " + brief(bytes));
  mc::outcome(mc::hash_str(t.name, mc::hash_str(bytes)) + big);
  mc::nontrivial();
}
MC_SCENARIO("scalars") { single(scalar_types()); }
MC_SCENARIO("containers") { single(container_types()); }
MC_SCENARIO("compounds") { single(compound_types()); }
// Two values through one encoder and one decoder, for every ordered pair of types.
MC_SCENARIO("consecutive") {
  const auto& ts = all_types();
  const Type &t1 = mc::pick(ts, "type1"), &t2 = mc::pick(ts, "type2");
  bool big = mc::choose(2, "big-endian");
  auto a = t1.make(), b = t2.make(), c = t1.make(), x = t1.make(), y = t2.make(), z = t1.make();
  a->pat(1 + mc::choose(2, "v1")); b->pat(2 + mc::choose(2, "v2")); c->pat(5);
  std::string bytes;
  a->enc(bytes, big, [&](auto& e) { a->encode(e); b->encode(e); c->encode(e); });
  arpc::string_input_stream in(bytes);
  try { with_decoder(in, big, [&](auto& d) { x->decode(d); y->decode(d); z->decode(d); }); }
  catch (const std::exception& e) { mc::fail(std::string("pair-threw/") + t1.name + "/" + t2.name, e.what()); }
  MC_CHECK(a->eq(*x) && b->eq(*y) && c->eq(*z), std::string("pair-value/") + t1.name + "/" + t2.name, brief(bytes));
  MC_CHECK(in.pos() == bytes.size(), std::string("pair-consumed/") + t1.name + "/" + t2.name, brief(bytes));
  mc::outcome(mc::hash_str(t1.name, mc::hash_str(t2.name, mc::hash_str(bytes))) + big);
  mc::nontrivial();
}
// Every size encoding: sequences with patterned contents over a range of sizes.
MC_SCENARIO("sizes") {
  static const int ranges[][2] = {{0, 520}, {16300, 200}, {32700, 200}, {65500, 100}, {2097100, 100}};
  const auto& r = ranges[mc::choose(mc::tier_pick(4, 5), "range")];
  size_t n = r[0] + mc::choose(r[1], "size");
  bool big = mc::choose(2, "big-endian");
  std::string s(n, 'x');
  for (size_t i = 0; i < n; i += 7) s[i] = char(i);
  std::vector<uint16_t> v(n < 70000 ? n : 3); for (size_t i = 0; i < v.size(); i++) v[i] = uint16_t(i * 31);
  std::vector<bool> l; for (size_t i = 0; i < v.size(); i++) l.push_back(i % 3 == 1);
  std::string out; arpc::string_output_stream os(out);
  if (big) { arpc::big_endian_binary_encoder e(os); e(s); e(v); e(l); } else { arpc::little_endian_binary_encoder e(os); e(s); e(v); e(l); }
  std::string s2; std::vector<uint16_t> v2; std::vector<bool> l2;
  arpc::string_input_stream in(out);
  try { with_decoder(in, big, [&](auto& d) { d(s2); d(v2); d(l2); }); }
  catch (const std::exception& e) { mc::fail("sizes-threw", std::to_string(n) + " " + e.what()); }
  MC_CHECK(s == s2 && v == v2 && l == l2 && in.pos() == out.size(), "sizes", "size " + std::to_string(n) + " does not survive");
  mc::outcome(n * 2 + big); mc::nontrivial();
}
// Structures of every number of members.
void wide_members();     // wide.h
MC_SCENARIO("members") { wide_members(); }
// Extended precision: part of every representation is padding, so only the values are compared.
struct Ext : arpc::serializable<Ext> { long double a = 0; char b = 0; std::vector<long double> c; ARPC_FIELDS(a, b, c); };
MC_SCENARIO("extended") {
  using L = std::numeric_limits<long double>;
  static const long double vs[] = {0.0L, -0.0L, 1.0L, -1.5L, 1.0L + L::epsilon(), L::max(), -L::max(), L::min(), L::denorm_min(), L::infinity(), -L::infinity(), 0x1.23456789abcdef12p-1000L};
  bool big = mc::choose(2, "big-endian"); int kind = mc::choose(3, "kind"); int n = kind ? mc::choose(kind == 1 ? 4 : 3, "n") : 1;
  std::vector<long double> v; for (int i = 0; i < n; i++) v.push_back(mc::pick(vs, "value"));
  auto same = [](long double a, long double b) { return a == b && std::signbit(a) == std::signbit(b); };
  auto all = [&](const std::vector<long double>& a) { if (a.size() != v.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], v[i])) return false; return true; };
  std::string out; arpc::string_output_stream os(out);
  auto go = [&](const auto& x, auto& y) {
    if (big) { arpc::big_endian_binary_encoder e(os); e(x); e('!'); } else { arpc::little_endian_binary_encoder e(os); e(x); e('!'); }
    arpc::string_input_stream in(out); char end = 0;
    try { with_decoder(in, big, [&](auto& d) { d(y); d(end); }); } catch (const std::exception& e) { mc::fail("extended-threw", std::string(e.what()) + " for " + brief(out)); }
    MC_CHECK(end == '!' && in.pos() == out.size(), "extended-consumed", brief(out));
  };
  if (kind == 0) { long double w = 3; go(v[0], w); MC_CHECK(same(v[0], w), "extended-value", brief(out)); }
  else if (kind == 1) { std::vector<long double> w{7}; go(v, w); MC_CHECK(all(w), "extended-values", brief(out)); }
  else { Ext x, y; x.a = n ? v[0] : 2; x.b = 'q'; x.c = v; y.c = {1, 2, 3}; go(x, y); MC_CHECK(same(x.a, y.a) && y.b == 'q' && all(y.c), "extended-members", brief(out)); }
  mc::outcome(mc::hash_str(std::to_string(kind), n) + big); mc::nontrivial();
}
