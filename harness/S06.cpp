// S06: verified reads accept exactly matching structures.
#include <map>
#include "universe.h"
using namespace uni;
template <typename F> static void with_decoder(arpc::input_stream& in, bool big, F f) {
  if (big) { arpc::big_endian_binary_decoder d(in); f(d); } else { arpc::little_endian_binary_decoder d(in); f(d); }
}
static std::string fp_bytes(uint32_t h, bool big) { std::string s; ref_raw(s, &h, 4, big); return s; }
// What decoding `bytes` into a dirty target does: 0 accepted, 1 data mismatch, 2 other error.
static int verified(Value& w, const std::string& bytes, bool big, size_t* pos, std::string* err) {
  arpc::string_input_stream in(bytes);
  int r = 0;
  try { with_decoder(in, big, [&](auto& d) { w.decode_v(d); }); }
  catch (const arpc::errors::data_mismatch& e) { r = 1; *err = e.what(); }
  catch (const std::exception& e) { r = 2; *err = e.what(); }
  *pos = in.pos();
  return r;
}
// Different types of the universe with the same structure.
static const char* const kSame[][2] = {
    {"std::vector<int32_t>", "std::list<int32_t>"}, {"std::vector<std::string>", "std::list<std::string>"}, {"std::set<int32_t>", "std::unordered_set<int32_t>"},
    {"std::map<int32_t, std::string>", "std::unordered_map<int32_t, std::string>"}, {"std::set<int32_t>", "arpc::flat_set<int32_t>"}, {"std::unordered_set<int32_t>", "arpc::flat_set<int32_t>"},
    {"std::multiset<int8_t>", "arpc::flat_multiset<int8_t>"}, {"std::map<int32_t, std::string>", "arpc::flat_map<int32_t, std::string>"},
    {"std::unordered_map<int32_t, std::string>", "arpc::flat_map<int32_t, std::string>"}, {"std::multimap<int16_t, std::string>", "arpc::flat_multimap<int16_t, std::string>"}};
static bool same_structure(const Type& a, const Type& b) {
  if (&a == &b) return true;
  std::string x = a.name, y = b.name;
  for (auto& p : kSame) if ((x == p[0] && y == p[1]) || (x == p[1] && y == p[0])) return true;
  return false;
}
// The writer/reader matrix.
MC_SCENARIO("pairs") {
  const auto& ts = all_types();
  const Type &wt = mc::pick(ts, "writer"), &rt = mc::pick(ts, "reader");
  bool big = mc::choose(2, "big");
  int i = mc::choose(3, "value");
  auto v = wt.make(), w = rt.make(); v->pat(i + 1);
  int dirty = mc::choose(2, "target"); if (dirty) w->pat(5);
  auto orig = rt.make(); if (dirty) orig->pat(5);
  std::string bytes = v->encoded_v(big), plain = v->encoded(big);
  // The fingerprint the type system gives, in the encoder's byte order, then the plain encoding.
  MC_CHECK(bytes == fp_bytes(v->hash(), big) + plain, std::string("layout/") + wt.name, mc::hex(bytes.substr(0, 40)));
  bool same = v->hash() == w->hash();
  // Whether fingerprints are equal when they should be is S07; here, a reader
  // with the same structure reads, and one with another fingerprint does not.
  bool structure = same_structure(wt, rt);
  if (same && !structure) mc::prune();
  size_t pos; std::string err;
  int r = verified(*w, bytes, big, &pos, &err);
  mc::trace("%s -> %s: same=%d result=%d %s", wt.name, rt.name, same, r, err.c_str());
  std::string key = std::string(wt.name) + "->" + rt.name;
  if (structure) {
    MC_CHECK(r == 0, "rejected/" + key, err);
    MC_CHECK(pos == bytes.size(), "consumed/" + key, "");
    if (&wt == &rt) MC_CHECK(v->eq(*w), "value/" + key, "");
    else MC_CHECK(w->encoded(big).size() == plain.size(), "value/" + key, "the decoded value encodes differently");
  } else {
    MC_CHECK(r == 1, "accepted/" + key, "result " + std::to_string(r) + " " + err);
    MC_CHECK(orig->eq(*w), "changed/" + key, "the target was changed by a rejected read");
  }
  mc::outcome(mc::hash_str(key) + same * 2 + big); mc::nontrivial();
}
// Every wrong fingerprint that differs in one or two bits, and other special ones.
MC_SCENARIO("fingerprint-bits") {
  const Type& t = mc::pick(all_types(), "type");
  bool big = mc::choose(2, "big");
  auto v = t.make(), w = t.make(), orig = t.make(); v->pat(2); w->pat(4); orig->pat(4);
  int how = mc::choose(3, "change");
  uint32_t h = v->hash(), g;
  if (how == 0) g = h ^ (1u << mc::choose(32, "bit"));
  else if (how == 1) { int a = mc::choose(31, "bit"), b = a + 1 + mc::choose(31 - a, "bit2"); g = h ^ (1u << a) ^ (1u << b); }
  else { const uint32_t sp[] = {0, 0xffffffffu, __builtin_bswap32(h), h + 1, h - 1, ~h}; g = mc::pick(sp, "special"); }
  if (g == h) mc::prune();
  size_t pos; std::string err;
  int r = verified(*w, fp_bytes(g, big) + v->encoded(big), big, &pos, &err);
  MC_CHECK(r == 1, std::string("accepted/") + t.name, "a wrong fingerprint was accepted");
  MC_CHECK(orig->eq(*w), std::string("changed/") + t.name, "the target was changed");
  mc::outcome(mc::hash_str(t.name) + g); mc::nontrivial();
}
// Truncated before or inside the fingerprint.
MC_SCENARIO("truncated") {
  const Type& t = mc::pick(all_types(), "type");
  bool big = mc::choose(2, "big"); int n = mc::choose(4, "bytes");
  auto v = t.make(), w = t.make(), orig = t.make(); v->pat(2); w->pat(4); orig->pat(4);
  std::string bytes = v->encoded_v(big).substr(0, n);
  arpc::string_input_stream is(bytes);
  bool eof = false;
  try { with_decoder(is, big, [&](auto& d) { w->decode_v(d); }); } catch (const arpc::errors::eof&) { eof = true; } catch (const std::exception& e) {}
  MC_CHECK(eof && orig->eq(*w), std::string("truncated/") + t.name, "");
  mc::outcome(mc::hash_str(t.name) + n); mc::nontrivial();
}
