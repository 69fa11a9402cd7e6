// S04: decoding arbitrary bytes is safe.
#include <cstdlib>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <new>
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include "arpc/serializable.h"
#include "universe.h"
using namespace uni;
using std::string;
// Memory is limited, so that absurd sizes in the input end in an allocation error.
static size_t g_cap = size_t(1) << 32;
void* operator new(size_t n) { if (n > g_cap) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// Input in a heap block of exactly its size.
struct Exact : arpc::input_stream {
  char* b; size_t n, p = 0;
  explicit Exact(const string& s) : b((char*)malloc(s.size())), n(s.size()) { if (n) memcpy(b, s.data(), n); }
  ~Exact() { free(b); }
  size_t read(char* q, size_t l) override { size_t k = std::min(l, n - p); if (k) memcpy(q, b + p, k); p += k; return k; }
  char getc() override { if (p >= n) throw arpc::errors::eof("EOF"); return b[p++]; }
};
enum Verdict { OK, EOFERR, OTHER };
template <typename F> static Verdict guarded(const char* type, const string& in, F f) {
  g_cap = 1 << 20;
  struct Restore { ~Restore() { g_cap = size_t(1) << 32; } } restore;
  try { f(); return OK; }
  catch (const arpc::errors::eof&) { return EOFERR; }
  catch (const arpc::errors::base_error&) { return OTHER; }
  catch (const std::length_error&) { return OTHER; }
  catch (const std::bad_alloc&) { return OTHER; }
  catch (const std::exception& e) { g_cap = size_t(1) << 32; mc::fail(string("wrong-error/") + type, string(e.what()) + " for " + mc::hex(in.substr(0, 60))); }
  catch (...) { g_cap = size_t(1) << 32; mc::fail(string("wrong-error/") + type, "unknown exception"); }
}
template <typename F> static void with_decoder(arpc::input_stream& in, bool big, F f) {
  if (big) { arpc::big_endian_binary_decoder d(in); f(d); } else { arpc::little_endian_binary_decoder d(in); f(d); }
}
static Verdict attempt(const Type& t, const string& s, bool big, int link, Value& w, size_t* used = nullptr) {
  return guarded(t.name, s, [&] {
    if (link == 0) { Exact in(s); with_decoder(in, big, [&](auto& d) { w.decode(d); }); if (used) *used = in.p; }
    else { string copy; copy.reserve(s.size() < 16 ? 16 : s.size()); copy = s; arpc::string_input_stream in(copy); with_decoder(in, big, [&](auto& d) { w.decode(d); }); if (used) *used = in.pos(); }
  });
}
// Whatever came of it, the target is a value of its type.
static void check_value(const Type& t, Value& w, const string& s, bool big, Verdict v) {
  string again = w.encoded(big);
  if (v != OK) return;
  auto x = t.make(); Verdict r = attempt(t, again, big, 0, *x);
  MC_CHECK(r == OK && w.eq(*x), string("invalid-value/") + t.name, "the value decoded from " + mc::hex(s.substr(0, 40)) + " does not survive another round trip");
}
MC_SCENARIO("short-strings") {
  const Type& t = mc::pick(all_types(), "type"); bool big = mc::choose(2, "big-endian");
  static const unsigned char a[] = {0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff};
  int n = mc::choose(mc::tier_pick(5, 7), "length"); string s;
  for (int i = 0; i < n; i++) s += char(a[mc::choose(8, "byte")]);
  auto w = t.make(); Verdict v = attempt(t, s, big, n & 1, *w);
  mc::trace("%s %s -> %d", t.name, mc::hex(s).c_str(), v);
  check_value(t, *w, s, big, v);
  mc::outcome(mc::hash_str(t.name) + v); mc::nontrivial();
}
static std::unique_ptr<Value> a_value(const Type& t) {
  auto v = t.make(); int k = mc::choose(3, "value"); v->pat(k == 0 ? 1 : k == 1 ? 3 : 6); return v;
}
MC_SCENARIO("damaged") {
  const Type& t = mc::pick(all_types(), "type"); bool big = mc::choose(2, "big-endian");
  string s = a_value(t)->encoded(big);
  size_t p = mc::choose(int(s.size()) + 1, "position"); int k = mc::choose(16, "damage");
  static const unsigned char a[] = {0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff};
  if (k < 8) { if (p < s.size()) s[p] = char(a[k]); } else if (k < 15) s.insert(p, 1, char(a[k - 8])); else if (p < s.size()) s.erase(p, 1);
  auto w = t.make(); if (mc::choose(2, "dirty")) w->pat(5);
  Verdict v = attempt(t, s, big, 0, *w); check_value(t, *w, s, big, v);
  mc::outcome(mc::hash_str(t.name) + v); mc::nontrivial();
}
MC_SCENARIO("truncated") {
  const Type& t = mc::pick(all_types(), "type"); bool big = mc::choose(2, "big-endian");
  string s = a_value(t)->encoded(big); if (s.empty()) mc::prune();
  size_t p = mc::choose(int(s.size()), "length"); int link = mc::choose(2, "link");
  auto w = t.make(); if (mc::choose(2, "dirty")) w->pat(5);
  Verdict v = attempt(t, s.substr(0, p), big, link, *w);
  MC_CHECK(v == EOFERR, string("truncated/") + t.name, v == OK ? "a truncated encoding was accepted" : "a truncated encoding was reported as another error");
  check_value(t, *w, s, big, v);
  mc::outcome(mc::hash_str(t.name) + v); mc::nontrivial();
}
// Numbers of every length in front of too little or just enough input.
MC_SCENARIO("sizes") {
  const Type& t = mc::pick(container_types(), "type"); bool big = mc::choose(2, "big-endian");
  int bytes = 1 + mc::choose(12, "bytes"); static const unsigned char fill[] = {0x80, 0x81, 0xff, 0xc0}; static const unsigned char last[] = {0, 1, 2, 0x3f, 0x40, 0x7f};
  string s; char f = char(fill[mc::choose(4, "fill")]); for (int i = 1; i < bytes; i++) s += f; s += char(last[mc::choose(6, "last")]);
  s += string(mc::choose(3, "tail") * 7, '\1');
  auto w = t.make(); Verdict v = attempt(t, s, big, 0, *w); check_value(t, *w, s, big, v);
  mc::outcome(mc::hash_str(t.name) + v); mc::nontrivial();
}
// --- pointers ------------------------------------------------------------------
struct P : arpc::serializable<P> { uint8_t v = 0; std::shared_ptr<P> a; std::weak_ptr<P> w; std::unique_ptr<P> u; std::shared_ptr<uint16_t> n; ARPC_FIELDS(v, a, w, u, n); };
struct DA : arpc::dynamic<DA> { uint8_t a = 0; std::shared_ptr<DA> p; ARPC_FIELDS(a, p); };
struct DB : arpc::dynamic<DB, DA> { uint16_t b = 0; std::unique_ptr<DA> q; std::shared_ptr<DB> r; ARPC_FIELDS(b, q, r); };
struct DX : arpc::dynamic<DX> { uint8_t x = 0; ARPC_FIELDS(x); };
ARPC_REGISTER_WITH_NAME("a", DA); ARPC_REGISTER_WITH_NAME("b", DB); ARPC_REGISTER_WITH_NAME("x", DX);
static void unlink(const std::shared_ptr<P>& p) { if (p) { auto x = std::move(p->a); auto u = std::move(p->u); unlink(x); if (u) unlink(std::shared_ptr<P>(std::move(u))); } }
static void unlink(const std::shared_ptr<DA>& p) {
  if (!p) return; auto x = std::move(p->p); unlink(x);
  if (p->portable_class_name() == "b") { auto* b = static_cast<DB*>(p.get()); auto q = std::move(b->q); auto r = std::move(b->r); unlink(std::shared_ptr<DA>(std::move(q))); unlink(r); }
}
template <typename T> static void judge(const string& s, bool big, bool must_eof = false) {
  T t; Exact in(s);
  Verdict v = guarded("pointer", s, [&] { with_decoder(in, big, [&](auto& d) { d(t); }); });
  if (must_eof) MC_CHECK(v == EOFERR, "pointer-truncated", mc::hex(s));
  // The target can be written, whatever happened.
  string out; arpc::string_output_stream os(out); if (big) { arpc::big_endian_binary_encoder e(os); e(t); } else { arpc::little_endian_binary_encoder e(os); e(t); }
  if (v == OK) {
    T x; arpc::string_input_stream is(out); Verdict r = guarded("pointer", out, [&] { with_decoder(is, big, [&](auto& d) { d(x); }); });
    string out2; arpc::string_output_stream os2(out2); if (big) { arpc::big_endian_binary_encoder e(os2); e(x); } else { arpc::little_endian_binary_encoder e(os2); e(x); }
    // A decoded graph that nothing owns any more (weak only) may be written differently.
    MC_CHECK(r == OK && out2 == out, "invalid-graph", mc::hex(s) + " re-encodes as " + mc::hex(out) + " and then " + mc::hex(out2));
    for (auto& p : x) unlink(p);
  }
  for (auto& p : t) unlink(p);
  mc::outcome(mc::hash_str(out) + v); mc::nontrivial();
}
using PV = std::array<std::shared_ptr<P>, 2>;
using DV = std::array<std::shared_ptr<DA>, 2>;
MC_SCENARIO("pointers") {
  static const unsigned char a[] = {0, 1, 2, 3, 0x80, 0xff}; int n = mc::choose(mc::tier_pick(8, 9), "length"); string s;
  for (int i = 0; i < n; i++) s += char(a[mc::choose(i < 5 ? 4 : 4 + 2 * mc::thorough(), "byte")]);
  judge<PV>(s, false);
}
MC_SCENARIO("pointers-long") {   // damage to valid graphs
  auto p = std::make_shared<P>(); p->v = 7; p->a = std::make_shared<P>(); p->a->a = p; p->a->w = p; p->u = std::make_unique<P>(); p->u->a = p->a; p->n = std::make_shared<uint16_t>(300); p->a->n = p->n; p->u->n = std::make_shared<uint16_t>(1);
  bool big = mc::choose(2, "big-endian"); string s; { arpc::string_output_stream os(s); PV v{p, p->a}; if (big) { arpc::big_endian_binary_encoder e(os); e(v); } else { arpc::little_endian_binary_encoder e(os); e(v); } }
  unlink(p);
  size_t at = mc::choose(int(s.size()) + 1, "position"); int k = mc::choose(15, "damage");
  static const unsigned char a[] = {0, 1, 2, 3, 4, 5, 6, 7, 0x7f, 0x80, 0xff};
  bool cut = k == 14 && at < s.size();
  if (k < 11) { if (at < s.size()) s[at] = char(a[k]); } else if (k == 11) s.erase(std::min(at, s.size() - 1), 1); else if (k == 12) s.insert(at, 1, 0); else if (k == 13) s.insert(at, 1, 1); else s.resize(at);
  if (k == 11 && at == s.size() + 1) mc::prune();
  judge<PV>(s, big, cut);
}
static string dyn_sample(bool big) {
  auto b = std::make_shared<DB>(); b->a = 1; b->b = 2; b->p = std::make_shared<DA>(); b->q = std::make_unique<DB>(); b->q->p = b->p; b->r = std::make_shared<DB>(); b->r->p = b;
  string s; arpc::string_output_stream os(s); DV v{b, b->p}; if (big) { arpc::big_endian_binary_encoder e(os); e(v); } else { arpc::little_endian_binary_encoder e(os); e(v); }
  unlink(b); return s;
}
MC_SCENARIO("polymorphic") {
  bool big = mc::choose(2, "big-endian"); string s = dyn_sample(big);
  size_t at = mc::choose(int(s.size()) + 1, "position"); int k = mc::choose(18, "damage");
  static const unsigned char a[] = {0, 1, 2, 3, 4, 5, 'a', 'b', 'x', 0x7f, 0x80, 0xff};
  bool cut = k == 17 && at < s.size();
  if (k < 12) { if (at < s.size()) s[at] = char(a[k]); } else if (k == 12) { if (at < s.size()) s.erase(at, 1); } else if (k < 17) s.insert(at, 1, char(a[k - 13])); else s.resize(at);
  judge<DV>(s, big, cut);
}
MC_SCENARIO("polymorphic-pairs", 0, 0, true) {
  bool big = false; string s = dyn_sample(big);
  static const unsigned char a[] = {0, 1, 2, 3, 4, 'a', 'b', 'x', 0x80};
  for (int i = 0; i < 2; i++) { size_t at = mc::choose(int(s.size()), "position"); s[at] = char(a[mc::choose(9, "value")]); }
  judge<DV>(s, big);
}

// A container that claims more elements than the input has is never accepted, however large the claim.
template <typename T> static void claims(const char* name) {
  bool big = mc::choose(2, "big-endian");
  int n = mc::choose(5, "elements"); static const int powers[] = {7, 8, 15, 16, 24, 31, 32, 33, 40, 48, 56, 62, 63};
  uint64_t claim = (uint64_t(1) << mc::pick(powers, "power")) + uint64_t(mc::choose(3, "offset")) - 1;
  string s; uni::ref_size(s, claim); if (mc::choose(2, "whole elements")) for (int i = 0; i < n; i++) s += string("\1", 1) + char('a' + i); else s.append(n, '\0');
  T t; Exact in(s);
  Verdict v = guarded(name, s, [&] { with_decoder(in, big, [&](auto& d) { d(t); }); });
  MC_CHECK(v != OK, string("claimed-size/") + name, "read " + std::to_string(claim) + " elements from " + std::to_string(s.size()) + " bytes");
  string out; arpc::string_output_stream os(out); if (big) { arpc::big_endian_binary_encoder e(os); e(t); } else { arpc::little_endian_binary_encoder e(os); e(t); }
  mc::outcome(mc::hash_str(name, mc::hash_str(s)) + v); mc::nontrivial();
}
MC_SCENARIO("claimed-sizes") {
  switch (mc::choose(16, "type")) {
#define CLAIM(i, ...) case i: claims<__VA_ARGS__>(#__VA_ARGS__); break
    CLAIM(0, std::vector<uint8_t>); CLAIM(1, std::vector<uint16_t>); CLAIM(2, std::vector<string>); CLAIM(3, std::list<uint8_t>);
    CLAIM(4, std::deque<uint16_t>); CLAIM(5, std::list<string>); CLAIM(6, std::set<string>); CLAIM(7, std::set<uint8_t>);
    CLAIM(8, std::multiset<uint16_t>); CLAIM(9, std::map<uint8_t, uint8_t>); CLAIM(10, std::multimap<uint8_t, string>); CLAIM(11, arpc::flat_set<uint8_t>);
    CLAIM(12, arpc::flat_map<uint8_t, string>); CLAIM(13, arpc::flat_multiset<string>); CLAIM(14, string); CLAIM(15, std::vector<std::vector<uint16_t>>);
#undef CLAIM
  }
}
