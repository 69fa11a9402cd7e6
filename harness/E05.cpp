// E05: names of enumerated values, composed functions.
#include "arpc/enum.h"
#include "arpc/function.h"
#include "mc.h"
#include <boost/preprocessor.hpp>
#include <cstdint>
#include <functional>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace some { namespace inner {}}
ARPC_ENUM(small, std::uint8_t, "unknown", (zero, 0), (one, 1), (seven, 7), (top, 255));
ARPC_ENUM(signed_small, std::int8_t, "?", (low, -128), (minus, -1), (nil, 0), (high, 127));
ARPC_ENUM(wide, std::int16_t, "no such", (c, 300), (a, -300), (b, 44));   // 300 and 44 share their low byte
ARPC_ENUM(word, std::uint32_t, "none", (first, 1), (last, 0xffffffff));
ARPC_ENUM(sword, std::int32_t, "none", (least, -2147483647 - 1), (most, 2147483647), (zero, 0));
ARPC_ENUM(huge, std::uint64_t, "none", (low, 1), (shifted, 0x100000001), (top, 0xffffffffffffffff));
ARPC_ENUM(single, std::uint16_t, "many", (only, 5));
ARPC_ENUM(twins, std::uint8_t, "none", (elder, 3), (younger, 3), (other, 4));
#define MANY(z, i, d) BOOST_PP_COMMA_IF(i) (BOOST_PP_CAT(e, i), i * 3)
ARPC_ENUM(many, std::uint16_t, "none", BOOST_PP_REPEAT(60, MANY, ~));

namespace {
struct Entry { int64_t v; std::string n; };
template <typename E> void exact(const std::string& unknown, const std::vector<Entry>& entries) {
  using B = std::underlying_type_t<E>;
  B v;
  if constexpr (sizeof(B) <= 2) { unsigned x = mc::choose(256, "low byte"); if (sizeof(B) == 2) x |= unsigned(mc::choose(256, "high byte")) << 8; v = B(x); }
  else {
    // Every declared value and its neighbours: the next numbers, the same low or high half, single bits.
    const auto& e = entries[mc::choose(int(entries.size()), "near")];
    int d = mc::choose(5 + int(sizeof(B)) * 8, "distance");
    v = d < 5 ? B(uint64_t(e.v) + uint64_t(d - 2)) : B(B(e.v) ^ (B(1) << (d - 5)));
  }
  std::string want = unknown;
  for (auto& e : entries) if (B(e.v) == v) { want = e.n; break; }
  const E x = static_cast<E>(v);
  std::string got = arpc::enum_names<E>::name(x);
  MC_CHECK(got == want, "name", got + " instead of " + want + " for " + std::to_string(v));
  mc::outcome(got); mc::nontrivial();
}
}  // namespace
MC_SCENARIO("names") {
  switch (mc::choose(9, "enumeration")) {
    case 0: exact<small>("unknown", {{0, "zero"}, {1, "one"}, {7, "seven"}, {255, "top"}}); break;
    case 1: exact<signed_small>("?", {{-128, "low"}, {-1, "minus"}, {0, "nil"}, {127, "high"}}); break;
    case 2: exact<wide>("no such", {{300, "c"}, {-300, "a"}, {44, "b"}}); break;
    case 3: exact<word>("none", {{1, "first"}, {0xffffffff, "last"}}); break;
    case 4: exact<sword>("none", {{-2147483648ll, "least"}, {2147483647, "most"}, {0, "zero"}}); break;
    case 5: exact<huge>("none", {{1, "low"}, {0x100000001, "shifted"}, {-1, "top"}}); break;
    case 6: exact<single>("many", {{5, "only"}}); break;
    case 7: exact<twins>("none", {{3, "elder"}, {4, "other"}}); break;
    case 8: {
      std::vector<Entry> e;
      for (int i = 0; i < 60; i++) e.push_back({i * 3, "e" + std::to_string(i)});
      exact<many>("none", e); break;
    }
  }
  MC_CHECK(int(small::seven) == 7 && int(signed_small::low) == -128 && uint64_t(huge::shifted) == 0x100000001ull && int(many::e59) == 177, "value", "");
}

// --- composition ---------------------------------------------------------------
namespace {
// What happened, in order; compared with what plain calls do.
std::string log_;
struct Err : std::runtime_error { using std::runtime_error::runtime_error; virtual const char* mark() const { return ""; } };
struct Sub : Err { using Err::Err; const char* mark() const override { return "!"; } };
struct Other : std::runtime_error { using std::runtime_error::runtime_error; };
void maybe_throw(int t) {
  if (t == 1) throw Err("err");
  if (t == 2) throw Sub("sub");
  if (t == 3) throw Other("other");
  if (t == 4) throw 7;
}
// Results that can only be moved.
using Val = std::unique_ptr<int>;
struct Value { int t; Val operator()(Val v, int& r) { log_ += "V" + std::to_string(*v) + "," + std::to_string(r++) + ";"; maybe_throw(t); *v *= 2; return v; } };
struct Nothing { int t; void operator()(Val v, int& r) { log_ += "N" + std::to_string(*v) + "," + std::to_string(r++) + ";"; maybe_throw(t); } };
struct VV { int t; Val operator()(Val v) { log_ += "vv" + std::to_string(*v) + ";"; maybe_throw(t); *v += 100; return v; } };
struct VN { int t; void operator()(Val v) { log_ += "vn" + std::to_string(*v) + ";"; maybe_throw(t); } };
struct NV { int t; Val operator()() { log_ += "nv;"; maybe_throw(t); return std::make_unique<int>(5); } };
struct NN { int t; void operator()() { log_ += "nn;"; maybe_throw(t); } };
struct HV { int t; Val operator()(const Err& e) { log_ += std::string("h ") + e.what() + e.mark() + ";"; maybe_throw(t); return std::make_unique<int>(9); } };
struct HN { int t; void operator()(const Err& e) { log_ += std::string("h ") + e.what() + e.mark() + ";"; maybe_throw(t); } };
// Wrappers decide about calling: not, once, twice.
struct WV { int n, t; template <typename F> Val operator()(F& f, Val v, int& r) {
  log_ += "w;"; Val x;
  for (int i = 0; i < n; i++) { if constexpr (std::is_void_v<decltype(f(std::move(v), r))>) f(std::make_unique<int>(*v + i), r); else x = f(std::make_unique<int>(*v + i), r); }
  maybe_throw(t);
  return x ? std::move(x) : std::make_unique<int>(77); } };
struct WN { int n, t; template <typename F> void operator()(F& f, Val v, int& r) { log_ += "w;"; for (int i = 0; i < n; i++) f(std::make_unique<int>(*v + i), r); maybe_throw(t); } };
// Runs f(v, r) and says all that can be seen.
template <typename F> std::string observe(F&& f) {
  std::string s;
  int r = 3;
  log_.clear();
  for (int i = 0; i < 2; i++) {          // what was composed can be called again
    try {
      if constexpr (std::is_void_v<decltype(f(Val(), r))>) { f(std::make_unique<int>(10 + i), r); s += "void"; }
      else { Val v = f(std::make_unique<int>(10 + i), r); s += v ? std::to_string(*v) : "null"; }
    } catch (const Sub& e) { s += "Sub"; } catch (const Err& e) { s += "Err"; } catch (const Other&) { s += "Other"; } catch (int i) { s += "int"; } catch (...) { s += "unknown"; }
    s += " r" + std::to_string(r) + " " + log_ + "|";
  }
  return s;
}
template <typename A, typename B> void same(A&& composed, B&& plain, const char* what) {
  std::string want = observe(plain), got = observe(composed);
  MC_CHECK(got == want, what, got + " instead of " + want);
  mc::outcome(got); mc::nontrivial();
}
template <typename F, typename G> void pipe(F f, G g) {
  auto c = arpc::compose_pipe<Val, int&>(f, g);
  using R = decltype(f(Val(), std::declval<int&>()));
  same(c, [=](Val v, int& r) mutable { if constexpr (std::is_void_v<R>) { f(std::move(v), r); return g(); } else return g(f(std::move(v), r)); }, "pipe");
}
template <typename F, typename H> void caught(F f, H h) {
  auto c = arpc::compose_catch<Err, Val, int&>(f, h);
  same(c, [=](Val v, int& r) mutable { try { return f(std::move(v), r); } catch (const Err& e) { return h(e); } }, "catch");
}
template <typename F, typename W> void wrapped(F f, W w) {
  auto c = arpc::compose_wrap<Val, int&>(f, w);
  same(c, [=](Val v, int& r) mutable { return w(f, std::move(v), r); }, "wrap");
}
}  // namespace
MC_SCENARIO("compositions") {
  int t1 = mc::choose(5, "first throws"), t2 = mc::choose(5, "second throws");
  switch (mc::choose(12, "composition")) {
    case 0: pipe(Value{t1}, VV{t2}); break;
    case 1: pipe(Value{t1}, VN{t2}); break;
    case 2: pipe(Nothing{t1}, NV{t2}); break;
    case 3: pipe(Nothing{t1}, NN{t2}); break;
    case 4: caught(Value{t1}, HV{t2}); break;
    case 5: caught(Nothing{t1}, HN{t2}); break;
    case 6: wrapped(Value{t1}, WV{mc::choose(3, "calls"), t2}); break;
    case 7: wrapped(Value{t1}, WN{mc::choose(3, "calls"), t2}); break;
    case 8: wrapped(Nothing{t1}, WV{mc::choose(3, "calls"), t2}); break;
    case 9: wrapped(Nothing{t1}, WN{mc::choose(3, "calls"), t2}); break;
    // Of compositions.
    case 10: {
      int t3 = mc::choose(5, "third throws");
      auto c = arpc::compose_pipe<Val, int&>(arpc::compose_catch<Err, Val, int&>(Value{t1}, HV{t2}), VV{t3});
      Value f{t1}; HV h{t2}; VV g{t3};
      same(c, [=](Val v, int& r) mutable { auto in = [&](Val v) { try { return f(std::move(v), r); } catch (const Err& e) { return h(e); } }; return g(in(std::move(v))); }, "catch-pipe"); break;
    }
    case 11: {
      int t3 = mc::choose(5, "third throws");
      auto c = arpc::compose_catch<Err, Val, int&>(arpc::compose_pipe<Val, int&>(Value{t1}, VN{t2}), HN{t3});
      Value f{t1}; VN g{t2}; HN h{t3};
      same(c, [=](Val v, int& r) mutable { try { g(f(std::move(v), r)); } catch (const Err& e) { h(e); } }, "pipe-catch"); break;
    }
  }
}
MC_SCENARIO("owned-functions") {
  // What is composed belongs to the composition, which can be moved; nothing is copied that can only be moved.
  int kind = mc::choose(3, "kind");
  auto token = std::make_shared<int>(1);
  std::weak_ptr<int> alive = token;
  auto f = [p = std::make_unique<int>(4), token](int x) { return x + *p; };
  token.reset();
  auto go = [&](auto c) {
    auto d = std::move(c);
    MC_CHECK(!alive.expired(), "lost", "");
    int r = d(1);
    MC_CHECK(r == (kind == 0 ? 50 : kind == 1 ? 5 : 6), "value", std::to_string(r));
  };
  if (kind == 0) go(arpc::compose_pipe<int>(std::move(f), [p = std::make_unique<int>(10)](int x) { return x * *p; }));
  if (kind == 1) go(arpc::compose_catch<Err, int>(std::move(f), [p = std::make_unique<int>(10)](const Err&) { return *p; }));
  if (kind == 2) go(arpc::compose_wrap<int>(std::move(f), [p = std::make_unique<int>(1)](auto& g, int x) { return g(x) + *p; }));
  MC_CHECK(alive.expired(), "leak", "");
  mc::nontrivial();
}
