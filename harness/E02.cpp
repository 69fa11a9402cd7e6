// E02: a result slot yields exactly what was last stored in it.
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "arpc/binary_codecs.h"
#include "arpc/errors.h"
#include "arpc/result_holder.h"
#include "arpc/string_adapters.h"
#include "mc.h"
using std::string; namespace er = arpc::errors;
template <typename T> struct Val;
template <> struct Val<int> { static int make(int i) { return i * 17; } static bool eq(const int& a, int i) { return a == i * 17; } };
template <> struct Val<string> { static string make(int i) { return "a string that lives on the heap " + std::to_string(i); } static bool eq(const string& a, int i) { return a == make(i); } };
template <> struct Val<std::unique_ptr<int>> { static std::unique_ptr<int> make(int i) { return std::make_unique<int>(i); } static bool eq(const std::unique_ptr<int>& a, int i) { return a && *a == i; } };
template <> struct Val<std::vector<string>> { static std::vector<string> make(int i) { return {Val<string>::make(i), "x"}; } static bool eq(const std::vector<string>& a, int i) { return a == make(i); } };
static std::exception_ptr exc(int i) { return i == 1 ? std::make_exception_ptr(er::not_found("one")) : std::make_exception_ptr(std::runtime_error("two")); }
// The reference: empty, value i, exception i, or unspecified (moved from).
struct Ref { char k = 'E'; int i = 0; std::exception_ptr e; };
template <typename F> static void expect(const Ref& r, const char* what, F f) {
  // f reads the slot and says whether it saw the expected value.
  try {
    bool ok = f();
    MC_CHECK(r.k == 'V', string(r.k == 'E' ? "empty-read/" : "exception-not-rethrown/") + what, "");
    MC_CHECK(ok, string("value/") + what, "");
  } catch (const er::invalid_state& e) { MC_CHECK(r.k == 'E', string("invalid-state/") + what, "a slot holding something was read as empty"); }
  catch (...) {
    MC_CHECK(r.k == 'X', string("threw/") + what, "a slot that does not hold an exception threw");
    MC_CHECK(std::current_exception() == r.e, string("other-exception/") + what, "");
  }
}
template <typename T> static void observe(arpc::result_holder<T>& h, const Ref& r) {
  if (r.k == '?') return;
  const auto& c = h;
  MC_CHECK(c.has_value() == (r.k != 'E') && bool(c) == (r.k != 'E'), "has-value", "");
  if constexpr (std::is_void<T>::value) {
    expect(r, "value", [&] { h.value(); return true; }); expect(r, "const-value", [&] { c.value(); return true; });
    expect(r, "star", [&] { *h; return true; }); expect(r, "const-star", [&] { *c; return true; });
  } else {
    using V = Val<T>;
    expect(r, "value", [&] { return V::eq(h.value(), r.i); }); expect(r, "const-value", [&] { return V::eq(c.value(), r.i); });
    expect(r, "star", [&] { return V::eq(*h, r.i); }); expect(r, "const-star", [&] { return V::eq(*c, r.i); });
    expect(r, "arrow", [&] { return V::eq(*h.operator->(), r.i); }); expect(r, "const-arrow", [&] { return V::eq(*c.operator->(), r.i); });
    expect(r, "rvalue", [&] { return V::eq(static_cast<arpc::result_holder<T>&&>(h).value(), r.i); });
    if (r.k == 'E') MC_CHECK(V::eq(static_cast<arpc::result_holder<T>&&>(h).value_or(V::make(9)), 9), "rvalue-value-or", "");
    else expect(r, "rvalue-value-or", [&] {       // takes the value, which is put back
      T t = static_cast<arpc::result_holder<T>&&>(h).value_or(V::make(9)); bool ok = V::eq(t, r.i); h.set_value(std::move(t)); return ok; });
    if constexpr (std::is_copy_constructible<T>::value) {
      Ref r2 = r; if (r.k == 'E') { MC_CHECK(V::eq(c.value_or(V::make(9)), 9), "value-or", ""); }
      else expect(r2, "value-or", [&] { T d = V::make(9); bool ok = V::eq(c.value_or(d), r.i); MC_CHECK(V::eq(d, 9), "value-or-argument", ""); return ok; });
    }
  }
}
template <typename T> static void run(int depth) {
  using H = arpc::result_holder<T>;
  constexpr bool kVoid = std::is_void<T>::value;
  H s[2]; Ref r[2]; int serial = 0;
  for (int d = 0; d < depth; d++) {
    int op = mc::choose(13, "op"); serial++; H& h = s[0]; Ref& q = r[0];
    mc::trace("op %d", op);
    switch (op) {
      case 0:
        if constexpr (kVoid) { h.set_value(); q = Ref{'V', 0}; }
        else if constexpr (std::is_copy_constructible<T>::value) { T v = Val<T>::make(serial); h.set_value(v); MC_CHECK(Val<T>::eq(v, serial), "argument-changed/set_value", ""); q = Ref{'V', serial}; }
        else { h.set_value(Val<T>::make(serial)); q = Ref{'V', serial}; }
        break;
      case 1: if constexpr (!kVoid) { h.set_value(Val<T>::make(serial)); q = Ref{'V', serial}; } else { h.set_value(); q = Ref{'V', 0}; } break;
      case 2: case 3: { auto e = exc(op - 1); h.set_exception(e); q = Ref{'X', 0, e}; break; }
      case 4: h.reset(); q = Ref{}; break;
      case 5: h.swap(s[1]); std::swap(r[0], r[1]); break;
      case 6: { using std::swap; swap(s[1], h); std::swap(r[0], r[1]); break; }
      case 7: s[1] = std::move(h); r[1] = q; q = Ref{'?'}; h.reset(); q = Ref{}; break;
      case 8: { H x(std::move(h)); h.reset(); h = std::move(x); break; }
      case 9:   // constructed from a value of the caller
        if constexpr (kVoid) { H x; x.set_value(); h = std::move(x); q = Ref{'V', 0}; }
        else if constexpr (std::is_copy_constructible<T>::value) { T v = Val<T>::make(serial); H x(v); MC_CHECK(Val<T>::eq(v, serial), "argument-changed/constructor", "constructing a slot from a variable empties the variable"); h = std::move(x); q = Ref{'V', serial}; }
        else { H x(Val<T>::make(serial)); h = std::move(x); q = Ref{'V', serial}; }
        break;
      case 10:
        if constexpr (!kVoid && std::is_copy_constructible<T>::value) { const T v = Val<T>::make(serial); H x(v); MC_CHECK(Val<T>::eq(v, serial), "argument-changed/constructor", ""); h = std::move(x); q = Ref{'V', serial}; }
        else { auto e = exc(1); H x(e); h = std::move(x); q = Ref{'X', 0, e}; }
        break;
      case 11: { const auto e = exc(2); H x(e); MC_CHECK(e != nullptr, "argument-changed/exception", ""); h = std::move(x); q = Ref{'X', 0, e}; break; }
      case 12: {   // through the wire into the other slot
        if constexpr (!std::is_same<T, std::unique_ptr<int>>::value) {
          string bytes; arpc::string_output_stream os(bytes); arpc::little_endian_binary_encoder e(os); e(h);
          arpc::string_input_stream in(bytes); arpc::little_endian_binary_decoder dd(in); dd(s[1]);
          MC_CHECK(in.pos() == bytes.size(), "wire-consumed", "");
          r[1] = q;
          if (q.k == 'X') {   // arrives as another exception object of the right class
            try { s[1].value(); } catch (...) { r[1].e = std::current_exception(); }
            auto a = arpc::error_factory::analyze_exception(q.e), b = arpc::error_factory::analyze_exception(r[1].e);
            MC_CHECK(r[1].e && a.second == b.second && (a.first.empty() ? b.first == "unknown_error" : a.first == b.first), "wire-exception", "");
          }
        } else { s[1] = H(std::move(s[0])); r[1] = q; h.reset(); q = Ref{}; }
        break;
      }
    }
    observe(s[0], r[0]); observe(s[1], r[1]);
  }
  mc::outcome(string(1, r[0].k) + r[1].k + std::to_string(r[0].i * 10 + r[1].i)); mc::state(r[0].k * 1000 + r[1].k * 10); mc::nontrivial();
}
MC_SCENARIO("int") { run<int>(mc::tier_pick(4, 5)); }
MC_SCENARIO("string") { run<string>(mc::tier_pick(4, 5)); }
MC_SCENARIO("void") { run<void>(mc::tier_pick(4, 5)); }
MC_SCENARIO("unique_ptr") { run<std::unique_ptr<int>>(mc::tier_pick(4, 5)); }
MC_SCENARIO("vector") { run<std::vector<string>>(mc::tier_pick(3, 4)); }
