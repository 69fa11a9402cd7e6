// E01: errors cross process boundaries with class and message.
#include <new>
#include <string>
#include "arpc/binary_codecs.h"
#include "arpc/errors.h"
#include "arpc/result_holder.h"
#include "arpc/string_adapters.h"
#include "mc.h"
using std::string; namespace er = arpc::errors;
ERROR_CLASS(application_error);
namespace app { using ::application_error; struct special : er::io_error { using er::io_error::io_error; }; }
ERROR_CLASS(application_error2);
#define ALL(X) X(unknown_error) X(cancelled) X(data_mismatch) X(deadline_exceeded) X(eof) X(internal_error) X(invalid_argument) X(invalid_state) \
  X(io_error) X(not_implemented) X(not_found) X(out_of_range) X(shutting_down) X(unavailable) X(try_again)
static const char* const kNames[] = {
#define X(n) #n,
  ALL(X)
#undef X
  "application_error", "application_error2"};
constexpr int kN = sizeof kNames / sizeof *kNames;
static void throw_class(int i, const string& msg) {
  int k = 0;
#define X(n) if (i == k++) throw er::n(msg);
  ALL(X)
#undef X
  if (i == k++) throw app::application_error(msg);
  throw application_error2(msg);
}
// Which class was caught: a handler for each class alone.
template <typename E> static bool is_a(const std::exception_ptr& p, string* what = nullptr) {
  try { std::rethrow_exception(p); } catch (const E& e) { if (what) *what = e.what(); return true; } catch (...) { return false; }
}
static unsigned classes(const std::exception_ptr& p) {
  unsigned r = 0; int k = 0;
#define X(n) if (is_a<er::n>(p)) r |= 1u << k; k++;
  ALL(X)
#undef X
  if (is_a<app::application_error>(p)) r |= 1u << k; k++;
  if (is_a<application_error2>(p)) r |= 1u << k;
  return r;
}
static const string kMessages[] = {"", "x", "a message: 42", string(3000, 'm'), "\xff\x80 not text \x01"};
static std::exception_ptr make(int i, const string& m) { try { throw_class(i, m); } catch (...) { return std::current_exception(); } }
static void check_is(const std::exception_ptr& p, int i, const string& m, const char* how) {
  MC_CHECK(p != nullptr, string("nothing/") + how, "");
  MC_CHECK(classes(p) == 1u << i, string("class/") + how, string(kNames[i]) + " became another class");
  string w; MC_CHECK(is_a<er::base_error>(p, &w) && w == m, string("message/") + how, "message '" + w.substr(0, 40) + "' instead of '" + m.substr(0, 40) + "'");
  string w2; MC_CHECK(is_a<std::runtime_error>(p, &w2) && w2 == m && is_a<std::exception>(p, &w2) && w2 == m, string("base/") + how, "");
  try { std::rethrow_exception(p); } catch (const er::base_error& e) { MC_CHECK(e.portable_error_class_name() == kNames[i], string("name/") + how, string(e.portable_error_class_name())); }
}
static std::exception_ptr rethrow(const std::pair<string, string>& pr) {
  try { arpc::error_factory::get().throw_error(pr.first, pr.second.c_str()); } catch (...) { return std::current_exception(); }
  mc::fail("not-thrown", "throw_error returned");
}
template <typename H> static std::exception_ptr through_wire(std::exception_ptr p, bool big, bool dirty) {
  H h(p), back; string bytes; arpc::string_output_stream os(bytes);
  if (big) { arpc::big_endian_binary_encoder e(os); e(h); } else { arpc::little_endian_binary_encoder e(os); e(h); }
  if (dirty) back.set_exception(make(3, "old"));
  arpc::string_input_stream in(bytes);
  if (big) { arpc::big_endian_binary_decoder d(in); d(back); } else { arpc::little_endian_binary_decoder d(in); d(back); }
  MC_CHECK(in.pos() == bytes.size(), "wire-consumed", "");
  MC_CHECK(bool(back) && back.has_value(), "wire-empty", "");
  try { back.value(); } catch (...) { return std::current_exception(); }
  mc::fail("wire-lost", "the error did not arrive");
}
MC_SCENARIO("library-classes") {
  int i = mc::choose(kN, "class"); const string& m = mc::pick(kMessages, "message");
  auto p = make(i, m);
  check_is(p, i, m, "thrown");
  int how = mc::choose(5, "way");
  if (how == 0) {
    auto a = arpc::error_factory::analyze_exception(p);
    MC_CHECK(a.first == kNames[i] && a.second == m, "analyze", a.first);
    check_is(rethrow(a), i, m, "factory");
    auto b = arpc::error_factory::analyze_exception(rethrow(a)); check_is(rethrow(b), i, m, "factory-twice");
  } else if (how == 1) check_is(through_wire<arpc::result_holder<int>>(p, mc::choose(2), mc::choose(2)), i, m, "wire-int");
  else if (how == 2) check_is(through_wire<arpc::result_holder<void>>(p, mc::choose(2), mc::choose(2)), i, m, "wire-void");
  else if (how == 3) check_is(through_wire<arpc::result_holder<string>>(through_wire<arpc::result_holder<void>>(p, 0, 0), mc::choose(2), mc::choose(2)), i, m, "wire-twice");
  else check_is(rethrow({kNames[i], m}), i, m, "by-name");
  mc::outcome(mc::hash_str(m) + i * 10 + how); mc::nontrivial();
}
struct Foreign { int x; };
struct foreign_error : std::exception { const char* what() const noexcept override { return "foreign"; } };
MC_SCENARIO("other-exceptions") {
  int k = mc::choose(8, "kind"); std::exception_ptr p; string want;
  const string& m = mc::pick(kMessages, "message");
  try {
    switch (k) {
      case 0: want = m; throw std::runtime_error(m);
      case 1: want = m; throw std::logic_error(m);
      case 2: want = std::bad_alloc().what(); throw std::bad_alloc();
      case 3: want = "foreign"; throw foreign_error();
      case 4: throw 42;
      case 5: throw Foreign{1};
      case 6: throw "text";
      case 7: want = m; throw std::out_of_range(m);
    }
  } catch (...) { p = std::current_exception(); }
  auto a = arpc::error_factory::analyze_exception(p);
  MC_CHECK(a.second == want, "description", a.second);
  std::exception_ptr q = mc::choose(2, "wire") ? through_wire<arpc::result_holder<int>>(p, mc::choose(2), mc::choose(2)) : rethrow(a);
  MC_CHECK(classes(q) == 1u, "catch-all", "a foreign exception did not become unknown_error");
  string w; is_a<er::base_error>(q, &w); MC_CHECK(w == want, "message", w);
  mc::outcome(mc::hash_str(want) + k); mc::nontrivial();
}
MC_SCENARIO("derived-classes") {   // a class derived from a library error crosses as its base
  const string& m = mc::pick(kMessages, "message"); std::exception_ptr p;
  try { throw app::special(m); } catch (...) { p = std::current_exception(); }
  auto q = mc::choose(2, "wire") ? through_wire<arpc::result_holder<void>>(p, 0, 0) : rethrow(arpc::error_factory::analyze_exception(p));
  check_is(q, 8, m, "derived"); mc::outcome(m); mc::nontrivial();
}
MC_SCENARIO("unknown-names") {
  static const string names[] = {"", "no_such_error", "io_erro", "io_errorx", "io_error ", "IO_ERROR", "base_error", "application_error3", "a", "zzz", "er::io_error", string("io_error\0", 9), string("io_error\0x", 10), "\xff", string(300, 'n')};
  const string& n = mc::pick(names, "name"); const string& m = mc::pick(kMessages, "message");
  std::exception_ptr q;
  if (mc::choose(2, "wire")) {
    // A response written by a peer that knows more classes.
    string bytes; arpc::string_output_stream os(bytes); arpc::little_endian_binary_encoder e(os); e(false); e(true); e(n); e(m);
    arpc::result_holder<void> h; arpc::string_input_stream in(bytes); arpc::little_endian_binary_decoder d(in); d(h);
    MC_CHECK(in.pos() == bytes.size() && bool(h), "consumed", "");
    try { h.value(); } catch (...) { q = std::current_exception(); }
    MC_CHECK(q != nullptr, "lost", "");
  } else q = rethrow({n, m});
  MC_CHECK(classes(q) == 1u, "catch-all", "unknown class name " + n + " is not reported as unknown_error");
  string w; is_a<er::base_error>(q, &w); MC_CHECK(w == m, "message", w.substr(0, 50));
  mc::outcome(n + m); mc::nontrivial();
}
template <typename T> static bool registers(const char* n) { try { arpc::error_factory::get().register_error_class<T>(n); return true; } catch (const er::invalid_state&) { return false; } }
MC_SCENARIO("registration") {   // names are unique: a later class cannot take a name over
  int i = mc::choose(kN, "name");
  MC_CHECK(!registers<er::eof>(kNames[i]), "duplicate", kNames[i]);
  check_is(rethrow({kNames[i], "m"}), i, "m", "after-duplicate");
  static int serial; string& fresh = *new string("fresh" + std::to_string(serial++));   // names are kept by reference
  MC_CHECK(classes(rethrow({fresh, "m"})) == 1u, "fresh", "");
  MC_CHECK(registers<er::try_again>(fresh.c_str()), "fresh", ""); check_is(rethrow({fresh, "m"}), 14, "m", "fresh");
  check_is(rethrow({kNames[i], "m"}), i, "m", "after-registration");
  mc::outcome(i); mc::nontrivial();
}
MC_SCENARIO("nothing") {
  auto a = arpc::error_factory::analyze_exception(nullptr); MC_CHECK(a.first.empty() && a.second.empty(), "nothing", "");
  mc::outcome(1); mc::nontrivial();
}
MC_SCENARIO("system-codes") {
  int code = mc::choose(134, "errno"); bool by_errno = mc::choose(2, "errno"); std::exception_ptr p;
  try { if (by_errno) { errno = code; arpc::throw_io_error("what"); } else arpc::throw_io_error("what", code); } catch (...) { p = std::current_exception(); }
  if (code == EINPROGRESS || code == EALREADY || code == EISCONN) MC_CHECK(!p, "in-progress", "");
  else if (code == EAGAIN || code == EWOULDBLOCK) { MC_CHECK(p && classes(p) == 1u << 14, "try-again", ""); }
  else check_is(p, 8, "what: " + std::to_string(code), "io-error");
  std::exception_ptr q; errno = code;
  try { if (by_errno) arpc::throw_with_errno<er::not_found>("nf"); else arpc::throw_with_code<er::not_found>("nf", code); } catch (...) { q = std::current_exception(); }
  check_is(q, 10, "nf: " + std::to_string(code), "with-code");
  mc::outcome(code * 2 + by_errno); mc::nontrivial();
}
