// S02: the encoded bytes follow one fixed layout (independent reference encoder).
#include "universe.h"
#include <deque>
#include <list>
#include <set>
#include "arpc/container/flat_set.h"
using namespace uni;
static std::string brief(const std::string& s) { return mc::hex(s.substr(0, 48)) + (s.size() > 48 ? "... (" + std::to_string(s.size()) + " bytes)" : ""); }

// An output stream that only implements write(), and one that only implements
// putc(): the layout must not depend on which of them the encoder uses.
struct write_only_stream : arpc::output_stream {
  std::string& s; explicit write_only_stream(std::string& s) : s(s) {}
  void write(const char* p, std::size_t l) override { s.append(p, l); }
  void putc(char c) override { arpc::output_stream::putc(c); }
  void flush() override {}
};
struct putc_only_stream : arpc::output_stream {
  std::string& s; explicit putc_only_stream(std::string& s) : s(s) {}
  void write(const char* p, std::size_t l) override { arpc::output_stream::write(p, l); }
  void putc(char c) override { s.push_back(c); }
  void flush() override {}
};
static void layout(const std::vector<Type>& types) {
  const Type& t = mc::pick(types, "type");
  bool big = mc::choose(2, "big-endian");
  int how = mc::choose(3, "stream");
  auto v = t.make();
  v->gen(how == 0 ? 0 : 1);
  std::string got, want = v->reference(big);
  auto go = [&](arpc::output_stream& os) { if (big) { arpc::big_endian_binary_encoder e(os); v->encode(e); v->encode(e); } else { arpc::little_endian_binary_encoder e(os); v->encode(e); v->encode(e); } };
  if (how == 0) { arpc::string_output_stream os(got); go(os); }
  else if (how == 1) { write_only_stream os(got); go(os); }
  else { putc_only_stream os(got); go(os); }
  mc::trace("%s big=%d %s", t.name, big, brief(want).c_str());
  // The same bytes whatever was written before (no shared pointers here).
  MC_CHECK(got == want + want, std::string("layout/") + t.name, "got " + brief(got) + " want twice " + brief(want));
  mc::outcome(mc::hash_str(t.name, mc::hash_str(want)) + big);
  mc::nontrivial();
}
MC_SCENARIO("scalars") { layout(scalar_types()); }
MC_SCENARIO("containers") { layout(container_types()); }
MC_SCENARIO("compounds") { layout(compound_types()); }
// The same sequence gives the same bytes from every container that can hold it.
MC_SCENARIO("container-independence") {
  bool big = mc::choose(2, "big-endian");
  int n = mc::choose(5, "n");
  std::vector<int16_t> v; for (int i = 0; i < n; i++) v.push_back(int16_t(i * 300 + mc::choose(2, "e")));
  std::vector<std::string> outs;
  auto put = [&](const auto& c) { std::string s; arpc::string_output_stream os(s); if (big) { arpc::big_endian_binary_encoder e(os); e(c); } else { arpc::little_endian_binary_encoder e(os); e(c); } outs.push_back(s); };
  std::string want; ref_size(want, v.size()); for (auto e : v) ref_raw(want, &e, 2, big);
  put(v); put(std::deque<int16_t>(v.begin(), v.end())); put(std::list<int16_t>(v.begin(), v.end())); put(std::set<int16_t>(v.begin(), v.end()));
  put(arpc::flat_set<int16_t>(v.begin(), v.end())); put(std::multiset<int16_t>(v.begin(), v.end())); put(arpc::flat_multiset<int16_t>(v.begin(), v.end()));
  for (size_t i = 0; i < outs.size(); i++) MC_CHECK(outs[i] == want, "container-" + std::to_string(i), "got " + brief(outs[i]) + " want " + brief(want));
  // Text from a string, a view of it, and a vector of characters.
  static const size_t lens[] = {0, 1, 5, 127, 128, 200, 16384};
  std::string s(mc::pick(lens, "len"), 'q'); if (!s.empty()) s[s.size() / 2] = 0;
  outs.clear(); want.clear(); ref_size(want, s.size()); want += s;
  put(s); put(std::string_view(s)); put(std::vector<char>(s.begin(), s.end()));
  for (size_t i = 0; i < outs.size(); i++) MC_CHECK(outs[i] == want, "text-" + std::to_string(i), "got " + brief(outs[i]) + " want " + brief(want));
  mc::outcome(mc::hash_str(want)); mc::nontrivial();
}
// Sizes no memory could hold: a text that only knows its length, over streams that only count.
struct Claimed {
  Claimed() {}
  using value_type = char;
  using size_type = std::size_t;
  std::size_t n = 0; char c = 0;
  char* data() { return &c; }
  const char* data() const { return &c; }
  std::size_t size() const { return n; }
  void resize(std::size_t l) { n = l; }
  char* begin() { return &c; } char* end() { return &c; }
  const char* begin() const { return &c; } const char* end() const { return &c; }
};
struct counting_out : arpc::output_stream {
  std::string head; std::size_t body = 0;
  void write(const char* p, std::size_t l) override { if (l == 1 && !body) head.append(p, 1); else body += l; }
  void putc(char c) override { write(&c, 1); }
  void flush() override {}
};
struct counting_in : arpc::input_stream {
  std::string head; std::size_t pos = 0, body = 0;
  std::size_t read(char* p, std::size_t l) override {
    if (l <= head.size() - pos) { std::copy_n(head.data() + pos, l, p); pos += l; }
    else body += l;
    return l;
  }
  char getc() override { char c = 0; read(&c, 1); return c; }
};
MC_SCENARIO("claimed-sizes") {
  bool big = mc::choose(2, "big-endian");
  std::size_t n;
  if (mc::choose(2, "kind")) {         // around every power of two
    int k = mc::choose(64, "power"), d = mc::choose(3, "offset") - 1;
    n = (std::size_t(1) << k) + d;
  } else {                             // one full group of seven bits, on nothing or on other bits
    int g = mc::choose(10, "group");
    n = std::size_t(mc::choose(2, "group bits") ? 0x7f : 0x55) << (7 * g);
    if (mc::choose(2, "below")) n |= (std::size_t(1) << (g == 9 ? 63 : 7 * g)) - 1;
  }
  if (n < 2) return;                   // a body of one byte looks like a size
  std::string want; ref_size(want, n);
  Claimed c, d; c.n = n;
  counting_out out;
  if (big) { arpc::big_endian_binary_encoder e(out); e(c); } else { arpc::little_endian_binary_encoder e(out); e(c); }
  MC_CHECK(out.head == want && out.body == n, "size", std::to_string(n) + " as " + brief(out.head));
  counting_in in; in.head = want;
  try { if (big) { arpc::big_endian_binary_decoder x(in); x(d); } else { arpc::little_endian_binary_decoder x(in); x(d); } }
  catch (const std::exception& e) { mc::fail("size-rejected", std::to_string(n) + ": " + e.what()); }
  MC_CHECK(d.n == n && in.pos == want.size() && in.body == n, "size", std::to_string(n) + " read as " + std::to_string(d.n));
  // The same with bits no number has room for: rejected, not taken for another number.
  if (want.size() == 10 || n >> 57) {
    in = {}; d.n = 0; in.head = want;
    while (in.head.size() < 10) { in.head.back() |= char(0x80); in.head += '\0'; }
    in.head.back() |= char(2 << mc::choose(6, "excess"));
    std::string r = "accepted";
    try { if (big) { arpc::big_endian_binary_decoder x(in); x(d); } else { arpc::little_endian_binary_decoder x(in); x(d); } }
    catch (const arpc::errors::data_mismatch&) { r = "rejected"; }
    MC_CHECK(r == "rejected", "size-overflow", brief(in.head) + " " + r + " as " + std::to_string(d.n));
  }
  mc::outcome(mc::hash_str(want)); mc::nontrivial();
}
// Structures of every number of members.
void wide_members();     // wide.h
MC_SCENARIO("members") { wide_members(); }
