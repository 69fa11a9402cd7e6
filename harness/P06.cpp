// P06: stream packets keep their boundaries under any chunking.
#include <istream>
#include <string>
#include <vector>
#include "arpc/errors.h"
#include "arpc/iostream_adapters.h"
#include "arpc/packet_protocols.h"
#include "arpc/string_adapters.h"
#include "mc.h"
using std::string; using std::vector;
using BE = arpc::protected_stream_packet_protocol<arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder>;
using LE = arpc::protected_stream_packet_protocol<>;
static const int kSizes[] = {0, 1, 2, 127, 128, 129, 255, 256, 300, 16383, 16384, 16385};
static string make(int n, int seed) { string s; for (int i = 0; i < n; i++) s += char(i * 7 + seed * 31); if (n) s[n - 1] = char(0x80); return s; }
// Delivers the bytes in pieces: a scripted pattern of piece sizes.
struct Pieces : std::streambuf {
  const string& s; size_t p = 0; int a, b, k = 0; char buf[64];
  Pieces(const string& x, int a, int b) : s(x), a(a), b(b) {}
  int_type underflow() override {
    if (p >= s.size()) return traits_type::eof();
    size_t n = std::min<size_t>(k++ % 2 ? a : b, s.size() - p); n = std::min<size_t>(n, sizeof buf);
    memcpy(buf, s.data() + p, n); p += n; setg(buf, buf, buf + n);
    return traits_type::to_int_type(buf[0]);
  }
};
struct OnlyGetc : arpc::input_stream {
  const string& s; size_t p = 0; explicit OnlyGetc(const string& x) : s(x) {}
  size_t read(char* q, size_t l) override { return arpc::input_stream::read(q, l); }
  char getc() override { if (p >= s.size()) throw arpc::errors::eof("EOF"); return s[p++]; }
};
struct OnlyRead : arpc::input_stream {
  const string& s; size_t p = 0; explicit OnlyRead(const string& x) : s(x) {}
  size_t read(char* q, size_t l) override { size_t n = std::min(l, s.size() - p); memcpy(q, s.data() + p, n); p += n; return n; }
  char getc() override { return arpc::input_stream::getc(); }
};
struct Bytewise : arpc::output_stream {
  string& s; string held; explicit Bytewise(string& x) : s(x) {}
  void write(const char* p, size_t l) override { arpc::output_stream::write(p, l); }
  void putc(char c) override { held += c; }
  void flush() override { s += held; held.clear(); }
};
template <typename P> static void receive(arpc::input_stream& in, const vector<string>& v, size_t complete, const char* how) {
  P proto;
  for (size_t i = 0; i < complete; i++) {
    string got;
    try { got = proto.receive(in); } catch (const std::exception& e) { mc::fail("threw", string(how) + " packet " + std::to_string(i) + ": " + e.what()); }
    MC_CHECK(got == v[i], "packet", string(how) + " packet " + std::to_string(i) + " of " + std::to_string(v[i].size()) + " bytes came back as " + std::to_string(got.size()) + " bytes");
  }
  try { proto.receive(in); mc::fail("partial", "a packet was received after the last complete one"); } catch (const arpc::errors::eof&) {}
  catch (const std::exception& e) { mc::fail("wrong-error", string(how) + ": the end of the stream was reported as " + e.what()); }
}
template <typename P> static string send_all(const vector<string>& v, vector<size_t>& ends) {
  string a, b; arpc::string_output_stream os(a); Bytewise bw(b); P p1, p2;
  for (auto& x : v) {
    p1.send(os, x); p2.send(bw, x); ends.push_back(a.size());
    MC_CHECK(bw.held.empty(), "not-on-its-way", "a packet is sent but not flushed");
    string want; size_t n = x.size(); while (n >= 128) { want += char(n % 128 | 128); n /= 128; } want += char(n); want += x;
    MC_CHECK(a.substr(a.size() - want.size()) == want, "bytes", "a packet is not sent as its size and contents");
  }
  MC_CHECK(a == b, "bytewise", "the bytes depend on how the link takes them");
  return a;
}
static void all_links(const string& s, const vector<string>& v, size_t complete, bool be) {
  auto go = [&](arpc::input_stream& in, const char* how) { if (be) receive<BE>(in, v, complete, how); else receive<LE>(in, v, complete, how); };
  int k = mc::choose(7, "link");
  if (k == 0) { arpc::string_input_stream in(s); go(in, "string"); }
  else if (k == 1) { OnlyGetc in(s); go(in, "getc"); }
  else if (k == 2) { OnlyRead in(s); go(in, "read"); }
  else { static const int ab[][2] = {{1, 1}, {1, 3}, {2, 64}, {63, 1}}; Pieces pb(s, ab[k - 3][0], ab[k - 3][1]); std::istream is(&pb); arpc::istream_input_stream in(is); go(in, "pieces"); }
}
MC_SCENARIO("boundaries") {
  int n = mc::choose(4, "packets"); vector<string> v; for (int i = 0; i < n; i++) v.push_back(make(kSizes[mc::choose(mc::tier_pick(9, 12), "size")], i));
  bool be = mc::choose(2, "big-endian"); vector<size_t> ends;
  string s = be ? send_all<BE>(v, ends) : send_all<LE>(v, ends);
  all_links(s, v, n, be);
  mc::outcome(mc::hash_str(s)); mc::nontrivial();
}
MC_SCENARIO("every-size") {
  int n = mc::choose(mc::tier_pick(700, 20000), "size"); vector<string> v{make(n, 1), make(3, 2)};
  vector<size_t> ends; string s = send_all<LE>(v, ends);
  all_links(s, v, 2, false);
  mc::outcome(mc::hash_str(s)); mc::nontrivial();
}
MC_SCENARIO("truncated") {
  static const int sets[][3] = {{0, 0, 0}, {1, 0, 2}, {2, 127, 1}, {128, 2, 0}, {129, 128, 300}, {300, 1, 255}};
  auto& k = sets[mc::choose(6, "packets")]; vector<string> v{make(k[0], 0), make(k[1], 1), make(k[2], 2)};
  bool be = mc::choose(2, "big-endian"); vector<size_t> ends;
  string s = be ? send_all<BE>(v, ends) : send_all<LE>(v, ends);
  size_t cut = mc::choose(int(s.size()) + 1, "cut"), complete = 0;
  while (complete < 3 && ends[complete] <= cut) complete++;
  all_links(s.substr(0, cut), v, complete, be);
  mc::outcome(mc::hash_str(s) + cut); mc::nontrivial();
}

MC_SCENARIO("scale") {
  // Packets of any size, and any number of them.
  int n = mc::amount(mc::tier_pick(20, 60), mc::tier_pick(1025, 4097), "packets"), size = mc::amount(2, mc::tier_pick(1 << 17, 1 << 22) + 1, "size");
  if (n > 3 && size > 300 || size > (1 << 17) + 1 && n != 2) mc::prune();
  vector<string> v;
  for (int i = 0; i < n; i++) v.push_back(make(i == n / 2 ? size : i % 5, i));
  vector<size_t> ends; string s = send_all<LE>(v, ends);
  all_links(s, v, n, false);
  mc::outcome(mc::hash_str(s)); mc::nontrivial();
}
