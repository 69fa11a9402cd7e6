// P03: authenticated packets reject every modification.
#include <string>
#include "arpc/errors.h"
#include "arpc/packet_codecs.h"
#include "hh_ref.h"
#include "mc.h"
static const uint64_t keys[][4] = {{0xb6b9bb544bfd7e87ULL, 0xd5c3f7ccc7c7dfd4ULL, 0x807dbb0023c7c781ULL, 0x13473d620bd5426cULL},
                                   {0, 0, 0, 0}, {1, 0, 0, 0}, {0, 0, 0, 1}, {0x0706050403020100ull, 0x0f0e0d0c0b0a0908ull, 0x1716151413121110ull, 0x1f1e1d1c1b1a1918ull}};
static int decode(arpc::mac_codec& m, std::string& d) {   // 0 ok, 1 data mismatch
  std::string copy; copy.reserve(d.size() < 16 ? 16 : d.size()); copy = d;
  try { m.decode(copy); } catch (const arpc::errors::data_mismatch&) { return 1; } catch (const std::exception& e) { mc::fail("wrong-error", e.what()); }
  d = copy; return 0;
}
static std::string payload() {
  int how = mc::choose(2, "payload kind");
  std::string s;
  if (how == 0) {
    static const char a[] = {0, 1, char(0x80), char(0xff)};
    int n = mc::choose(5, "length"); for (int i = 0; i < n; i++) s += a[mc::choose(4, "byte")];
  } else {
    static const int len[] = {7, 8, 9, 15, 16, 17, 23, 24, 28, 31, 32, 33, 47, 48, 63, 64, 65, 95, 96, 97, 300};
    int n = len[mc::choose(int(std::size(len)), "length")];
    for (int i = 0; i < n; i++) s += char(i * 29 + 7);
  }
  return s;
}
static void judge(arpc::mac_codec& m, const std::string& orig, std::string d, const char* what) {
  if (d == orig) return;
  int r = decode(m, d);
  MC_CHECK(r == 1, std::string("accepted/") + what, "a modified packet was accepted as " + mc::hex(d.substr(0, 40)));
  mc::transition();
}
MC_SCENARIO("intact") {
  std::string p = payload(); int k = mc::choose(5, "key"); int k2 = mc::choose(5, "other key");
  arpc::mac_codec m(keys[k]), m2(keys[k2]);
  std::string d = p; m.encode(d);
  uint64_t h = hh::h64(p, keys[k]);
  std::string want = p; for (int i = 0; i < 8; i++) want += char(h >> (8 * i));
  MC_CHECK(d == want, "code", "the code of " + mc::hex(p.substr(0, 20)) + " is " + mc::hex(d.substr(p.size())) + " not " + mc::hex(want.substr(p.size())));
  std::string e = d; int r = decode(m2, e);
  if (k == k2) MC_CHECK(r == 0 && e == p, "roundtrip", "the packet did not come back intact");
  else MC_CHECK(r == 1, "accepted/other-key", "a packet made under another key was accepted");
  mc::outcome(d); mc::nontrivial();
}
MC_SCENARIO("default-key") {
  std::string p = payload(); arpc::mac_codec m, n(keys[0]);
  std::string d = p; m.encode(d); std::string e = d;
  MC_CHECK(decode(n, e) == 0 && e == p, "default-key", "");
  n.encode(e); MC_CHECK(decode(m, e) == 0 && e == p, "default-key", "");
  mc::outcome(d); mc::nontrivial();
}
MC_SCENARIO("bit-flips") {
  std::string p = payload(); arpc::mac_codec m(keys[mc::choose(2, "key")]); std::string d = p; m.encode(d);
  for (size_t b = 0; b < d.size() * 8; b++) { std::string x = d; x[b / 8] ^= char(1 << (b % 8)); judge(m, d, x, "bit"); }
  mc::outcome(d); mc::nontrivial();
}
MC_SCENARIO("byte-changes") {
  std::string p = payload(); arpc::mac_codec m; std::string d = p; m.encode(d);
  if (p.size() > size_t(mc::tier_pick(17, 300)) || (!mc::thorough() && p.size() == 4)) mc::prune();
  size_t i = mc::choose(int(d.size()), "position"); for (int v = 0; v < 256; v++) { std::string x = d; x[i] = char(v); judge(m, d, x, "byte"); }
  mc::outcome(d); mc::nontrivial();
}
MC_SCENARIO("lengths") {
  std::string p = payload(); arpc::mac_codec m; std::string d = p; m.encode(d);
  for (size_t n = 0; n < d.size(); n++) { judge(m, d, d.substr(0, n), "truncated"); judge(m, d, d.substr(d.size() - n), "head cut"); judge(m, d, d.substr(0, n) + d.substr(n + 1), "byte removed"); }
  for (int v = 0; v < 256; v++) { judge(m, d, d + char(v), "extended"); judge(m, d, char(v) + d, "prefixed"); }
  for (size_t n = 0; n <= d.size(); n++) for (int v : {0, 1, 0xff}) { std::string x = d; x.insert(n, 1, char(v)); judge(m, d, x, "inserted"); }
  for (size_t n = 0; n + 1 < d.size(); n++) { std::string x = d; std::swap(x[n], x[n + 1]); judge(m, d, x, "swapped"); }
  mc::outcome(d); mc::nontrivial();
}
// Two single bit changes: none of them cancel out.
MC_SCENARIO("bit-pairs") {
  std::string p = payload(); if (p.size() > size_t(mc::tier_pick(2, 9))) mc::prune();
  arpc::mac_codec m; std::string d = p; m.encode(d);
  size_t a = mc::choose(int(d.size() * 8), "bit"); for (size_t b = 0; b < a; b++) { std::string x = d; x[a / 8] ^= char(1 << (a % 8)); x[b / 8] ^= char(1 << (b % 8)); judge(m, d, x, "two bits"); }
  mc::outcome(d); mc::nontrivial();
}
