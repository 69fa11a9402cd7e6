// P02: unframing arbitrary bytes is safe and exact.
#include <string>
#include "arpc/errors.h"
#include "arpc/packet_codecs.h"
#include "mc.h"
static bool ref_decode(const std::string& in, std::string& out) {
  out.clear();
  if (in.empty()) return false;
  size_t i = 0; bool pending = false;
  while (i < in.size()) {
    if (pending) out += '\0';
    unsigned n = (unsigned char)in[i++];
    if (n == 0 || in.size() - i < n - 1) return false;
    out.append(in, i, n - 1); i += n - 1;
    pending = n < 255;
  }
  return true;
}
static void check(const std::string& in) {
  arpc::cobs_codec c;
  // An exact heap buffer, so that a read past it is seen.
  std::string d; d.reserve(in.size() < 16 ? 16 : in.size()); d = in;
  bool threw = false;
  try { c.decode(d); } catch (const arpc::errors::data_mismatch&) { threw = true; }
  catch (const std::exception& e) { mc::fail("wrong-error", std::string(e.what()) + " for " + mc::hex(in.substr(0, 40))); }
  std::string want; bool ok = ref_decode(in, want);
  mc::trace("%s -> %s", mc::hex(in.substr(0, 40)).c_str(), threw ? "mismatch" : mc::hex(d.substr(0, 40)).c_str());
  MC_CHECK(ok == !threw, ok ? "rejected" : "accepted", mc::hex(in.substr(0, 60)) + " of " + std::to_string(in.size()) + " bytes");
  if (ok) {
    MC_CHECK(d == want, "value", mc::hex(in.substr(0, 40)) + "... (" + std::to_string(in.size()) + " bytes) gave " + std::to_string(d.size()) + " bytes, expected " + std::to_string(want.size()));
    // Framing it again gives the input, up to a redundant final group.
    std::string f = d; c.encode(f);
    MC_CHECK(f == in || f == in + "\1", "reframe", mc::hex(in.substr(0, 40)));
  }
  mc::outcome(mc::hash_str(in) + ok); mc::nontrivial();
}
MC_SCENARIO("short") {
  static const char a[] = {1, 2, 3, 4, 5, 6, 7, char(0xfe), char(0xff)};
  int n = mc::choose(mc::tier_pick(7, 8), "length");
  std::string s; for (int i = 0; i < n; i++) s += a[mc::choose(9, "byte")];
  check(s);
}
// Long frames: truncated anywhere, or with one byte changed.
static std::string frame(int k) {
  static const int lens[] = {252, 253, 254, 255, 507, 508, 509, 600};
  std::string s; int n = lens[k % 8];
  for (int i = 0; i < n; i++) s += char(k < 8 ? 1 + i % 255 : (i * 7) % (k < 16 ? 256 : 40));
  arpc::cobs_codec c; c.encode(s); return s;
}
MC_SCENARIO("truncated") {
  std::string f = frame(mc::choose(24, "frame"));
  check(f.substr(0, mc::choose(int(f.size()) + 1, "length")));
}
MC_SCENARIO("changed") {
  std::string f = frame(mc::choose(24, "frame"));
  int p = mc::choose(int(f.size()), "position");
  static const unsigned char v[] = {1, 2, 3, 0x80, 0xfd, 0xfe, 0xff};
  f[p] = char(v[mc::choose(7, "value")]);
  check(f);
}
MC_SCENARIO("groups") {   // sequences of groups with lengths around the limit, complete or not
  int n = 1 + mc::choose(3, "groups"); std::string s;
  static const int c[] = {1, 2, 0xfd, 0xfe, 0xff};
  for (int i = 0; i < n; i++) { int k = c[mc::choose(5, "count")]; s += char(k); int have = k - 1 - ((i == n - 1 && k > 1) ? mc::choose(2, "short") : 0); for (int j = 0; j < have; j++) s += char(1 + (j + i) % 255); }
  check(s);
}
