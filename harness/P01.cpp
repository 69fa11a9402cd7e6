// P01: byte stuffing is a bijection onto zero-free strings.
#include <string>
#include "arpc/errors.h"
#include "arpc/packet_codecs.h"
#include "mc.h"
// Independent decoder of consistent overhead byte stuffing: returns false if malformed.
static bool ref_decode(const std::string& in, std::string& out) {
  out.clear();
  if (in.empty()) return false;
  size_t i = 0; bool pending = false;
  while (i < in.size()) {
    if (pending) out += '\0';
    unsigned n = (unsigned char)in[i++];
    if (n == 0 || in.size() - i < n - 1) return false;
    out.append(in, i, n - 1); i += n - 1;
    pending = n < 255;
  }
  return true;
}
static void check(const std::string& s) {
  arpc::cobs_codec c;
  std::string f = s;
  c.encode(f);
  mc::trace("%s -> %s", mc::hex(s.substr(0, 40)).c_str(), mc::hex(f.substr(0, 40)).c_str());
  MC_CHECK(f.find('\0') == std::string::npos, "zero", "framed data contains a zero");
  MC_CHECK(f.size() <= s.size() + 1 + s.size() / 254 && f.size() > s.size(), "length", "framed " + std::to_string(s.size()) + " bytes as " + std::to_string(f.size()));
  std::string r;
  MC_CHECK(ref_decode(f, r) && r == s, "encoding", "framing is not that of the input of length " + std::to_string(s.size()));
  std::string g = f;
  try { c.decode(g); } catch (const std::exception& e) { mc::fail("threw", e.what()); }
  MC_CHECK(g == s, "roundtrip", "unframing gave " + mc::hex(g.substr(0, 60)) + " (" + std::to_string(g.size()) + " bytes) for " + mc::hex(s.substr(0, 60)));
  mc::outcome(f); mc::nontrivial();
}
MC_SCENARIO("short") {
  int n = mc::choose(mc::tier_pick(10, 11), "length");
  static const char a[] = {0, 1, char(0xff), 2};
  std::string s;
  for (int i = 0; i < n; i++) s += a[mc::choose(n > 8 ? 3 : 4, "byte")];
  check(s);
}
MC_SCENARIO("runs") {
  static const int len[] = {0, 1, 2, 252, 253, 254, 255, 256, 507, 508, 509, 510, 762, 763, 1016};
  int n = 1 + mc::choose(mc::tier_pick(3, 4), "runs");
  std::string s;
  for (int r = 0; r < n; r++) {
    if (r) s.append(1 + mc::choose(2, "zeros"), '\0');
    int k = len[mc::choose(n == 4 ? 9 : 15, "run length")];
    static const char fill[] = {1, char(0xff)};
    char f = r == 0 ? fill[mc::choose(2, "fill")] : 'a';
    for (int i = 0; i < k; i++) s += (f == 'a') ? char(1 + (i * 37 + r) % 255) : f;
  }
  if (mc::choose(2, "trailing zero")) s += '\0';
  check(s);
}
MC_SCENARIO("every-length") {
  int n = mc::choose(1300, "length"); int z = mc::choose(4, "zeros");
  std::string s(n, 'x');
  if (z == 1) s.assign(n, '\0');
  if (z >= 2) for (int i = 0; i < n; i++) s[i] = char(i % (z == 2 ? 255 : 256) + (z == 2));
  check(s);
}
// A single zero at every position of strings around the group size.
MC_SCENARIO("one-zero") {
  int n = 250 + mc::choose(14, "length"); if (mc::choose(2, "double")) n += 254;
  std::string s(n, 'y'); s[mc::choose(n, "position")] = 0;
  check(s);
}
