// P05: serial-line packets survive corruption of their neighbours.
#include <string>
#include <vector>
#include "arpc/errors.h"
#include "arpc/packet_protocols.h"
#include "arpc/string_adapters.h"
#include "hh_ref.h"
#include "mc.h"
using std::string; using std::vector;
static const uint64_t kKey[4] = {0xb6b9bb544bfd7e87ULL, 0xd5c3f7ccc7c7dfd4ULL, 0x807dbb0023c7c781ULL, 0x13473d620bd5426cULL};
static bool ref_unframe(const string& in, string& out) {
  out.clear(); if (in.empty()) return false;
  size_t i = 0; bool pending = false;
  while (i < in.size()) {
    if (pending) out += '\0';
    unsigned n = (unsigned char)in[i++];
    if (n == 0 || in.size() - i < n - 1) return false;
    out.append(in, i, n - 1); i += n - 1; pending = n < 255;
  }
  if (out.size() < 8) return false;
  uint64_t h = 0; for (int k = 0; k < 8; k++) h |= uint64_t((unsigned char)out[out.size() - 8 + k]) << (8 * k);
  out.resize(out.size() - 8);
  return hh::h64(out, kKey) == h;
}
static string payload(int k) {
  switch (k) {
    case 0: return "";
    case 1: return string(1, '\0');
    case 2: return "ab";
    case 3: return string("\0a\0\0\xff\1", 6);
    case 4: { string s; for (int i = 0; i < 246; i++) s += char(1 + i % 255); return s; }      // 254 bytes with the code
    case 5: { string s; for (int i = 0; i < 300; i++) s += char(i % 50); return s; }
    default: { string s; for (int i = 0; i < 520; i++) s += char(1 + i % 200); return s; }
  }
}
// An input that only knows how to give one byte at a time or short blocks.
struct Src : arpc::input_stream {
  const string& s; size_t p = 0;
  explicit Src(const string& x) : s(x) {}
  size_t read(char* q, size_t l) override { size_t n = std::min(l, s.size() - p); memcpy(q, s.data() + p, n); p += n; return n; }
  char getc() override { if (p >= s.size()) throw arpc::errors::eof("EOF"); return s[p++]; }
};
// An output that holds everything back until it is flushed.
struct Held : arpc::output_stream {
  string& out; string held;
  explicit Held(string& o) : out(o) {}
  void write(const char* p, size_t l) override { held.append(p, l); }
  void putc(char c) override { held += c; }
  void flush() override { out += held; held.clear(); }
};
static string send_all(const vector<string>& ps, vector<string>* frames = nullptr) {
  string out; Held os(out); arpc::serial_line_packet_protocol<> proto;
  for (auto& p : ps) {
    size_t before = out.size();
    const string keep = p;
    proto.send(os, p);
    MC_CHECK(p == keep, "argument-changed", "");
    MC_CHECK(os.held.empty(), "not-on-its-way", "a packet is sent but not flushed");
    string f = out.substr(before);
    MC_CHECK(!f.empty() && f.back() == 0 && f.find('\0') == f.size() - 1, "delimiter", "a packet is not sent as one zero-terminated frame");
    f.pop_back();
    string back; MC_CHECK(ref_unframe(f, back) && back == p, "frame", "the frame sent is not the authenticated packet");
    if (frames) frames->push_back(f);
  }
  return out;
}
// Receives until the end of the link; every frame has an expected outcome.
template <size_t MAX> static void receive_all(const string& stream, const vector<string>& sent, size_t max) {
  vector<string> segs; string cur;
  for (char c : stream) { if (c) cur += c; else { segs.push_back(cur); cur.clear(); } }
  Src in(stream); arpc::serial_line_packet_protocol<MAX> proto;
  size_t seg = 0;
  auto pos_seg = [&] { size_t n = 0; for (size_t i = 0; i < in.p; i++) n += !stream[i]; return n; };
  int guard = 0;
  size_t delivered = 0;
  vector<int> got(segs.size(), 0), errs(segs.size() + 1, 0);
  for (;;) {
    if (++guard > int(stream.size()) + 5) mc::fail("endless", "reading does not reach the end of the link");
    size_t at = pos_seg();   // the frame being read
    try {
      string p = proto.receive(in);
      bool was_sent = false; for (auto& x : sent) was_sent |= x == p;
      MC_CHECK(was_sent, "invented", "a packet was delivered that was never sent: " + mc::hex(p.substr(0, 30)));
      string want;
      // After an oversized frame was reported, its rest may happen to be a whole frame.
      bool rest = at < segs.size() && segs[at].size() > max && errs[at];
      if (rest) { string tail; bool found = false; for (size_t k = 1; k < segs[at].size(); k++) found |= ref_unframe(segs[at].substr(k), tail) && tail == p; MC_CHECK(found, "wrong-packet", ""); continue; }
      MC_CHECK(at < segs.size() && segs[at].size() <= max && ref_unframe(segs[at], want) && want == p, "wrong-packet", "frame " + std::to_string(at));
      MC_CHECK(!errs[at] && !got[at], "twice", ""); got[at] = 1; delivered++;
      mc::trace("frame %zu delivered %zu bytes", at, p.size());
    } catch (const arpc::errors::data_mismatch&) { errs[at]++; mc::trace("frame %zu mismatch", at); }
    catch (const arpc::errors::out_of_range&) { MC_CHECK(at <= segs.size() && (at < segs.size() ? segs[at] : cur).size() > max, "limit", "a packet within the limit was refused"); errs[at]++; mc::trace("frame %zu too long", at); }
    catch (const arpc::errors::eof&) { MC_CHECK(in.p == stream.size(), "early-eof", ""); break; }
    catch (const std::exception& e) { mc::fail("wrong-error", string("reading failed with: ") + e.what()); }
  }
  for (size_t i = 0; i < segs.size(); i++) {
    string want; bool ok = segs[i].size() <= max && ref_unframe(segs[i], want);
    MC_CHECK(got[i] == ok, ok ? "lost" : "delivered-damaged", "frame " + std::to_string(i) + " of " + std::to_string(segs.size()));
    MC_CHECK(ok || errs[i] > 0, "unreported", "a damaged frame was skipped silently");
  }
}
static vector<string> packets(int maxn, int alphabet) {
  int n = 1 + mc::choose(maxn, "packets"); vector<string> v;
  for (int i = 0; i < n; i++) v.push_back(payload(mc::choose(alphabet, "payload")));
  return v;
}
MC_SCENARIO("intact") {
  auto v = packets(mc::tier_pick(3, 4), 7); string s = send_all(v);
  arpc::serial_line_packet_protocol<> proto; Src in(s);
  for (auto& p : v) { string got = proto.receive(in); MC_CHECK(got == p, "intact", "a packet changed on an intact link"); }
  receive_all<std::numeric_limits<size_t>::max()>(s, v, std::numeric_limits<size_t>::max());
  mc::outcome(s); mc::nontrivial();
}
static string mutate(const string& s, const char* what) {
  string t = s; size_t p = mc::choose(int(s.size()) + 1, "position");
  int kind = mc::choose(12, what);
  if (p == s.size() && kind < 8) return t;
  switch (kind) {
    case 0: t[p] = 0; break; case 1: t[p] = 1; break; case 2: t[p] = char(0xff); break;
    case 3: t[p] ^= 1; break; case 4: t[p] ^= char(0x80); break; case 5: t[p] = char(t[p] + 1); break;
    case 6: t.erase(p, 1); break; case 7: t.insert(p, 1, t[p]); break;
    case 8: t.insert(p, 1, '\0'); break; case 9: t.insert(p, 1, '\1'); break; case 10: t.insert(p, 1, '\xff'); break;
    case 11: t.resize(p); break;
  }
  return t;
}
constexpr size_t kNoMax = std::numeric_limits<size_t>::max();
MC_SCENARIO("one-damage") {
  vector<string> v = packets(3, mc::tier_pick(4, 7));
  string t = mutate(send_all(v), "damage");
  receive_all<kNoMax>(t, v, kNoMax);
  mc::outcome(t); mc::nontrivial();
}
MC_SCENARIO("one-damage-long") {
  static const int sets[][3] = {{2, 4, 2}, {4, 4, 0}, {5, 2, 6}, {6, 0, 4}};
  auto& k = sets[mc::choose(4, "packets")]; vector<string> v{payload(k[0]), payload(k[1]), payload(k[2])};
  string t = mutate(send_all(v), "damage");
  receive_all<kNoMax>(t, v, kNoMax);
  mc::outcome(t); mc::nontrivial();
}
MC_SCENARIO("two-damages") {
  vector<string> v; static const int sets[][3] = {{2, 0, 2}, {0, 1, 3}, {2, 3, 2}, {3, 2, 1}, {1, 1, 1}};
  auto& k = sets[mc::choose(mc::tier_pick(2, 5), "packets")]; for (int i : k) v.push_back(payload(i));
  string t = mutate(mutate(send_all(v), "damage"), "damage");
  receive_all<kNoMax>(t, v, kNoMax);
  mc::outcome(t); mc::nontrivial();
}
template <size_t M> static void limited() {
  vector<string> v; int n = 1 + mc::choose(3, "packets");
  for (int i = 0; i < n; i++) { int len = int(M) - 11 + mc::choose(5, "length"); string p; for (int j = 0; j < std::max(0, len); j++) p += char('a' + i); v.push_back(p); }
  string t = send_all(v);
  if (mc::choose(2, "damaged")) t = mutate(t, "damage");
  receive_all<M>(t, v, M);
  mc::outcome(t); mc::nontrivial();
}
MC_SCENARIO("limit-12") { limited<12>(); }
MC_SCENARIO("limit-20") { limited<20>(); }
MC_SCENARIO("limit-multiples") {   // packets many times the limit
  vector<string> v{"ab", string(1 + mc::choose(60, "length"), 'x'), "cd"};
  string t = send_all(v); receive_all<14>(t, v, 14);
  mc::outcome(t); mc::nontrivial();
}

MC_SCENARIO("scale") {
  // Packets of any size, and any number of them, one of them damaged.
  int n = 1 + mc::amount(mc::tier_pick(20, 60), mc::tier_pick(257, 1025), "packets"), size = mc::amount(2, mc::tier_pick(1 << 13, 1 << 17) + 1, "size");
  if (n > 3 && size > 300) mc::prune();
  int at = n < 4 ? mc::choose(n + 1, "damaged") - 1 : std::vector<int>{-1, 0, 1, n / 2, n - 2, n - 1}[mc::choose(6, "damaged")];
  vector<string> v, f;
  for (int i = 0; i < n; i++) { string p; for (int k = 0; k < (i == n / 2 ? size : i % 7); k++) p += char(k * 11 + k / 300 + i); v.push_back(p); }
  string s = send_all(v, &f);
  if (at >= 0) {
    size_t from = 0; for (int i = 0; i < at; i++) from += f[i].size() + 1;
    size_t where = from + (mc::choose(2, "place") ? f[at].size() / 2 : f[at].size() - 1);
    s[where] = s[where] == 1 ? 2 : 1;
  }
  receive_all<kNoMax>(s, v, kNoMax);
  mc::outcome(s); mc::nontrivial();
}
