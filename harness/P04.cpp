// P04: the keyed hash is standard, streaming and stable.
#include <memory>
#include <string>
#include "arpc/highway_hash.h"
#include "hh_ref.h"
#include "mc.h"
using arpc::highway_hash;
static const uint64_t keys[][4] = {{0x0706050403020100ull, 0x0f0e0d0c0b0a0908ull, 0x1716151413121110ull, 0x1f1e1d1c1b1a1918ull}, {0, 0, 0, 0}, {~0ull, 1, 1ull << 63, 0x123456789abcdef0ull}};
static std::string message(int n, int kind) { std::string s; for (int i = 0; i < n; i++) s += kind == 0 ? char(i) : kind == 1 ? char(0xff) : char(i * 73 + 5); return s; }
static const uint8_t* u(const char* p) { return reinterpret_cast<const uint8_t*>(p); }
static std::string str(const uint64_t* p, int n) { std::string s; char b[20]; for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "%016llx ", (unsigned long long)p[i]); s += b; } return s; }
static void same(const uint64_t* a, const uint64_t* b, int n, const char* key, int len) { MC_CHECK(memcmp(a, b, n * 8) == 0, key, std::to_string(len) + " bytes: " + str(a, n) + "expected " + str(b, n)); }
// Published HighwayHash-64 values: key bytes 0..31, message bytes 0..n-1.
MC_SCENARIO("published") {
  static const uint64_t v[] = {0x907A56DE22C26E53ull, 0x7EAB43AAC7CDDD78ull, 0xB8D0569AB0B53D62ull, 0x5C6BEFAB8A463D80ull, 0xF205A46893007EDAull, 0x2B8A1668E4A94541ull, 0xBD4CCC325BEFCA6Full, 0x4D02AE1738F59482ull};
  int n = mc::choose(8, "length");
  std::string m = message(n, 0);
  uint64_t h = highway_hash::hash64(u(m.data()), n, keys[0]);
  same(&h, &v[n], 1, "published", n); mc::outcome(h); mc::nontrivial();
}
MC_SCENARIO("one-shot") {
  int n = mc::choose(mc::tier_pick(201, 1100), "length"), k = mc::choose(3, "key"), kind = mc::choose(3, "message"), align = mc::choose(mc::tier_pick(3, 8), "alignment");
  std::string m = message(n, kind);
  std::unique_ptr<uint8_t[]> b(new uint8_t[n + align]); memcpy(b.get() + align, m.data(), n);
  const uint8_t* p = b.get() + align;
  uint64_t h = highway_hash::hash64(p, n, keys[k]), r = hh::h64(m, keys[k]); same(&h, &r, 1, "hash64", n);
  uint64_t h2[2], h4[4]; highway_hash::hash128(p, n, keys[k], h2); highway_hash::hash256(p, n, keys[k], h4);
  auto r2 = hh::h128(m, keys[k]); auto r4 = hh::h256(m, keys[k]);
  same(h2, r2.data(), 2, "hash128", n); same(h4, r4.data(), 4, "hash256", n);
  mc::outcome(h); mc::nontrivial();
}
// Every split into up to three (thorough: four) pieces, results also taken in between, and a reused hasher.
static void pieces(int n, int parts, int kind) {
  std::string m = message(n, kind);
  int reused = mc::choose(2, "reused");
  const uint64_t* key = keys[kind];
  highway_hash h(reused ? keys[1] : key);
  if (reused) { std::string junk = message(reused * 13 + n % 40, 2); h.append(u(junk.data()), junk.size()); if (n & 1) (void)h.finish64(); h.reset(key); }
  size_t at = 0; int left = n;
  for (int i = 0; i < parts; i++) {
    int take = i == parts - 1 ? left : mc::choose(left + 1, "piece");
    std::unique_ptr<uint8_t[]> b(new uint8_t[take]); memcpy(b.get(), m.data() + at, take);
    h.append(b.get(), take); at += take; left -= take;
    std::string sofar = m.substr(0, at);
    // Asking for the result so far must not disturb what follows.
    uint64_t x = h.finish64(), r = hh::h64(sofar, key); same(&x, &r, 1, i == parts - 1 ? "streamed64" : "intermediate64", int(at));
  }
  uint64_t h2[2], h4[4]; h.finish128(h2); h.finish256(h4); auto r2 = hh::h128(m, key); auto r4 = hh::h256(m, key);
  same(h2, r2.data(), 2, "streamed128", n); same(h4, r4.data(), 4, "streamed256", n);
  uint64_t x = h.finish64(), r = hh::h64(m, key); same(&x, &r, 1, "again64", n);
  mc::outcome(x); mc::nontrivial();
}
MC_SCENARIO("two-pieces") { pieces(mc::choose(mc::tier_pick(130, 300), "length"), 2, mc::choose(3, "message")); }
MC_SCENARIO("three-pieces") { pieces(mc::choose(mc::tier_pick(70, 110), "length"), 3, 2); }
MC_SCENARIO("four-pieces", 0, 0, true) { pieces(mc::choose(70, "length"), 4, 2); }
// Without any data, and copies.
MC_SCENARIO("empty-and-copies") {
  int n = mc::choose(70, "length"), extra = mc::choose(40, "extra");
  std::string m = message(n, 2), e = message(extra, 1);
  highway_hash a(keys[0]); a.append(u(m.data()), n);
  highway_hash b(a); highway_hash c(keys[1]); c = a;
  b.append(u(e.data()), extra);
  uint64_t x = a.finish64(), y = b.finish64(), z = c.finish64(), rx = hh::h64(m, keys[0]), ry = hh::h64(m + e, keys[0]);
  same(&x, &rx, 1, "copied-from", n); same(&y, &ry, 1, "copy", n); same(&z, &rx, 1, "assigned", n);
  mc::outcome(y); mc::nontrivial();
}
