// HighwayHash written from its specification, independently of the repository:
// the zipper merge as a byte shuffle, the 256-bit reduction bit by bit.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
namespace hh {
typedef unsigned char u8;
struct State { uint64_t v0[4], v1[4], m0[4], m1[4]; };
inline uint64_t swap32(uint64_t x) { return x << 32 | x >> 32; }
inline void zipper(const uint64_t* in, uint64_t* out) {   // per pair of lanes, out += shuffled(in)
  static const int idx[16] = {3, 12, 2, 5, 14, 1, 15, 0, 11, 4, 10, 13, 9, 6, 8, 7};
  for (int p = 0; p < 4; p += 2) {
    u8 b[16], r[16];
    for (int i = 0; i < 16; i++) b[i] = u8(in[p + i / 8] >> (8 * (i % 8)));
    for (int i = 0; i < 16; i++) r[i] = b[idx[i]];
    for (int k = 0; k < 2; k++) { uint64_t x = 0; for (int i = 7; i >= 0; i--) x = x << 8 | r[8 * k + i]; out[p + k] += x; }
  }
}
inline void update(State& s, const uint64_t* lanes) {
  for (int i = 0; i < 4; i++) s.v1[i] += s.m0[i] + lanes[i];
  for (int i = 0; i < 4; i++) s.m0[i] ^= uint64_t(uint32_t(s.v1[i])) * (s.v0[i] >> 32);
  for (int i = 0; i < 4; i++) s.v0[i] += s.m1[i];
  for (int i = 0; i < 4; i++) s.m1[i] ^= uint64_t(uint32_t(s.v0[i])) * (s.v1[i] >> 32);
  zipper(s.v1, s.v0);
  zipper(s.v0, s.v1);
}
inline void packet(State& s, const u8* p) { uint64_t l[4]; for (int i = 0; i < 4; i++) { l[i] = 0; for (int k = 7; k >= 0; k--) l[i] = l[i] << 8 | p[8 * i + k]; } update(s, l); }
inline State absorb(const std::string& m, const uint64_t* key) {
  static const uint64_t i0[4] = {0xdbe6d5d5fe4cce2full, 0xa4093822299f31d0ull, 0x13198a2e03707344ull, 0x243f6a8885a308d3ull};
  static const uint64_t i1[4] = {0x3bd39e10cb0ef593ull, 0xc0acf169b5f18a8cull, 0xbe5466cf34e90c6cull, 0x452821e638d01377ull};
  State s;
  for (int i = 0; i < 4; i++) { s.m0[i] = i0[i]; s.m1[i] = i1[i]; s.v0[i] = i0[i] ^ key[i]; s.v1[i] = i1[i] ^ swap32(key[i]); }
  const u8* d = reinterpret_cast<const u8*>(m.data());
  size_t n = m.size();
  while (n >= 32) { packet(s, d); d += 32; n -= 32; }
  if (n) {
    for (int i = 0; i < 4; i++) s.v0[i] += (uint64_t(n) << 32) + n;
    for (int i = 0; i < 4; i++) { uint32_t lo = uint32_t(s.v1[i]), hi = uint32_t(s.v1[i] >> 32); lo = lo << n | lo >> (32 - n); hi = hi << n | hi >> (32 - n); s.v1[i] = uint64_t(hi) << 32 | lo; }
    u8 b[32] = {0}; size_t whole = n & ~size_t(3), rest = n & 3;
    memcpy(b, d, whole);
    if (n & 16) memcpy(b + 28, d + n - 4, 4);
    else if (rest) { b[16] = d[whole]; b[17] = d[whole + (rest >> 1)]; b[18] = d[whole + rest - 1]; }
    packet(s, b);
  }
  return s;
}
inline void rounds(State& s, int n) { while (n--) { uint64_t p[4] = {swap32(s.v0[2]), swap32(s.v0[3]), swap32(s.v0[0]), swap32(s.v0[1])}; update(s, p); } }
inline uint64_t h64(const std::string& m, const uint64_t* k) { State s = absorb(m, k); rounds(s, 4); return s.v0[0] + s.v1[0] + s.m0[0] + s.m1[0]; }
inline std::array<uint64_t, 2> h128(const std::string& m, const uint64_t* k) { State s = absorb(m, k); rounds(s, 6); return {s.v0[0] + s.m0[0] + s.v1[2] + s.m1[2], s.v0[1] + s.m0[1] + s.v1[3] + s.m1[3]}; }
inline std::array<uint64_t, 4> h256(const std::string& m, const uint64_t* k) {
  State s = absorb(m, k); rounds(s, 10);
  std::array<uint64_t, 4> r;
  for (int p = 0; p < 4; p += 2) {
    uint64_t a[4] = {s.v0[p] + s.m0[p], s.v0[p + 1] + s.m0[p + 1], s.v1[p] + s.m1[p], (s.v1[p + 1] + s.m1[p + 1]) & 0x3FFFFFFFFFFFFFFFull};
    for (int b = 253; b >= 128; b--) if (a[b / 64] >> (b % 64) & 1) { int e[2] = {b - 126, b - 127}; for (int x : e) a[x / 64] ^= 1ull << (x % 64); }
    r[p] = a[0]; r[p + 1] = a[1];
  }
  return r;
}
}  // namespace hh
