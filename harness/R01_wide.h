// Interfaces of many methods, and methods of many arguments.
#pragma once
#include "rpc.h"
ARPC_INTERFACE(Wide, (), (((int), m0, (((int), x))),
               ((int), m1, (((int), x))),
               ((int), m2, (((int), x))),
               ((int), m3, (((int), x))),
               ((int), m4, (((int), x))),
               ((int), m5, (((int), x))),
               ((int), m6, (((int), x))),
               ((int), m7, (((int), x))),
               ((int), m8, (((int), x))),
               ((int), m9, (((int), x))),
               ((int), m10, (((int), x))),
               ((int), m11, (((int), x))),
               ((int), m12, (((int), x))),
               ((int), m13, (((int), x))),
               ((int), m14, (((int), x))),
               ((int), m15, (((int), x))),
               ((int), m16, (((int), x))),
               ((int), m17, (((int), x))),
               ((int), m18, (((int), x))),
               ((int), m19, (((int), x))),
               ((std::string), a0, ()),
               ((std::string), a1, (((int), x0))),
               ((std::string), a2, (((int), x0), ((const std::string&), x1))),
               ((std::string), a3, (((int), x0), ((const std::string&), x1), ((uint8_t), x2))),
               ((std::string), a4, (((int), x0), ((const std::string&), x1), ((uint8_t), x2), ((std::unique_ptr<int>), x3))),
               ((std::string), a5, (((int), x0), ((const std::string&), x1), ((uint8_t), x2), ((std::unique_ptr<int>), x3), ((int), x4))),
               ((std::string), a6, (((int), x0), ((const std::string&), x1), ((uint8_t), x2), ((std::unique_ptr<int>), x3), ((int), x4), ((const std::string&), x5))),
               ((std::string), a7, (((int), x0), ((const std::string&), x1), ((uint8_t), x2), ((std::unique_ptr<int>), x3), ((int), x4), ((const std::string&), x5), ((uint8_t), x6))),
               ((std::string), a8, (((int), x0), ((const std::string&), x1), ((uint8_t), x2), ((std::unique_ptr<int>), x3), ((int), x4), ((const std::string&), x5), ((uint8_t), x6), ((std::unique_ptr<int>), x7))),
               ((std::string), a9, (((int), x0), ((const std::string&), x1), ((uint8_t), x2), ((std::unique_ptr<int>), x3), ((int), x4), ((const std::string&), x5), ((uint8_t), x6), ((std::unique_ptr<int>), x7), ((int), x8))),
               ((std::string), a10, (((int), x0), ((const std::string&), x1), ((uint8_t), x2), ((std::unique_ptr<int>), x3), ((int), x4), ((const std::string&), x5), ((uint8_t), x6), ((std::unique_ptr<int>), x7), ((int), x8), ((const std::string&), x9))),
               ((std::string), a11, (((int), x0), ((const std::string&), x1), ((uint8_t), x2), ((std::unique_ptr<int>), x3), ((int), x4), ((const std::string&), x5), ((uint8_t), x6), ((std::unique_ptr<int>), x7), ((int), x8), ((const std::string&), x9), ((uint8_t), x10))),
               ((std::string), a12, (((int), x0), ((const std::string&), x1), ((uint8_t), x2), ((std::unique_ptr<int>), x3), ((int), x4), ((const std::string&), x5), ((uint8_t), x6), ((std::unique_ptr<int>), x7), ((int), x8), ((const std::string&), x9), ((uint8_t), x10), ((std::unique_ptr<int>), x11)))));
namespace {
struct WideImpl : Wide {
  int m0(int x) override { return 2 * x + 0; }
  int m1(int x) override { return 3 * x + 1000; }
  int m2(int x) override { return 4 * x + 2000; }
  int m3(int x) override { return 5 * x + 3000; }
  int m4(int x) override { return 6 * x + 4000; }
  int m5(int x) override { return 7 * x + 5000; }
  int m6(int x) override { return 8 * x + 6000; }
  int m7(int x) override { return 9 * x + 7000; }
  int m8(int x) override { return 10 * x + 8000; }
  int m9(int x) override { return 11 * x + 9000; }
  int m10(int x) override { return 12 * x + 10000; }
  int m11(int x) override { return 13 * x + 11000; }
  int m12(int x) override { return 14 * x + 12000; }
  int m13(int x) override { return 15 * x + 13000; }
  int m14(int x) override { return 16 * x + 14000; }
  int m15(int x) override { return 17 * x + 15000; }
  int m16(int x) override { return 18 * x + 16000; }
  int m17(int x) override { return 19 * x + 17000; }
  int m18(int x) override { return 20 * x + 18000; }
  int m19(int x) override { return 21 * x + 19000; }
  std::string a0() override { std::string r = "0"; return r; }
  std::string a1(int x0) override { std::string r = "1"; r += "," + std::to_string(x0); return r; }
  std::string a2(int x0, const std::string& x1) override { std::string r = "2"; r += "," + std::to_string(x0); r += "," + x1; return r; }
  std::string a3(int x0, const std::string& x1, uint8_t x2) override { std::string r = "3"; r += "," + std::to_string(x0); r += "," + x1; r += "," + std::to_string(int(x2)); return r; }
  std::string a4(int x0, const std::string& x1, uint8_t x2, std::unique_ptr<int> x3) override { std::string r = "4"; r += "," + std::to_string(x0); r += "," + x1; r += "," + std::to_string(int(x2)); r += "," + (x3 ? std::to_string(*x3) : "null"); return r; }
  std::string a5(int x0, const std::string& x1, uint8_t x2, std::unique_ptr<int> x3, int x4) override { std::string r = "5"; r += "," + std::to_string(x0); r += "," + x1; r += "," + std::to_string(int(x2)); r += "," + (x3 ? std::to_string(*x3) : "null"); r += "," + std::to_string(x4); return r; }
  std::string a6(int x0, const std::string& x1, uint8_t x2, std::unique_ptr<int> x3, int x4, const std::string& x5) override { std::string r = "6"; r += "," + std::to_string(x0); r += "," + x1; r += "," + std::to_string(int(x2)); r += "," + (x3 ? std::to_string(*x3) : "null"); r += "," + std::to_string(x4); r += "," + x5; return r; }
  std::string a7(int x0, const std::string& x1, uint8_t x2, std::unique_ptr<int> x3, int x4, const std::string& x5, uint8_t x6) override { std::string r = "7"; r += "," + std::to_string(x0); r += "," + x1; r += "," + std::to_string(int(x2)); r += "," + (x3 ? std::to_string(*x3) : "null"); r += "," + std::to_string(x4); r += "," + x5; r += "," + std::to_string(int(x6)); return r; }
  std::string a8(int x0, const std::string& x1, uint8_t x2, std::unique_ptr<int> x3, int x4, const std::string& x5, uint8_t x6, std::unique_ptr<int> x7) override { std::string r = "8"; r += "," + std::to_string(x0); r += "," + x1; r += "," + std::to_string(int(x2)); r += "," + (x3 ? std::to_string(*x3) : "null"); r += "," + std::to_string(x4); r += "," + x5; r += "," + std::to_string(int(x6)); r += "," + (x7 ? std::to_string(*x7) : "null"); return r; }
  std::string a9(int x0, const std::string& x1, uint8_t x2, std::unique_ptr<int> x3, int x4, const std::string& x5, uint8_t x6, std::unique_ptr<int> x7, int x8) override { std::string r = "9"; r += "," + std::to_string(x0); r += "," + x1; r += "," + std::to_string(int(x2)); r += "," + (x3 ? std::to_string(*x3) : "null"); r += "," + std::to_string(x4); r += "," + x5; r += "," + std::to_string(int(x6)); r += "," + (x7 ? std::to_string(*x7) : "null"); r += "," + std::to_string(x8); return r; }
  std::string a10(int x0, const std::string& x1, uint8_t x2, std::unique_ptr<int> x3, int x4, const std::string& x5, uint8_t x6, std::unique_ptr<int> x7, int x8, const std::string& x9) override { std::string r = "10"; r += "," + std::to_string(x0); r += "," + x1; r += "," + std::to_string(int(x2)); r += "," + (x3 ? std::to_string(*x3) : "null"); r += "," + std::to_string(x4); r += "," + x5; r += "," + std::to_string(int(x6)); r += "," + (x7 ? std::to_string(*x7) : "null"); r += "," + std::to_string(x8); r += "," + x9; return r; }
  std::string a11(int x0, const std::string& x1, uint8_t x2, std::unique_ptr<int> x3, int x4, const std::string& x5, uint8_t x6, std::unique_ptr<int> x7, int x8, const std::string& x9, uint8_t x10) override { std::string r = "11"; r += "," + std::to_string(x0); r += "," + x1; r += "," + std::to_string(int(x2)); r += "," + (x3 ? std::to_string(*x3) : "null"); r += "," + std::to_string(x4); r += "," + x5; r += "," + std::to_string(int(x6)); r += "," + (x7 ? std::to_string(*x7) : "null"); r += "," + std::to_string(x8); r += "," + x9; r += "," + std::to_string(int(x10)); return r; }
  std::string a12(int x0, const std::string& x1, uint8_t x2, std::unique_ptr<int> x3, int x4, const std::string& x5, uint8_t x6, std::unique_ptr<int> x7, int x8, const std::string& x9, uint8_t x10, std::unique_ptr<int> x11) override { std::string r = "12"; r += "," + std::to_string(x0); r += "," + x1; r += "," + std::to_string(int(x2)); r += "," + (x3 ? std::to_string(*x3) : "null"); r += "," + std::to_string(x4); r += "," + x5; r += "," + std::to_string(int(x6)); r += "," + (x7 ? std::to_string(*x7) : "null"); r += "," + std::to_string(x8); r += "," + x9; r += "," + std::to_string(int(x10)); r += "," + (x11 ? std::to_string(*x11) : "null"); return r; }
};
constexpr int kWide = 33;
template <typename P> void call_wide(P& p, int method, int k) {
  switch (method) {
      case 0: MC_CHECK(p.m0(k + 3) == 2 * (k + 3) + 0, "wrong-result", "m0"); break;
      case 1: MC_CHECK(p.m1(k + 3) == 3 * (k + 3) + 1000, "wrong-result", "m1"); break;
      case 2: MC_CHECK(p.m2(k + 3) == 4 * (k + 3) + 2000, "wrong-result", "m2"); break;
      case 3: MC_CHECK(p.m3(k + 3) == 5 * (k + 3) + 3000, "wrong-result", "m3"); break;
      case 4: MC_CHECK(p.m4(k + 3) == 6 * (k + 3) + 4000, "wrong-result", "m4"); break;
      case 5: MC_CHECK(p.m5(k + 3) == 7 * (k + 3) + 5000, "wrong-result", "m5"); break;
      case 6: MC_CHECK(p.m6(k + 3) == 8 * (k + 3) + 6000, "wrong-result", "m6"); break;
      case 7: MC_CHECK(p.m7(k + 3) == 9 * (k + 3) + 7000, "wrong-result", "m7"); break;
      case 8: MC_CHECK(p.m8(k + 3) == 10 * (k + 3) + 8000, "wrong-result", "m8"); break;
      case 9: MC_CHECK(p.m9(k + 3) == 11 * (k + 3) + 9000, "wrong-result", "m9"); break;
      case 10: MC_CHECK(p.m10(k + 3) == 12 * (k + 3) + 10000, "wrong-result", "m10"); break;
      case 11: MC_CHECK(p.m11(k + 3) == 13 * (k + 3) + 11000, "wrong-result", "m11"); break;
      case 12: MC_CHECK(p.m12(k + 3) == 14 * (k + 3) + 12000, "wrong-result", "m12"); break;
      case 13: MC_CHECK(p.m13(k + 3) == 15 * (k + 3) + 13000, "wrong-result", "m13"); break;
      case 14: MC_CHECK(p.m14(k + 3) == 16 * (k + 3) + 14000, "wrong-result", "m14"); break;
      case 15: MC_CHECK(p.m15(k + 3) == 17 * (k + 3) + 15000, "wrong-result", "m15"); break;
      case 16: MC_CHECK(p.m16(k + 3) == 18 * (k + 3) + 16000, "wrong-result", "m16"); break;
      case 17: MC_CHECK(p.m17(k + 3) == 19 * (k + 3) + 17000, "wrong-result", "m17"); break;
      case 18: MC_CHECK(p.m18(k + 3) == 20 * (k + 3) + 18000, "wrong-result", "m18"); break;
      case 19: MC_CHECK(p.m19(k + 3) == 21 * (k + 3) + 19000, "wrong-result", "m19"); break;
      case 20: { std::string want = std::string("0"); MC_CHECK(p.a0() == want, "wrong-result", "a0"); break; }
      case 21: { std::string want = std::string("1") + "," + std::to_string(k + 0); MC_CHECK(p.a1(k + 0) == want, "wrong-result", "a1"); break; }
      case 22: { std::string want = std::string("2") + "," + std::to_string(k + 0) + ",s1" + char('a' + k); MC_CHECK(p.a2(k + 0, std::string("s1") + char('a' + k)) == want, "wrong-result", "a2"); break; }
      case 23: { std::string want = std::string("3") + "," + std::to_string(k + 0) + ",s1" + char('a' + k) + ",202"; MC_CHECK(p.a3(k + 0, std::string("s1") + char('a' + k), uint8_t(200 + 2)) == want, "wrong-result", "a3"); break; }
      case 24: { std::string want = std::string("4") + "," + std::to_string(k + 0) + ",s1" + char('a' + k) + ",202" + ",3"; MC_CHECK(p.a4(k + 0, std::string("s1") + char('a' + k), uint8_t(200 + 2), std::make_unique<int>(3)) == want, "wrong-result", "a4"); break; }
      case 25: { std::string want = std::string("5") + "," + std::to_string(k + 0) + ",s1" + char('a' + k) + ",202" + ",3" + "," + std::to_string(k + 4); MC_CHECK(p.a5(k + 0, std::string("s1") + char('a' + k), uint8_t(200 + 2), std::make_unique<int>(3), k + 4) == want, "wrong-result", "a5"); break; }
      case 26: { std::string want = std::string("6") + "," + std::to_string(k + 0) + ",s1" + char('a' + k) + ",202" + ",3" + "," + std::to_string(k + 4) + ",s5" + char('a' + k); MC_CHECK(p.a6(k + 0, std::string("s1") + char('a' + k), uint8_t(200 + 2), std::make_unique<int>(3), k + 4, std::string("s5") + char('a' + k)) == want, "wrong-result", "a6"); break; }
      case 27: { std::string want = std::string("7") + "," + std::to_string(k + 0) + ",s1" + char('a' + k) + ",202" + ",3" + "," + std::to_string(k + 4) + ",s5" + char('a' + k) + ",206"; MC_CHECK(p.a7(k + 0, std::string("s1") + char('a' + k), uint8_t(200 + 2), std::make_unique<int>(3), k + 4, std::string("s5") + char('a' + k), uint8_t(200 + 6)) == want, "wrong-result", "a7"); break; }
      case 28: { std::string want = std::string("8") + "," + std::to_string(k + 0) + ",s1" + char('a' + k) + ",202" + ",3" + "," + std::to_string(k + 4) + ",s5" + char('a' + k) + ",206" + ",null"; MC_CHECK(p.a8(k + 0, std::string("s1") + char('a' + k), uint8_t(200 + 2), std::make_unique<int>(3), k + 4, std::string("s5") + char('a' + k), uint8_t(200 + 6), std::unique_ptr<int>()) == want, "wrong-result", "a8"); break; }
      case 29: { std::string want = std::string("9") + "," + std::to_string(k + 0) + ",s1" + char('a' + k) + ",202" + ",3" + "," + std::to_string(k + 4) + ",s5" + char('a' + k) + ",206" + ",null" + "," + std::to_string(k + 8); MC_CHECK(p.a9(k + 0, std::string("s1") + char('a' + k), uint8_t(200 + 2), std::make_unique<int>(3), k + 4, std::string("s5") + char('a' + k), uint8_t(200 + 6), std::unique_ptr<int>(), k + 8) == want, "wrong-result", "a9"); break; }
      case 30: { std::string want = std::string("10") + "," + std::to_string(k + 0) + ",s1" + char('a' + k) + ",202" + ",3" + "," + std::to_string(k + 4) + ",s5" + char('a' + k) + ",206" + ",null" + "," + std::to_string(k + 8) + ",s9" + char('a' + k); MC_CHECK(p.a10(k + 0, std::string("s1") + char('a' + k), uint8_t(200 + 2), std::make_unique<int>(3), k + 4, std::string("s5") + char('a' + k), uint8_t(200 + 6), std::unique_ptr<int>(), k + 8, std::string("s9") + char('a' + k)) == want, "wrong-result", "a10"); break; }
      case 31: { std::string want = std::string("11") + "," + std::to_string(k + 0) + ",s1" + char('a' + k) + ",202" + ",3" + "," + std::to_string(k + 4) + ",s5" + char('a' + k) + ",206" + ",null" + "," + std::to_string(k + 8) + ",s9" + char('a' + k) + ",210"; MC_CHECK(p.a11(k + 0, std::string("s1") + char('a' + k), uint8_t(200 + 2), std::make_unique<int>(3), k + 4, std::string("s5") + char('a' + k), uint8_t(200 + 6), std::unique_ptr<int>(), k + 8, std::string("s9") + char('a' + k), uint8_t(200 + 10)) == want, "wrong-result", "a11"); break; }
      case 32: { std::string want = std::string("12") + "," + std::to_string(k + 0) + ",s1" + char('a' + k) + ",202" + ",3" + "," + std::to_string(k + 4) + ",s5" + char('a' + k) + ",206" + ",null" + "," + std::to_string(k + 8) + ",s9" + char('a' + k) + ",210" + ",11"; MC_CHECK(p.a12(k + 0, std::string("s1") + char('a' + k), uint8_t(200 + 2), std::make_unique<int>(3), k + 4, std::string("s5") + char('a' + k), uint8_t(200 + 6), std::unique_ptr<int>(), k + 8, std::string("s9") + char('a' + k), uint8_t(200 + 10), std::make_unique<int>(11)) == want, "wrong-result", "a12"); break; }
  }
}
}  // namespace
