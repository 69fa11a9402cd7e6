// S07: structure fingerprints identify the encoded structure.
// For every type of a generated universe an independent description of its
// encoded structure is built; two fingerprints must be equal exactly when the
// descriptions are.
#include <array>
#include <chrono>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "S07.h"
namespace s07 {
const std::vector<Entry>& table() {
  static const std::vector<Entry> t = [] {
    std::vector<Entry> v;
    part1(v); part2(v); part3(v); part4(v); part5(v); part6(v);
    return v;
  }();
  return t;
}
}
using namespace s07;
// The fingerprint by the published formula (the repository's tests pin it), computed from a description.  It is only
// used to tell the collisions this formula is known to have from any other one.
struct Formula {
  const std::string& s; size_t i = 0;
  static uint32_t fold(const std::vector<uint32_t>& v) { uint32_t h = 0; for (uint32_t x : v) h = (h * 16777619u) ^ x; return h; }
  static uint32_t leaf(uint32_t fam, uint32_t sgn, uint32_t size) { return fam | (sgn << 7) | (size << 8); }
  bool eat(const char* t) { size_t n = strlen(t); if (s.compare(i, n, t) == 0) { i += n; return true; } return false; }
  uint64_t num() { uint64_t n = 0; while (i < s.size() && isdigit(s[i])) n = n * 10 + (s[i++] - '0'); return n; }
  uint32_t one(uint32_t lf) { eat("("); uint32_t x = parse(); eat(")"); return fold({lf, x}); }
  uint32_t many(std::vector<uint32_t> v) { while (!eat(")")) { v.push_back(parse()); eat(","); } return fold(v); }
  uint32_t listed(size_t n) { std::vector<uint32_t> v; while (n--) { v.push_back(parse()); eat(","); } return fold(v); }
  static uint32_t period(uint32_t fam, uint64_t num, uint64_t den) { return leaf(fam, den > num, uint32_t(den > num ? den - num : num - den)); }
  uint32_t parse() {
    if (eat("void")) return 0;
    if (eat("bool")) return leaf(1, 0, 1);
    if (eat("char")) return leaf(2, 0, 1);
    if (eat("enum-")) { bool sg = s[i++] == 'i'; return leaf(5, sg, num()); }
    if (eat("arr")) { uint32_t n = num(); return one(leaf(6, 0, n)); }
    if (eat("tuple")) { uint32_t n = num(); eat("("); return many({leaf(7, 0, n)}); }
    if (eat("seq")) return one(leaf(8, 0, 0));
    if (eat("set")) return one(leaf(9, 0, 0));
    if (eat("mset")) return one(leaf(9, 1, 0));
    if (eat("map")) return one(leaf(10, 0, 0));
    if (eat("mmap")) return one(leaf(10, 1, 0));
    if (eat("opt")) return one(leaf(11, 0, 0));
    if (eat("dur")) { uint64_t n = num(); eat("/"); return period(12, n, num()); }
    if (eat("tp")) { uint64_t n = num(); eat("/"); return period(13, n, num()); }
    if (eat("uptr")) return one(leaf(14, 0, 0));
    if (eat("sptr")) return one(leaf(15, 0, 0));
    if (eat("wptr")) return one(leaf(16, 0, 0));
    if (eat("fn(")) return many({leaf(17, 0, 0)});
    if (eat("cfn(")) return many({leaf(17, 1, 0)});
    if (eat("back")) return leaf(22, 0, num());
    if (eat("class(bases ")) {
      uint32_t nb = num(); eat(":"); uint32_t b = listed(nb); eat(" fields ");
      uint32_t nf = num(); eat(":"); uint32_t f = listed(nf); eat(" version"); uint32_t v = num() != 0; eat(")");
      return fold({leaf(18, 0, nb + nf + v), leaf(19, 0, nb), b, leaf(20, 0, nf), f, leaf(21, 0, v)});
    }
    if (eat("i")) return leaf(3, 1, num());
    if (eat("u")) return leaf(3, 0, num());
    if (eat("f")) return leaf(4, 1, num());
    mc::fail("harness", "cannot parse " + s.substr(i));
  }
};
static uint32_t formula(const std::string& desc) { Formula f{desc}; return f.parse(); }
MC_SCENARIO("pairs") {
  const auto& t = table();
  static const std::vector<bool> as_published = [&] { std::vector<bool> v; for (auto& e : t) v.push_back(formula(e.desc) == e.hash); return v; }();
  // One execution compares one type with all others.
  int i = mc::choose(int(t.size()), "type");
  std::string known, what;
  for (size_t j = 0; j < t.size(); j++) {
    bool same_hash = t[i].hash == t[j].hash, same_desc = t[i].desc == t[j].desc;
    mc::transition();
    if (same_hash == same_desc) continue;
    std::string lo = std::min(t[i].name, t[j].name), hi = std::max(t[i].name, t[j].name);
    std::string msg = t[i].name + " = " + t[i].desc + " and " + t[j].name + " = " + t[j].desc + (same_hash ? " have the same fingerprint" : " have different fingerprints");
    if (same_hash && as_published[i] && as_published[j]) {
      known = t[i].unversioned == t[j].unversioned ? "custom-version-ignored" : "nested-constructors-cancel"; what = msg;
      continue;
    }
    mc::fail((same_hash ? "collision/" : "different/") + lo + "/" + hi, msg);
  }
  if (!known.empty()) mc::fail(known, what);
  mc::outcome(t[i].desc); mc::nontrivial();
}
