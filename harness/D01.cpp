// D01: sorted flat map and set behave like ordered unique containers.
#include "flat.h"
using namespace flat;
MC_SCENARIO("map") { int m = mc::choose(3, "comparator"); Driver<int, true, false>().run(mc::tier_pick(3, 4), m, (m + 1) % 3); }
MC_SCENARIO("set") { int m = mc::choose(3, "comparator"); Driver<int, false, false>().run(mc::tier_pick(3, 4), m, (m + 2) % 3); }
MC_SCENARIO("map-of-strings") { int m = mc::choose(3, "comparator"); Driver<std::string, true, false>().run(mc::tier_pick(3, 4), m, (m + 1) % 3); }
MC_SCENARIO("set-of-strings") { int m = mc::choose(3, "comparator"); Driver<std::string, false, false>().run(mc::tier_pick(3, 4), m, (m + 2) % 3); }
// Every set of up to 5-6 keys built in every order of insertion, then one operation.
template <typename D> static void orders(int nk) {
  int m = mc::choose(3, "comparator"), n = mc::choose(mc::tier_pick(5, 7), "keys");
  D d; d.a.f = typename D::F(Cmp(m)); d.a.s = typename D::S(Cmp(m));
  for (int i = 0; i < n; i++) { int k = mc::choose(nk, "key"); d.op(k); }
  d.observe(d.a);
  d.op(mc::choose(D::count(), "op"));
  d.observe(d.a); d.observe(d.b);
  mc::outcome(d.log); mc::state(mc::hash_str(show_all(d.a.f))); mc::nontrivial();
}
MC_SCENARIO("map-orders") { orders<Driver<int, true, false, 5>>(5); }
MC_SCENARIO("set-orders") { orders<Driver<std::string, false, false, 5>>(5); }
// Larger containers: every position of n keys.
MC_SCENARIO("large") {
  int n = mc::amount(40, mc::tier_pick(1025, 4097), "size"), k = n <= 40 ? mc::choose(n * 2 + 2, "key") - 1 : std::vector<int>{-1, 0, 1, 2, n - 1, n, n + 1, 2 * n - 3, 2 * n - 2, 2 * n - 1}[mc::choose(10, "key")], m = mc::choose(3, "comparator");
  arpc::flat_map<int, int, Cmp> f{Cmp(m)}; std::map<int, int, Cmp> s{Cmp(m)};
  for (int i = 0; i < n; i++) { int key = (i * 7) % n * 2; f.insert({key, i}); s.insert({key, i}); }
  auto same = [&] { return f.size() == s.size() && std::equal(s.begin(), s.end(), f.begin(), [](auto& x, auto& y) { return x.first == y.first && x.second == y.second; }); };
  MC_CHECK(same(), "large", "");
  MC_CHECK(size_t(f.lower_bound(k) - f.begin()) == size_t(std::distance(s.begin(), s.lower_bound(k))) && size_t(f.upper_bound(k) - f.begin()) == size_t(std::distance(s.begin(), s.upper_bound(k))), "large-bounds", "");
  MC_CHECK((f.find(k) != f.end()) == (s.find(k) != s.end()) && f.count(k) == s.count(k), "large-find", "");
  auto r = f.emplace(k, 1000); auto q = s.emplace(k, 1000);
  MC_CHECK(r.second == q.second && same() && size_t(r.first - f.begin()) == size_t(std::distance(s.begin(), q.first)), "large-insert", "");
  MC_CHECK(f.erase(k) == s.erase(k) && same(), "large-erase", "");
  mc::outcome(n * 10000 + k * 10 + m); mc::nontrivial();
}

// Sequences too long for sorting them to be simple insertion, with many equal keys, taken in by every way there is.
template <typename D> static void bulk() {
  using V = typename D::V;
  int m = mc::choose(3, "comparator"), mod = 1 + mc::choose(8, "keys"), mul = 1 + mc::choose(7, "stride"), off = mc::choose(4, "first"), way = mc::choose(6, "way");
  D d; d.a.f = typename D::F(Cmp(m)); d.a.s = typename D::S(Cmp(m));
  std::vector<V> v;
  for (int i = 0; i < 20; i++) v.push_back(d.val((i * mul + i * i / 5 + off) % mod));
#define V20 {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19]}
  if (way >= 3) { d.op(0); d.op(2); }
  bool anew = way < 4;
  switch (way) {
    case 0: { typename D::F x(v.begin(), v.end(), Cmp(m)); d.a.f = std::move(x); break; }
    case 1: { typename D::F x(V20, Cmp(m)); d.a.f = std::move(x); break; }
    case 2: case 3: d.a.f = V20; break;
    case 4: d.a.f.insert(v.begin(), v.end()); break;
    case 5: d.a.f.insert(V20); break;
  }
  if (anew) d.a.s.clear();
  for (auto& x : v) d.a.s.insert(D::conv(x));
  d.log += " bulk" + std::to_string(way) + "/" + std::to_string(mod) + "*" + std::to_string(mul);
  d.observe(d.a);
  mc::outcome(show_all(d.a.f)); mc::nontrivial();
}
MC_SCENARIO("map-bulk") { bulk<Driver<int, true, false, 8>>(); }
MC_SCENARIO("set-bulk") { bulk<Driver<std::string, false, false, 8>>(); }
MC_SCENARIO("owners") { owners<false>(); }
