// Drives a flat container and its std counterpart with the same operations.
#pragma once
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include "mc.h"

namespace flat {
// A comparator with state: ascending, descending, or by pairs (so that distinct keys are equivalent).
struct Cmp {
  int mode = 0;
  Cmp() = default;
  explicit Cmp(int m) : mode(m) {}
  static int rank(int k) { return k; }
  static int rank(const std::string& s) { return s[0]; }
  template <typename K> bool operator()(const K& a, const K& b) const {
    int x = rank(a), y = rank(b);
    return mode == 0 ? x < y : mode == 1 ? x > y : x / 2 < y / 2;
  }
};
template <typename K> K mk(int i);
template <> inline int mk<int>(int i) { return i; }
template <> inline std::string mk<std::string>(int i) { return std::string(1, char('0' + i)) + "-a string that lives on the heap"; }
inline std::string show(int i) { return std::to_string(i); }
inline std::string show(const std::string& s) { return s.substr(0, 1); }
template <typename A, typename B> std::string show(const std::pair<A, B>& p) { return show(p.first) + "=" + show(p.second); }
template <typename C> std::string show_all(const C& c) { std::string r = "{"; for (auto& x : c) r += show(x) + " "; return r + "}"; }

template <typename K, bool IsMap, bool Multi> struct Types;
template <typename K> struct Types<K, true, false> { using F = arpc::flat_map<K, K, Cmp>; using S = std::map<K, K, Cmp>; using V = std::pair<K, K>; };
template <typename K> struct Types<K, true, true> { using F = arpc::flat_multimap<K, K, Cmp>; using S = std::multimap<K, K, Cmp>; using V = std::pair<K, K>; };
template <typename K> struct Types<K, false, false> { using F = arpc::flat_set<K, Cmp>; using S = std::set<K, Cmp>; using V = K; };
template <typename K> struct Types<K, false, true> { using F = arpc::flat_multiset<K, Cmp>; using S = std::multiset<K, Cmp>; using V = K; };

template <typename K, bool IsMap, bool Multi, int NKEYS = 3>
struct Driver {
  using T = Types<K, IsMap, Multi>;
  using F = typename T::F; using S = typename T::S; using V = typename T::V;
  struct Side { F f; S s; Side() {} Side(Cmp c) : f(c), s(c) {} };
  Side a, b;
  int serial = 0;
  std::string log;

  static const K& key_of(const V& v) { if constexpr (IsMap) return v.first; else return v; }
  V val(int k) {
    serial = (serial + 1) % 8;
    if constexpr (IsMap) return V(mk<K>(k), mk<K>(serial)); else return mk<K>(k);
  }
  static bool same(const V& x, const typename S::value_type& y) {
    if constexpr (IsMap) return x.first == y.first && x.second == y.second; else return x == y;
  }
  static typename S::value_type conv(const V& x) { if constexpr (IsMap) return {x.first, x.second}; else return x; }
  void bad(const char* what) { mc::fail(what, log + " flat " + show_all(a.f) + " expected " + show_all(a.s)); }
#define REQ(c, what) do { if (!(c)) bad(what); } while (0)

  static std::vector<V> sorted_groups(const std::vector<V>& v, const Cmp& c) {
    std::vector<V> r = v;
    for (size_t i = 0; i < r.size();) {
      size_t j = i + 1;
      while (j < r.size() && !c(key_of(r[i]), key_of(r[j])) && !c(key_of(r[j]), key_of(r[i]))) j++;
      if (Multi) std::sort(r.begin() + i, r.begin() + j);
      i = j;
    }
    return r;
  }
  void observe(Side& x) {
    F& f = x.f; const F& cf = f; S& s = x.s; const Cmp c = s.key_comp();
    REQ(f.size() == s.size() && f.empty() == s.empty() && size_t(f.end() - f.begin()) == s.size(), "size");
    REQ(f.key_comp().mode == c.mode, "comparator");
    std::vector<V> fv(cf.begin(), cf.end()), sv;
    for (auto& e : s) { if constexpr (IsMap) sv.emplace_back(e.first, e.second); else sv.push_back(e); }
    for (size_t i = 1; i < fv.size(); i++) REQ(!c(key_of(fv[i]), key_of(fv[i - 1])), "order");
    REQ(sorted_groups(fv, c) == sorted_groups(sv, c), "contents");
    std::vector<V> rv(f.rbegin(), f.rend()); std::reverse(rv.begin(), rv.end());
    REQ(rv == fv && std::vector<V>(f.crbegin(), f.crend()).size() == fv.size() && std::vector<V>(f.cbegin(), f.cend()) == fv, "iterators");
    REQ(f.capacity() >= f.size() && f.max_size() >= f.size() && (f.empty() || f.data() == &*f.begin()), "storage");
    if (fv.size() > 1) REQ(f.value_comp()(fv[0], fv[1]) == c(key_of(fv[0]), key_of(fv[1])), "value-comp");
    for (int i = 0; i < NKEYS + 1; i++) {
      K k = mk<K>(i);
      size_t lo = std::distance(s.begin(), s.lower_bound(k)), hi = std::distance(s.begin(), s.upper_bound(k));
      REQ(size_t(f.lower_bound(k) - f.begin()) == lo && size_t(cf.lower_bound(k) - cf.begin()) == lo, "lower-bound");
      REQ(size_t(f.upper_bound(k) - f.begin()) == hi && size_t(cf.upper_bound(k) - cf.begin()) == hi, "upper-bound");
      auto er = f.equal_range(k); auto cer = cf.equal_range(k);
      REQ(size_t(er.first - f.begin()) == lo && size_t(er.second - f.begin()) == hi, "equal-range");
      REQ(size_t(cer.first - cf.begin()) == lo && size_t(cer.second - cf.begin()) == hi, "equal-range");
      REQ(cf.count(k) == s.count(k), "count");
      auto it = f.find(k); auto cit = cf.find(k);
      if (lo == hi) REQ(it == f.end() && cit == cf.end(), "find-missing");
      else REQ(size_t(it - f.begin()) >= lo && size_t(it - f.begin()) < hi && size_t(cit - cf.begin()) >= lo && size_t(cit - cf.begin()) < hi, "find");
      if constexpr (IsMap && !Multi) {
        // Throwing is slow: at most one missing key per observation is looked up.
        if (lo == hi && i != (f.empty() ? 0 : serial % (NKEYS + 1))) continue;
        bool cc = (serial & 1); int t = 0;
        try { if (cc || lo != hi) REQ(&cf.at(k) == &cit->second, "at"); if (!cc || lo != hi) REQ(&f.at(k) == &it->second, "at"); } catch (const std::out_of_range&) { t = 1; }
        REQ(t == (lo == hi), "at-missing");
      }
    }
  }
  template <typename R> void check_inserted(const R& r, const V& v, bool expect, size_t where) {
    if constexpr (!Multi) {
      REQ(r.second == expect, "insert-result");
      REQ(size_t(r.first - a.f.begin()) == where, "insert-position");
    } else {
      REQ(size_t(r - a.f.begin()) < a.f.size() && *r == v, "insert-position");
    }
  }
  void inserted(const V& v, bool& did, size_t& where) {
    if constexpr (!Multi) { auto r = a.s.insert(conv(v)); did = r.second; where = std::distance(a.s.begin(), r.first); }
    else { a.s.insert(conv(v)); did = true; where = 0; }
  }
  void check_hint(typename F::iterator it, const V& v, size_t where) {
    if constexpr (!Multi) { REQ(size_t(it - a.f.begin()) == where, "insert-position"); }
    else { REQ(it < a.f.end() && *it == v, "insert-position"); }
  }
  // Erase the flat element at index i from the reference.
  void erase_ref(size_t i) {
    V v = *(a.f.begin() + i);
    auto r = a.s.equal_range(key_of(v));
    for (auto it = r.first; it != r.second; ++it) if (same(v, *it)) { a.s.erase(it); return; }
    bad("contents");
  }
  // One mutating operation; false if none is left to try at this index.
  static constexpr int kKeyed = (IsMap && !Multi) ? 11 : 8;   // operations per key
  static constexpr int kOther = 23;
  static constexpr int count() { return kKeyed * NKEYS + kOther; }
  void op(int n) {
    bool did; size_t where;
    if (n < kKeyed * NKEYS) {
      int k = n % NKEYS, o = n / NKEYS;
      V v = val(k);
      log += " op" + std::to_string(o) + "(" + std::to_string(k) + ")";
      switch (o) {
        case 0: { const V cv = v; inserted(v, did, where); check_inserted(a.f.insert(cv), v, did, where); REQ(cv == v, "argument-changed"); break; }
        case 1: { V mv = v; inserted(v, did, where); check_inserted(a.f.insert(std::move(mv)), v, did, where); break; }
        case 2: { const V cv = v; inserted(v, did, where); check_hint(a.f.insert(a.f.begin(), cv), v, where); REQ(cv == v, "argument-changed"); break; }
        case 3: { V mv = v; inserted(v, did, where); check_hint(a.f.insert(a.f.cend(), std::move(mv)), v, where); break; }
        case 4: {
          inserted(v, did, where);
          if constexpr (IsMap) check_inserted(a.f.emplace(v.first, v.second), v, did, where); else check_inserted(a.f.emplace(v), v, did, where);
          break; }
        case 5: {
          inserted(v, did, where);
          if constexpr (IsMap) check_hint(a.f.emplace_hint(a.f.begin(), v.first, v.second), v, where); else check_hint(a.f.emplace_hint(a.f.begin(), v), v, where);
          break; }
        case 6: { K k2 = mk<K>(k); size_t n1 = a.s.erase(k2); REQ(a.f.erase(k2) == n1, "erase-count"); break; }
        case 7: {   // erase through an iterator found by key
          auto it = a.f.find(mk<K>(k));
          if (it == a.f.end()) { log += "-"; break; }
          size_t i = it - a.f.begin(); erase_ref(i);
          it = a.f.erase(it); REQ(size_t(it - a.f.begin()) == i, "erase-successor");
          break; }
        case 8: if constexpr (IsMap && !Multi) { const K ck = v.first; a.f[ck] = v.second; a.s[ck] = v.second; REQ(ck == v.first, "argument-changed"); } break;
        case 9: if constexpr (IsMap && !Multi) { K k1 = v.first, k2 = v.first; auto& r = a.f[std::move(k1)]; auto& w = a.s[std::move(k2)]; REQ(r == w, "subscript"); r = v.second; w = v.second; } break;
        case 10: if constexpr (IsMap && !Multi) { const K ck = v.first; auto& r = a.f[ck]; auto& w = a.s[ck]; REQ(r == w, "subscript"); } break;
      }
      return;
    }
    n -= kKeyed * NKEYS;
    log += " other" + std::to_string(n);
    std::vector<V> vs;
    auto fill = [&](std::initializer_list<int> l) { for (int k : l) vs.push_back(val(k % NKEYS)); };
    auto ref_all = [&](S& s) { for (auto& v : vs) s.insert(conv(v)); };
    switch (n) {
      case 0: a.f.clear(); a.s.clear(); break;
      case 1: { F x(a.f); S y(a.s); b.f.swap(x); b.s.swap(y); break; }                  // copy construction
      case 2: b.f = a.f; b.s = a.s; break;
      case 3: { F x(std::move(a.f)); S y(std::move(a.s)); a.f.clear(); a.s.clear(); b.f = std::move(x); b.s = std::move(y); break; }
      case 4: a.f.swap(b.f); a.s.swap(b.s); break;
      case 5: { using std::swap; swap(a.f, b.f); swap(a.s, b.s); break; }
      case 6: { F& same = a.f; a.f = same; break; }
      case 7: fill({2, 0, 2, 1}); { F x(vs.begin(), vs.end(), a.f.key_comp()); S y(a.s.key_comp()); ref_all(y); a.f = std::move(x); a.s = std::move(y); } break;
      case 8: { V p = val(1), q = val(0), r = val(1); vs = {p, q, r}; a.f = {p, q, r}; a.s.clear(); ref_all(a.s); break; }
      case 9: fill({1, 2, 0, 0}); a.f.insert(vs.begin(), vs.end()); ref_all(a.s); break;
      case 10: { V p = val(2), q = val(1); vs = {p, q}; a.f.insert({p, q}); ref_all(a.s); break; }
      case 11: if (!a.f.empty()) { size_t i = a.f.size() - 1; erase_ref(i); auto it = a.f.erase(a.f.begin() + i); REQ(it == a.f.end(), "erase-successor"); } break;
      case 12: if (a.f.size() > 1) { erase_ref(0); auto it = a.f.erase(a.f.cbegin()); REQ(it == a.f.begin(), "erase-successor"); } break;
      case 13: { if (a.f.size() < 2) break; size_t n1 = a.f.size() - 1; std::vector<V> dead(a.f.begin(), a.f.begin() + n1);
                 for (auto& v : dead) { auto r = a.s.equal_range(key_of(v)); for (auto it = r.first; it != r.second; ++it) if (same(v, *it)) { a.s.erase(it); break; } }
                 auto it2 = a.f.erase(a.f.begin(), a.f.begin() + n1); REQ(it2 == a.f.begin(), "erase-successor"); break; }
      case 14: if (!a.f.empty()) { V v = *a.f.begin(); inserted(v, did, where); check_inserted(a.f.insert(*a.f.begin()), v, did, where); } break;   // an element of its own
      case 15: a.f.reserve(a.f.size() + 3); break;
      case 16: { a.f.shrink_to_fit(); break; }
      case 17: { F x(a.f, a.f.get_allocator()); S y(a.s); b.f = F(std::move(x), a.f.get_allocator()); b.s = y; break; }
      case 18: { V p = val(2), q = val(0), r = val(2); vs = {p, q, r}; F x({p, q, r}, a.f.key_comp()); S y(a.s.key_comp()); ref_all(y); a.f.swap(x); a.s.swap(y); break; }
      case 19: if constexpr (IsMap) { int i = 0; for (auto& e : a.f) { e.second = mk<K>(i); i++; } i = 0; if constexpr (!Multi) for (auto& e : a.s) { e.second = mk<K>(i); i++; }
                 else { a.s.clear(); for (auto& e : a.f) a.s.insert(conv(e)); } }
               else { a.f = F(a.f.begin(), a.f.end(), a.f.key_comp()); } break;
      // Arguments that are part of an element.
      case 20: case 21: if (!a.f.empty()) {
        const V& v = n == 20 ? *a.f.begin() : *(a.f.end() - 1); K k = key_of(v);
        size_t n1 = a.s.erase(k); REQ(a.f.erase(key_of(v)) == n1, "erase-count");
      } break;
      case 22: if (!a.f.empty()) {
        V v = *(a.f.end() - 1); const V& own = *(a.f.end() - 1);
        if (!Multi) inserted(v, did, where); else a.s.insert(conv(v));
        if constexpr (IsMap) { V w = *a.f.begin(); if (Multi) { const V& o = *a.f.begin(); check_hint(a.f.emplace_hint(a.f.begin(), o.first, o.second), w, 0); a.s.insert(conv(w)); } }
        check_inserted(a.f.emplace(*(a.f.end() - 1)), v, did, where); (void)own;
        if constexpr (IsMap && !Multi) { auto& r = a.f[a.f.begin()->first]; REQ(&r == &a.f.begin()->second, "subscript"); }
      } break;
    }
  }
  void run(int depth, int m1, int m2) {
    a.f = F(Cmp(m1)); a.s = S(Cmp(m1)); b.f = F(Cmp(m2)); b.s = S(Cmp(m2));
    V v = val(1); b.f.insert(v); b.s.insert(conv(v));
    // Every length up to the depth, so each history is observed when it is the whole one.
    int n = 1 + mc::choose(depth, "length");
    for (int i = 0; i < n; i++) op(mc::choose(count(), "op"));
    observe(a); observe(b);
    mc::trace("%s -> %s", log.c_str(), show_all(a.f).c_str());
    mc::state(mc::hash_str(show_all(a.f) + "|" + show_all(b.f) + char('0' + a.f.key_comp().mode) + char('0' + b.f.key_comp().mode)));
    mc::outcome(log); mc::nontrivial();
  }
};
}  // namespace flat

namespace flat {
// Where elements live is the choice of whoever creates the container: an allocator with an identity that keeps the books.
struct Book { long live = 0, taken = 0; };
template <typename T> struct Alloc {
  using value_type = T;
  Book* b;
  explicit Alloc(Book* b) : b(b) {}
  template <typename U> Alloc(const Alloc<U>& o) : b(o.b) {}
  T* allocate(size_t n) { b->live += long(n); b->taken++; return std::allocator<T>().allocate(n); }
  void deallocate(T* p, size_t n) { b->live -= long(n); std::allocator<T>().deallocate(p, n); }
  template <typename U> bool operator==(const Alloc<U>& o) const { return b == o.b; }
  template <typename U> bool operator!=(const Alloc<U>& o) const { return b != o.b; }
};
// Values that can only be moved: histories of two containers of them, with allocators of their own.
template <bool Multi> void owners() {
  using P = std::unique_ptr<int>; using V = std::pair<int, P>; using A = Alloc<V>;
  using F = std::conditional_t<Multi, arpc::flat_multimap<int, P, Cmp, A>, arpc::flat_map<int, P, Cmp, A>>;
  using S = std::conditional_t<Multi, std::multimap<int, int, Cmp>, std::map<int, int, Cmp>>;
  Book b1, b2; std::string log;
  {
    int m = mc::choose(3, "comparator"); bool same = mc::choose(2, "one allocator");
    F f{Cmp(m), A(&b1)}, g{Cmp(m), A(same ? &b1 : &b2)}; S s{Cmp(m)}, t{Cmp(m)};
    auto differ = [](const F& f, const S& s) -> std::string {
      std::vector<std::pair<int, int>> x, y; for (auto& e : f) x.push_back({e.first, e.second ? *e.second : -1}); for (auto& e : s) y.push_back(e);
      if (Multi) {   // (the order among equal keys is the container's own affair)
        for (size_t i = 1; i < x.size(); i++) if (s.key_comp()(x[i].first, x[i - 1].first)) return "out of order";
        std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
      }
      if (x == y) return "";
      std::string r; for (auto& e : x) r += show(e) + " "; r += "instead of "; for (auto& e : y) r += show(e) + " "; return r;
    };
    int next = 10, depth = mc::tier_pick(4, 5);
    for (int i = 0; i < depth; i++) {
      int op = mc::choose(Multi ? 9 : 11, "op"), k = op < 4 || op > 8 ? mc::choose(3, "key") : 0, v = next++;
      log += " " + std::to_string(op) + "(" + std::to_string(k) + ")";
      switch (op) {
        case 0: { auto r = f.emplace(k, std::make_unique<int>(v)); auto q = s.insert({k, v});
          if constexpr (Multi) { MC_CHECK(*r->second == v, "emplaced-elsewhere", log); (void)q; } else MC_CHECK(r.second == q.second && *r.first->second == q.first->second, "emplaced", log);
          break; }
        case 1: { V x(k, std::make_unique<int>(v)); f.insert(std::move(x)); s.insert({k, v}); break; }
        case 2: { auto r = f.erase(k), q = s.erase(k); MC_CHECK(r == q, "erased", log); break; }
        case 3: { auto r = f.emplace_hint(f.begin(), k, std::make_unique<int>(v)); s.insert({k, v}); MC_CHECK(!s.key_comp()(r->first, k) && !s.key_comp()(k, r->first), "hinted", log); break; }
        case 4: if (!f.empty()) { f.erase(f.begin()); if (Multi) { S n(s.key_comp()); for (auto& e : f) n.insert({e.first, *e.second}); MC_CHECK(n.size() + 1 == s.size(), "erased-first", log); s = n; } else s.erase(s.begin()); } break;
        case 5: f.clear(); s.clear(); break;
        case 6: { F x(std::move(f), A(same ? &b1 : &b2)); MC_CHECK(x.get_allocator() == A(same ? &b1 : &b2), "given-allocator", log); MC_CHECK(differ(x, s) == "", "moved-to-allocator", log + ": " + differ(x, s)); g = std::move(x); t = s; f.clear(); s.clear(); break; }
        case 7: g = std::move(f); t = s; f.clear(); s.clear(); break;
        case 8: if (same) { f.swap(g); s.swap(t); } else { F x(std::move(g)); t.clear(); g.clear(); MC_CHECK(x.get_allocator() == A(&b2), "kept-allocator", log); } break;
        case 9: if constexpr (!Multi) { f[k] = std::make_unique<int>(v); s[k] = v; } break;
        case 10: if constexpr (!Multi) { bool there = s.count(k); bool threw = false; try { *f.at(k) = v; s.at(k) = v; } catch (const std::out_of_range&) { threw = true; } MC_CHECK(threw == !there, "at", log); } break;
      }
      MC_CHECK(differ(f, s) == "", "owners", log + ": " + differ(f, s)); MC_CHECK(differ(g, t) == "", "owners-other", log + ": " + differ(g, t));
    }
    MC_CHECK(f.get_allocator() == A(&b1) && g.get_allocator() == A(same ? &b1 : &b2), "allocators", log);
    MC_CHECK(f.empty() || b1.live > 0, "not-from-its-allocator", log); MC_CHECK(g.empty() || (same ? b1 : b2).live > 0, "not-from-its-allocator", log);
  }
  MC_CHECK(!b1.live && !b2.live, "allocator-leak", log);
  mc::outcome(log); mc::nontrivial();
}
}  // namespace flat
