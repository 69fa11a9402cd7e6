// T03: a queue delivers each item exactly once, in order, within capacity.
#include "arpc/queue.h"
#include "arpc/semaphore.h"
#include "ah.h"
#include "lin.h"
#include <deque>
using namespace ah;

namespace {
using Item = std::unique_ptr<int>;
struct Model {
  std::deque<int> d;
  size_t cap;
  bool operator<(const Model& o) const { return d < o.d; }
};
bool step(Model& m, const lin::Op& o) {
  if (o.name == "put") { if (m.d.size() >= m.cap) return false; m.d.push_back(o.arg); return true; }
  if (o.name == "get") {
    if (m.d.empty()) return false;
    if (!o.pending && m.d.front() != o.res) return false;
    m.d.pop_front();
    return true;
  }
  if (o.name == "put-full") return m.d.size() == m.cap;
  if (o.name == "get-empty") return m.d.empty();
  if (o.name == "size") return size_t(o.res) == m.d.size();
  if (o.name == "empty") return bool(o.res) == m.d.empty();
  if (o.name == "full") return bool(o.res) == (m.d.size() == m.cap);
  mc::fail("harness", o.name);
}
enum Op { kPut, kGet, kMaybePut, kMaybeGet, kSelPut, kSelGet, kCanGet, kCanPut, kSize, kEmpty, kFull, kOps };
// The operations on a queue of items and on a semaphore (items are then all 1).
template <bool Sem>
struct Q {
  using queue = std::conditional_t<Sem, arpc::semaphore, arpc::queue<Item>>;
  queue q;
  lin::History h;
  size_t cap;
  explicit Q(size_t cap) : q(cap), cap(cap) {}
  int value(Item& i) { if (!i) mc::fail("empty-item", "an item came out empty"); return *i; }
  // One operation; says how it ended.
  std::string run(int op, int item) {
    Item it = std::make_unique<int>(item);
    size_t k;
    std::string r;
    bool to = false;
    switch (op) {
      case kPut: case kMaybePut: case kSelPut: {
        k = h.begin("put", Sem ? 1 : item);
        bool done = false;
        r = how([&] {
          if (op == kPut) { if constexpr (Sem) q.put(); else q.put(std::move(it)); done = true; }
          else if (op == kMaybePut) { if constexpr (Sem) q.maybe_put(); else q.maybe_put(std::move(it)); done = true; }
          else {
            auto a = [&] { if constexpr (Sem) return q.async_put(); else return q.async_put(std::move(it)); }();
            auto [x, t] = arpc::select(a, arpc::timeout(ms(1)));
            MC_CHECK(x || t, "nothing-reported", "");
            if (x) { *x; done = true; }
            to = bool(t);
          }
        });
        if (done) h.end(k);
        else if (op == kMaybePut && r == "again") {
          sched::Ignore ig;
          h.ops[k].name = "put-full"; h.end(k);
          if (!Sem) MC_CHECK(it && *it == item, "item-lost", "a put that reported a full queue took the item");
        } else h.drop(k);
        break;
      }
      case kGet: case kMaybeGet: case kSelGet: {
        k = h.begin("get");
        int v = 0;
        r = how([&] {
          if (op == kGet) { if constexpr (Sem) { q.get(); v = 1; } else { it = q.get(); v = value(it); } }
          else if (op == kMaybeGet) { if constexpr (Sem) { q.maybe_get(); v = 1; } else { it = q.maybe_get(); v = value(it); } }
          else {
            auto [x, t] = arpc::select(q.async_get(), arpc::timeout(ms(1)));
            MC_CHECK(x || t, "nothing-reported", "");
            if (x) { if constexpr (Sem) { *x; v = 1; } else { it = std::move(*x); v = value(it); } }
            to = bool(t);
          }
        });
        if (v) h.end(k, v);
        else if (op == kMaybeGet && r == "again") { sched::Ignore ig; h.ops[k].name = "get-empty"; h.end(k); }
        else h.drop(k);
        break;
      }
      case kCanGet: r = how([&] { arpc::wait(q.can_get()); }); break;
      case kCanPut: r = how([&] { arpc::wait(q.can_put()); }); break;
      case kSize: k = h.begin("size"); h.end(k, long(q.size())); r = "ok"; break;
      case kEmpty: k = h.begin("empty"); h.end(k, q.empty()); r = "ok"; break;
      case kFull: k = h.begin("full"); h.end(k, q.full()); r = "ok"; break;
    }
    MC_CHECK(q.capacity() == cap && q.max_size() == cap, "wrong-capacity", "");
    return r;
  }
  void judge() {
    Model m; m.cap = cap;
    if (!lin::linearizable(h, m, step)) mc::fail("not-linearizable", h.str());
  }
};
}  // namespace

template <bool Sem>
static void concurrent(int threads, int ops, bool fewer, int endings) {
  warm();
  Q<Sem> q(fewer ? 1 : mc::choose(3, "capacity"));
  int fill = q.cap ? mc::choose(int(q.cap) + 1, "filled") : 0;
  int next = 1;
  { sched::NoPreempt np; for (int i = 0; i < fill; i++) q.run(kPut, next++); }
  static const int kMany[] = {kPut, kGet, kMaybePut, kMaybeGet, kSelPut, kSelGet, kEmpty, kFull};
  static const int kFew[] = {kPut, kGet, kMaybeGet, kMaybePut};
  std::vector<std::vector<int>> prog;
  for (int t = 0; t < threads; t++) {
    std::vector<int> p;
    for (int i = 0; i < ops; i++) p.push_back(fewer ? mc::pick(kFew, "op") : mc::pick(kMany, "op"));
    if (!endings && t > 0 && p < prog.back()) mc::prune();
    prog.push_back(p);
  }
  arpc::context group(arpc::context::current(), false);
  std::vector<std::thread> th;
  std::string bad;
  int base = next;
  for (int t = 0; t < threads; t++)
    th.emplace_back([&, t] {
      arpc::context mine(t == 0 ? group : arpc::context::top());
      if (t == 0 && endings == 2) mine.set_timeout(ms(1));
      for (int i = 0; i < ops; i++) {
        std::string r = q.run(prog[t][i], base + t * 10 + i);
        bool fine = r == "ok" || (r == "again" && (prog[t][i] == kMaybePut || prog[t][i] == kMaybeGet)) ||
                    (t == 0 && endings == 1 && r == "cancelled") || (t == 0 && endings == 2 && r == "deadline") || (q.cap == 0 && r == "cancelled");
        MC_CHECK(fine, "wrong-end", r);
      }
    });
  if (endings == 1) group.cancel();
  sched::wait_quiet();
  // Whoever still waits must be right to do so; then let everybody finish.
  for (int k = 0; k < 12 && sched::live() > 1; k++) {
    size_t n = q.q.size();
    sched::sleep_ms(2);   // waits with a limit end by themselves
    sched::wait_quiet();
    if (sched::live() == 1) break;
    n = q.q.size();
    bool getters = false, putters = false;
    for (auto& o : q.h.ops) if (o.pending) (o.name == "get" ? getters : putters) = true;
    if (n > 0) MC_CHECK(!getters, "taker-blocked", "a taker is blocked although there are " + std::to_string(n) + " items\n" + q.h.str());
    if (n < q.cap) MC_CHECK(!putters, "putter-blocked", "a putter is blocked although there is room\n" + q.h.str());
    // With no room at all nobody ever gets through: their contexts end.
    if (q.cap == 0) { arpc::context::top().cancel(); break; }
    sched::NoPreempt np;
    q.run(getters ? kMaybePut : kMaybeGet, 100 + k);
    sched::wait_quiet();
  }
  for (auto& t : th) t.join();
  // What is left comes out in order.
  { sched::NoPreempt np; int guard = 0; while (q.q.size() && ++guard < 20 && q.run(kMaybeGet, 0) == "ok") {} }
  q.judge();
  mc::outcome(q.h.str());
  mc::nontrivial();
}
MC_SCENARIO("two-threads", 2, 4) { concurrent<false>(2, 1, false, 0); }
MC_SCENARIO("two-threads-twice", 1, 2) { concurrent<false>(2, 2, true, 0); }
MC_SCENARIO("three-threads", 2, 3) { concurrent<false>(3, 1, true, 0); }
MC_SCENARIO("contexts-end", 2, 3) { concurrent<false>(2, 1, true, 1 + mc::choose(2, "ending")); }
MC_SCENARIO("semaphore", 2, 3) { concurrent<true>(2, 1, false, 0); }
MC_SCENARIO("semaphore-three", 1, 2) { concurrent<true>(3, 1, true, 0); }
MC_SCENARIO("semaphore-contexts-end", 1, 2) { concurrent<true>(2, 1, true, 1 + mc::choose(2, "ending")); }

template <bool Sem>
static void histories() {
  warm();
  Q<Sem> q(mc::choose(4, "capacity"));
  std::deque<int> model;
  int depth = mc::tier_pick(5, 7), next = 1;
  int where = mc::choose(3, "context");
  arpc::context here;
  if (where == 1) here.cancel();
  if (where == 2) here.set_timeout(ms(0));
  for (int i = 0; i < depth; i++) {
    bool full = model.size() == q.cap, empty = model.empty();
    int op = mc::choose(kSize, "op"), item = next++;
    bool put = op == kPut || op == kMaybePut || op == kSelPut || op == kCanPut;
    bool possible = put ? !full : !empty, maybe = op == kMaybePut || op == kMaybeGet;
    if (!possible && where == 0 && !maybe && op != kSelPut && op != kSelGet) mc::prune();
    size_t before = q.q.size();
    std::string r = q.run(op, item);
    std::string want = maybe ? (possible ? "ok" : "again") : where == 1 ? "cancelled" : where == 2 && !possible ? "deadline" : "ok";
    MC_CHECK(r == want || (where == 2 && !maybe && r == "deadline"), "wrong-end", r + " instead of " + want);
    if (r == "ok" && possible && op < kCanGet) { if (put) model.push_back(Sem ? 1 : item); else model.pop_front(); }
    MC_CHECK(q.q.size() == model.size(), "wrong-size", std::to_string(before) + " -> " + std::to_string(q.q.size()));
    MC_CHECK(q.q.empty() == model.empty(), "wrong-empty", "empty() is " + std::to_string(q.q.empty()) + " with " + std::to_string(model.size()) + " items");
    MC_CHECK(q.q.full() == (model.size() == q.cap), "wrong-full", "");
  }
  q.judge();
  mc::nontrivial();
}
MC_SCENARIO("histories", 0, 0) { histories<false>(); }
MC_SCENARIO("semaphore-histories", 0, 0) { histories<true>(); }

MC_SCENARIO("producer-order", 2, 3) {
  // Two producers and a consumer through a short queue: nothing is lost, repeated or reordered within a producer.
  warm();
  arpc::queue<Item> q(1 + mc::choose(2, "capacity"));
  static const int kEach = 2;
  std::vector<std::thread> th;
  for (int p = 0; p < 2; p++)
    th.emplace_back([&, p] { for (int i = 0; i < kEach; i++) q.put(std::make_unique<int>(p * 10 + i)); });
  int last[2] = {-1, -1};
  for (int i = 0; i < 2 * kEach; i++) {
    Item it = q.get();
    MC_CHECK(it, "empty-item", "");
    int p = *it / 10, n = *it % 10;
    MC_CHECK(n == last[p] + 1, "reordered", std::to_string(*it));
    last[p] = n;
  }
  for (auto& t : th) t.join();
  MC_CHECK(q.size() == 0, "wrong-size", "");
  mc::nontrivial();
}

// Many items: filled, half emptied, refilled and emptied, in order throughout.
template <typename Q, typename Put, typename Get>
static void scale(Put put, Get get) {
  warm(); sched::opt().max_steps = 4000000;
  sched::NoPreempt np;
  sched::opt().timers = false;
  int n = amount(mc::tier_pick(70, 200), mc::tier_pick(1025, 4097), "items");
  bool limited = mc::choose(2, "limited");
  if (limited && n == 0) mc::prune();
  Q q(limited ? size_t(n) : size_t(1) << 20);
  int in = 0, out = 0;
  auto state = [&] {
    MC_CHECK(q.size() == size_t(in - out) && q.empty() == (in == out) && q.full() == (limited && in - out == n), "wrong-size", std::to_string(q.size()));
    MC_CHECK(ready_now(q.can_put()) == !(limited && in - out == n) && ready_now(q.can_get()) == (in != out), "wrong-readiness", std::to_string(in - out) + " of " + std::to_string(n));
  };
  auto fill = [&] { while (in - out < n) { put(q, in); in++; } state(); if (limited) MC_CHECK(how([&] { put(q, -1); }) == "again", "over-capacity", std::to_string(n)); state(); };
  auto drain = [&](int left) { while (in - out > left) { int v = get(q); MC_CHECK(v == out || v == -2, "reordered", std::to_string(out)); out++; } state(); };
  state(); fill(); drain(n / 2); fill(); drain(n - n / 3); fill(); drain(0);
  MC_CHECK(how([&] { get(q); }) == "again", "out-of-nothing", "");
  mc::nontrivial();
}
MC_SCENARIO("scale", 0, 0) {
  scale<arpc::queue<Item>>([](auto& q, int i) { q.maybe_put(std::make_unique<int>(i)); }, [](auto& q) { Item it = q.maybe_get(); MC_CHECK(it, "empty-item", ""); return *it; });
}
MC_SCENARIO("semaphore-scale", 0, 0) {
  scale<arpc::queue<void>>([](auto& q, int) { q.maybe_put(); }, [](auto& q) { q.maybe_get(); return -2; });
}
