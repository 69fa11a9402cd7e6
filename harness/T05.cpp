// T05: waiting for several events reports exactly the ones it consumed.
#include "ah.h"
using namespace ah;

namespace {
// Events of a wait: what makes them occur and what their action does.
enum Source { kReady, kNotReady, kNow, kLater, kNever, kArrives, kHungUp, kWritable, kSources };
enum Action { kValue, kThrow, kAgainOnce, kAgain, kTryAgainDerived, kActions };
struct Boom : std::runtime_error { explicit Boom(int n) : std::runtime_error("boom " + std::to_string(n)) {} };
struct Ev {
  Source src; Action act; int id;
  Pipe p;
  int runs = 0, completed = 0;      // runs of the action, and how many of them had an effect
  bool gone = false;
  Ev(Source s, Action a, int id) : src(s), act(a), id(id) {}
  bool may_fire() const { return src != kNever && src != kNotReady; }
  int react() {
    runs++;
    if (src == kReady || src == kArrives) {
      char c;
      ssize_t n = ::read(p.r, &c, 1);
      MC_CHECK(n == 1, "action-without-event", "the action of an event ran although it had not occurred");
      if (act == kAgain) p.put();   // it stays as it was
      if (act == kAgainOnce && runs == 1) p.put();
    }
    if (src == kHungUp) { char c; MC_CHECK(::read(p.r, &c, 1) == 0, "action-without-event", "hang-up"); }
    MC_CHECK(src != kNever && src != kNotReady, "action-without-event", "the action of an event ran although it had not occurred");
    if (act == kAgain || (act == kAgainOnce && runs == 1)) throw arpc::errors::try_again("not now");
    completed++;
    if (act == kThrow) throw Boom(id);
    return 100 + id;
  }
  arpc::awaitable<int> make() {
    auto base = [&] {
      switch (src) {
        case kReady: p.put(); return arpc::awaitable<void>(p.r);
        case kNotReady: case kArrives: return arpc::awaitable<void>(p.r);
        case kNow: return arpc::always();
        case kLater: return arpc::timeout(ms(5));
        case kHungUp: ::close(p.w); p.w = -1; return arpc::awaitable<void>(p.r);
        case kWritable: return arpc::awaitable<void>(p.w, true);
        default: return arpc::never();
      }
    }();
    return base.then([this] { return react(); });
  }
  // Judges what the wait reported for this event.
  bool judge(arpc::result_holder<int>& r, const char* how) {
    std::string d = std::string(how) + ", event " + std::to_string(id) + " source " + std::to_string(src) + " action " + std::to_string(act);
    if (!r.has_value()) {
      MC_CHECK(completed == 0, "effect-not-reported", d + ": its action took effect but nothing was reported");
      return false;
    }
    MC_CHECK(completed == 1, completed ? "action-repeated" : "reported-without-action", d);
    try {
      int v = std::move(*r);
      MC_CHECK(act != kThrow && v == 100 + id, "wrong-outcome", d);
    } catch (const Boom& b) {
      MC_CHECK(act == kThrow && std::string(b.what()) == Boom(id).what(), "wrong-outcome", d + " threw " + b.what());
    }
    return true;
  }
};
}  // namespace

static void events(int n, bool threads) {
  sched::opt().timers = false;
  warm();
  static const Source kS[] = {kReady, kNotReady, kNow, kLater, kNever, kHungUp, kWritable, kArrives};
  static const Action kA[] = {kValue, kThrow, kAgainOnce, kAgain};
  std::vector<std::unique_ptr<Ev>> ev;
  bool possible = false, arrives = false;
  for (int i = 0; i < n; i++) {
    Source s = kS[mc::choose(threads ? 8 : 7, "source")];
    Action a = s == kNotReady || s == kNever ? kValue : kA[mc::choose(4, "action")];
    // Actions that keep answering "not yet" spin when their event stays; and a timeout expires only once.
    if (a == kAgain && s != kArrives) mc::prune();
    if (a == kAgainOnce && s == kHungUp) mc::prune();
    if ((s == kNow || s == kLater) && a >= kAgainOnce) mc::prune();
    if (a == kAgain) mc::prune();
    ev.push_back(std::make_unique<Ev>(s, a, i));
    possible = possible || ev.back()->may_fire();
    arrives = arrives || s == kArrives;
  }
  if (threads && !arrives && mc::choose(2, "no arrival")) mc::prune();
  // How the wait ends otherwise.
  enum { kNoEnd, kCancelledBefore, kExpiredBefore, kExpires, kCancelledBoth, kCancelledMeanwhile };
  int end = mc::choose(threads ? 6 : 5, "end");
  if (!possible && end == kNoEnd) mc::prune();
  std::vector<arpc::awaitable<int>> a;
  for (auto& e : ev) a.push_back(e->make());
  arpc::context ctx;
  std::vector<std::thread> th;
  bool cancelled = false;
  {
    sched::NoPreempt np;
    if (end == kCancelledBefore) ctx.cancel();
    if (end == kExpiredBefore) ctx.set_timeout(ms(0));
    if (end == kExpires) ctx.set_timeout(ms(3));
    if (end == kCancelledBoth) { ctx.set_timeout(ms(0)); ctx.cancel(); }
    if (end == kCancelledMeanwhile) th.emplace_back([&] { ctx.cancel(); { sched::Ignore ig; cancelled = true; } });
    if (arrives) th.emplace_back([&] { for (auto& e : ev) if (e->src == kArrives) e->p.put(); });
  }
  int form = n == 0 ? 0 : mc::choose(n >= 2 ? 3 : 2, "form");
  int reported = 0;
  uint64_t t0 = us();
  std::string r = how([&] {
    if (form == 0) {
      if (n == 0) { auto x = arpc::select(); (void)x; }
      else if (n == 1) { auto [x] = arpc::select(a[0]); reported += ev[0]->judge(x, "one"); }
      else if (n == 2) {
        auto [x, y] = arpc::select(std::move(a[0]), a[1]);
        reported += ev[0]->judge(x, "two"); reported += ev[1]->judge(y, "two");
      } else {
        auto [x, y, z] = arpc::select(a[0], std::move(a[1]), a[2]);
        reported += ev[0]->judge(x, "three"); reported += ev[1]->judge(y, "three"); reported += ev[2]->judge(z, "three");
      }
    } else if (form == 1) {
      auto [v] = arpc::select(std::move(a));
      MC_CHECK(v.size() == ev.size(), "wrong-outcome", "list of another size");
      for (int i = 0; i < n; i++) reported += ev[i]->judge(v[i], "list");
    } else {
      auto first = std::move(a[0]);
      std::vector<arpc::awaitable<int>> rest;
      for (size_t i = 1; i < a.size(); i++) rest.push_back(std::move(a[i]));
      auto [x, v] = arpc::select(first, rest);
      reported += ev[0]->judge(x, "mixed");
      for (int i = 1; i < n; i++) reported += ev[i]->judge(v[i - 1], "mixed");
    }
  });
  std::string d = r + " reported " + std::to_string(reported);
  if (r == "ok") MC_CHECK(reported > 0, "nothing-reported", d);
  else {
    MC_CHECK(r == "cancelled" || r == "deadline", "wrong-end", d);
    for (auto& e : ev) MC_CHECK(e->completed == 0, "effect-lost", d + ": the action of event " + std::to_string(e->id) + " took effect and was not reported");
  }
  if (r == "cancelled") MC_CHECK(end == kCancelledBefore || end == kCancelledBoth || end == kCancelledMeanwhile, "wrong-end", d);
  if (r == "deadline") MC_CHECK(end == kExpiredBefore || end == kCancelledBoth || (end == kExpires && us() - t0 >= 3000), "wrong-end", d);
  if (end == kCancelledBefore) MC_CHECK(r == "cancelled", "wrong-end", d);
  if (end == kCancelledBoth || end == kExpires || end == kExpiredBefore) {
    bool at_once = false;
    for (auto& e : ev) at_once = at_once || (e->may_fire() && e->src != kLater);
    if (!at_once) MC_CHECK(r != "ok", "wrong-end", d);
  }
  // Events that were there at the time of the only look and are descriptors must have been reported together.
  if (r == "ok" && !threads) {
    bool again = false;
    for (auto& e : ev) again = again || e->act == kAgainOnce;
    for (auto& e : ev) {
      bool fd_now = e->src == kReady || e->src == kHungUp || e->src == kWritable;
      if (fd_now && e->act < kAgainOnce) MC_CHECK(e->completed == 1, "event-not-reported", d + ": event " + std::to_string(e->id) + " was there");
      if (e->src == kLater && us() - t0 < 5000) MC_CHECK(e->completed == 0, "too-early", d);
    }
  }
  mc::outcome(d);
  for (auto& t : th) t.join();
  mc::nontrivial();
}
MC_SCENARIO("events", 0, 0) { events(mc::choose(4, "n"), false); }
MC_SCENARIO("events-arriving", 1, 2) { events(1 + mc::choose(2, "n"), true); }

MC_SCENARIO("tokens", 3, 4) {
  // Several threads wait for the same token-bearing events while others add tokens and cancel some of the waiters:
  // every token ends up with exactly one waiter or stays.
  warm();
  struct Src {
    Pipe p;
    int put = 0, took = 0;
    bool take() {
      if (!sched_ready()) throw arpc::errors::try_again("");
      char c; if (::read(p.r, &c, 1) != 1) mc::fail("harness", "read");
      return true;
    }
    bool sched_ready() { pollfd f{p.r, POLLIN, 0}; return ::poll(&f, 1, 0) == 1; }
  };
  static const int kWaiters = mc::tier_pick(2, 2);
  Src s[2];
  std::mutex mu;
  int got[2] = {0, 0};
  std::vector<std::thread> th;
  arpc::context ctx[2];
  std::string end[2];
  int tokens = 1 + mc::choose(2, "tokens");
  for (int i = 0; i < kWaiters; i++)
    th.emplace_back([&, i] {
      arpc::context mine(ctx[i]);
      end[i] = how([&] {
        auto make = [&](int k) { return arpc::awaitable<void>(s[k].p.r).then([&, k] { std::scoped_lock l(mu); return s[k].take(); }); };
        auto [a, b] = arpc::select(make(0), make(1));
        int n = int(bool(a)) + int(bool(b));
        MC_CHECK(n > 0, "nothing-reported", "");
        sched::Ignore ig;
        got[0] += bool(a); got[1] += bool(b);
      });
    });
  th.emplace_back([&] { for (int i = 0; i < tokens; i++) s[i].p.put(); });
  ctx[0].cancel();
  sched::wait_quiet();
  ctx[1].cancel();
  for (auto& t : th) t.join();
  int left[2] = {s[0].sched_ready(), s[1].sched_ready()};
  for (int k = 0; k < 2; k++) {
    int put = k < tokens;
    MC_CHECK(got[k] + left[k] == put, got[k] + left[k] < put ? "effect-lost" : "consumed-twice", "token " + std::to_string(k) + ": reported " + std::to_string(got[k]) + ", left " + std::to_string(left[k]));
  }
  mc::outcome(end[0] + end[1] + std::to_string(got[0]) + std::to_string(got[1]));
  mc::nontrivial();
}

MC_SCENARIO("poll-fails", 1, 2) {
  // When the operating system refuses to wait, nothing has been consumed.
  warm();
  vos::cfg().fail = vos::kPoll;
  Pipe p;
  int runs = 0;
  std::thread w([&] { p.put(); });
  std::string r = how([&] {
    auto [a, b] = arpc::select(arpc::awaitable<void>(p.r).then([&] { runs++; }), arpc::never());
    MC_CHECK(a && !b, "nothing-reported", "");
  });
  MC_CHECK(r == "ok" ? runs == 1 : r == "io" && runs == 0, "wrong-end", r);
  w.join();
  mc::outcome(r);
  mc::nontrivial();
}

MC_SCENARIO("scale", 0, 0) {
  // Many items in lists between single ones: exactly those that happened are reported, in their places.
  warm(); sched::opt().max_steps = 4000000; sched::opt().timers = false; sched::NoPreempt np;
  Pipe yes, no;
  yes.put();
  int n = amount(mc::tier_pick(20, 40), mc::tier_pick(513, 1025), "first list"), m = mc::choose(3, "second list") * 3;
  int total = n + m + 2;
  // One or two of the items happened; where there are many, those at the edges.
  auto place = [&](const char* label) {
    if (total <= mc::tier_pick(12, 24)) return mc::choose(total, label);
    const int edge[] = {0, 1, 2, n / 2, n - 1, n, n + 1, n + m, total - 1};
    return edge[mc::choose(9, label)];
  };
  int i = place("one"), j = place("other"), k = mc::choose(3, "kind");   // of the events that do not happen
  std::vector<int> ran(total);
  auto item = [&](int at) {
    auto a = at == i || at == j ? arpc::awaitable<void>(yes.r) : k == 0 ? arpc::awaitable<void>(no.r) : k == 1 ? arpc::timeout(ms(5 + at)) : arpc::never();
    return a.then([&ran, at] { ran[at]++; return at; });
  };
  std::vector<arpc::awaitable<int>> v, w;
  for (int at = 1; at <= n; at++) v.push_back(item(at));
  for (int at = 0; at < m; at++) w.push_back(item(n + 2 + at));
  auto [a, b, c, d] = arpc::select(item(0), std::move(v), item(n + 1), std::move(w));
  MC_CHECK(b.size() == size_t(n) && d.size() == size_t(m), "wrong-results", "");
  for (int at = 0; at < total; at++) {
    auto& r = at == 0 ? a : at <= n ? b[at - 1] : at == n + 1 ? c : d[at - n - 2];
    bool happened = at == i || at == j;
    MC_CHECK(ran[at] == happened && bool(r) == happened && (!happened || *r == at), "wrong-results", "item " + std::to_string(at) + " of " + std::to_string(total));
  }
  mc::nontrivial();
}
