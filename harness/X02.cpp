// X02: deadlines only tighten down the context tree.
#include "arpc/future.h"
#include "arpc/mutex.h"
#include "arpc/pipe.h"
#include "arpc/queue.h"
#include "ah.h"
using namespace ah;
using tp = arpc::context::time_point;

namespace {
struct Node {
  std::unique_ptr<arpc::context> c;
  std::optional<tp> d;
};
std::string show(const std::optional<tp>& d) { return d ? std::to_string(d->time_since_epoch().count()) : "none"; }
std::chrono::system_clock::time_point now() { return std::chrono::system_clock::now(); }
}  // namespace

static void histories(bool extreme) {
  // One thread: every short history of creating and setting, compared with a model.
  warm();
  sched::NoPreempt np;
  sched::opt().timers = false;
  std::vector<Node> n;
  struct Last { std::vector<Node>& n; ~Last() { while (!n.empty()) n.pop_back(); } } last{n};
  n.push_back({std::make_unique<arpc::context>(arpc::context::top(), false), std::nullopt});
  const auto start = std::chrono::ceil<arpc::context::duration>(now());
  sleep_us(mc::choose(2, "fraction") * 300);
  int depth = mc::tier_pick(4, 5);
  if (extreme) depth = 3;
  auto tighten = [](std::optional<tp>& d, tp w) { if (!d || *d > w) d = w; };
  for (int i = 0; i < depth; i++) {
    int kinds = extreme ? 9 : 8;
    int op = mc::choose(kinds * n.size(), "op");
    Node& x = n[op / kinds];
    std::optional<tp> d;
    switch (op % kinds) {
      case 0: case 1: {
        if (n.size() > 3) mc::prune();
        bool shield = op % kinds == 1;
        d = x.d;
        n.push_back({std::make_unique<arpc::context>(*x.c, false, shield), d});
        break;
      }
      case 2: case 3: case 4: {
        tp w = start + (extreme ? (op % kinds == 2 ? tp::max() - start : op % kinds == 3 ? ms(-100000) : ms(int64_t(1) << 40)) : ms(3 * (op % kinds - 1)));
        x.c->set_deadline(w); tighten(x.d, w); break;
      }
      case 5: case 6: {
        ms t = extreme ? (op % kinds == 5 ? ms::max() : ms(-1)) : ms(op % kinds == 5 ? 2 : 5);
        // At least the time asked for, to the millisecond above.
        tp w = extreme && op % kinds == 5 ? tp::max() : std::chrono::ceil<arpc::context::duration>(now()) + t;
        x.c->set_timeout(t); tighten(x.d, w); break;
      }
      case 7: sleep_us(1700); break;
      case 8: x.c->set_deadline(tp::min()); tighten(x.d, tp::min()); break;
    }
    for (size_t j = 0; j < n.size(); j++) {
      auto got = n[j].c->deadline();
      MC_CHECK(got.has_value() == n[j].d.has_value() && (!got || *got == *n[j].d), "wrong-deadline", "step " + std::to_string(i) + ", context " + std::to_string(j) + ": " + show(got) + " instead of " + show(n[j].d));
      auto left = n[j].c->deadline_left();
      MC_CHECK(left.has_value() == n[j].d.has_value(), "wrong-time-left", "");
      if (left) {
        // To the millisecond.
        auto diff = [&](ms from) { return std::max<__int128>((__int128)n[j].d->time_since_epoch().count() - from.count(), INT64_MIN); };
        auto lo = diff(std::chrono::ceil<ms>(now().time_since_epoch()));
        auto hi = diff(std::chrono::floor<ms>(now().time_since_epoch()));
        MC_CHECK(left->count() >= lo && left->count() <= hi, "wrong-time-left", std::to_string(left->count()));
      }
    }
  }
  MC_CHECK(!arpc::context::top().deadline(), "wrong-deadline", "top");
  // What waits in each ends when it must.
  for (auto& x : n) {
    arpc::context here(*x.c);
    const tp t0 = std::chrono::ceil<ms>(now());      // far away times do not fit in the units of the clock
    std::string r = how([&] { arpc::wait(arpc::timeout(ms(20))); });
    const tp t1 = std::chrono::floor<ms>(now());
    // Within the limit, the deadline comes first.
    if (x.d && *x.d < t0 + ms(18)) {
      MC_CHECK(r == "deadline", "not-ended", r);
      MC_CHECK(std::chrono::ceil<ms>(now()) >= *x.d, "too-early", "");
      MC_CHECK(t1 <= std::max(*x.d, t0) + ms(1), "too-late", "");
    } else if (!x.d || *x.d > t0 + ms(22)) MC_CHECK(r == "ok", "ended-wrongly", r);
    MC_CHECK(here.is_cancelled() == false, "cancelled", "");
  }
  mc::nontrivial();
}
MC_SCENARIO("histories", 0, 0) { histories(false); }
MC_SCENARIO("extremes", 0, 0) { histories(true); }

MC_SCENARIO("blocking-operations", 0, 1) {
  // Every operation that has to wait ends with the deadline of the innermost context that has one.
  warm();
  sched::opt().timers = false;
  static const int64_t kD[] = {-1, 0, 2, 5};   // -1: none
  int64_t d[3];
  for (auto& x : d) x = mc::pick(kD, "deadline");
  if (d[0] < 0 && d[1] < 0 && d[2] < 0) mc::prune();
  int shielded = mc::choose(2, "shield");
  arpc::flag flag;
  arpc::mutex mu; mu.lock();
  arpc::queue<int> empty(1), full(1); full.put(1);
  arpc::channel ends[2]; arpc::pipe(ends);
  arpc::promise<int> promise; auto future = promise.get_future();
  int op = mc::choose(8, "op");
  int64_t first = -1;
  for (auto x : d) if (x >= 0 && (first < 0 || x < first)) first = x;
  std::string end;
  uint64_t took = 0;
  std::thread th([&] {
    arpc::context a;
    auto t0 = us();
    if (d[0] >= 0) a.set_timeout(ms(d[0]));
    arpc::context b;
    if (d[1] >= 0) b.set_timeout(ms(d[1]));
    arpc::context c(b, true, shielded);
    if (d[2] >= 0) c.set_timeout(ms(d[2]));
    end = how([&] {
      switch (op) {
        case 0: arpc::wait(arpc::never()); break;
        case 1: flag.wait(); break;
        case 2: mu.lock(); break;
        case 3: empty.get(); break;
        case 4: full.put(2); break;
        case 5: { char x; ends[0].read(&x, 1); break; }
        case 6: future.get(); break;
        case 7: arpc::wait(arpc::timeout(ms(50))); break;
      }
    });
    took = us() - t0;
  });
  th.join();
  MC_CHECK(end == "deadline", "wrong-end", end);
  MC_CHECK(took >= uint64_t(first) * 1000 && took <= uint64_t(first) * 1000 + 1000, "wrong-time", std::to_string(took) + " us");
  MC_CHECK(mu.try_lock() == false && empty.empty() && full.size() == 1, "consumed", "");
  mc::nontrivial();
}

MC_SCENARIO("set-meanwhile", 3, 4) {
  // Deadlines are set while others read them and create contexts.
  warm();
  sched::opt().timers = false;
  arpc::context group(arpc::context::current(), false);
  arpc::context sibling(arpc::context::current(), false);
  const tp t0 = std::chrono::ceil<arpc::context::duration>(now());
  const tp d1 = t0 + ms(10), d2 = t0 + ms(mc::choose(2, "second") ? 20 : 5);
  std::optional<tp> seen[3];
  std::optional<ms> left;
  std::string end;
  int what = mc::choose(3, "reader");
  std::thread th([&] {
    arpc::context mine(group);
    seen[0] = mine.deadline();
    if (what == 0) { seen[1] = group.deadline(); left = group.deadline_left(); }
    if (what == 1) { arpc::context in; seen[1] = in.deadline(); }
    if (what == 2 && seen[0]) { end = how([&] { arpc::wait(arpc::never()); }); MC_CHECK(end == "deadline", "wrong-end", end); }
    { arpc::context late(group, false); seen[2] = late.deadline(); }
  });
  std::thread th2([&] { group.set_deadline(d2); });
  group.set_deadline(d1);
  { arpc::context late(group, false); auto d = late.deadline(); MC_CHECK(d && *d <= d1, "wrong-deadline", "created afterwards"); }
  th.join(); th2.join();
  MC_CHECK(group.deadline() == std::min(d1, d2), "wrong-deadline", "at the end");
  MC_CHECK(!sibling.deadline() && !arpc::context::top().deadline(), "wrong-deadline", "sibling or parent");
  for (auto& s : seen) MC_CHECK(!s || *s == d1 || *s == d2, "wrong-deadline", show(s));
  // Never later than before.
  if (what < 2 && seen[0]) MC_CHECK(seen[1] && *seen[1] <= *seen[0], "extended", "");
  if (seen[0]) MC_CHECK(seen[2] && *seen[2] <= *seen[0], "extended", "");
  mc::outcome(show(seen[2]) == show(d1));
  mc::nontrivial();
}

MC_SCENARIO("threads", 1, 2) {
  // Threads inherit the deadline of the context they are started in; daemons do not.
  warm();
  sched::opt().timers = false;
  arpc::context here;
  bool daemon = mc::choose(2, "daemon");
  here.set_timeout(ms(3));
  std::optional<tp> seen;
  std::string end;
  auto body = [&] { seen = arpc::context::current().deadline(); end = how([&] { arpc::wait(arpc::timeout(ms(10))); }); };
  auto run = [&](auto&& t) { t.join(); };
  if (daemon) run(arpc::daemon_thread(body)); else run(arpc::thread(body));
  MC_CHECK(seen.has_value() == !daemon && (daemon || *seen == *here.deadline()), "wrong-deadline", show(seen));
  MC_CHECK(end == (daemon ? "ok" : "deadline"), "wrong-end", end);
  mc::nontrivial();
}

MC_SCENARIO("scale", 0, 0) {
  // Long lines of contexts with deadlines here and there: the earliest one above counts that was set before.
  warm(); sched::opt().max_steps = 4000000; sched::opt().timers = false; sched::NoPreempt np;
  int n = 1 + amount(mc::tier_pick(24, 40), mc::tier_pick(257, 1025), "contexts"), wide = mc::choose(2, "wide"), after = mc::choose(2, "set afterwards");
  auto edge = [&](const char* label) { return n <= 12 ? mc::choose(n, label) : std::vector<int>{0, 1, n / 2, n - 2, n - 1}[mc::choose(5, label)]; };
  int i1 = edge("first"), i2 = edge("second"), later = mc::choose(2, "second is earlier");
  auto now = std::chrono::time_point_cast<ms>(std::chrono::system_clock::now());
  auto d1 = now + ms(500), d2 = now + ms(later ? 300 : 700);
  std::vector<std::unique_ptr<arpc::context>> c(n);
  std::vector<std::optional<arpc::context::time_point>> want(n);
  auto set = [&](int i) { if (i == i1) c[i]->set_deadline(d1); if (i == i2) c[i]->set_deadline(d2); };
  for (int i = 0; i < n; i++) {
    int up = i == 0 ? -1 : wide ? (i - 1) / 16 : i - 1;
    c[i] = std::make_unique<arpc::context>(up < 0 ? arpc::context::top() : *c[up], false);
    if (up >= 0 && !after) want[i] = want[up];
    if (i == i1 && (!want[i] || *want[i] > d1)) want[i] = d1;
    if (i == i2 && (!want[i] || *want[i] > d2)) want[i] = d2;
    if (!after) set(i);
  }
  if (after) { if (later) { set(i2); set(i1); } else { set(i1); set(i2); } }
  for (int i = 0; i < n; i++) MC_CHECK(c[i]->deadline() == want[i], "wrong-deadline", std::to_string(i) + " of " + std::to_string(n));
  for (int i = n; i-- > 0;) c[i].reset();
  mc::nontrivial();
}
