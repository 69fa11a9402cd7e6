// T01: waiting on an event flag never misses or invents a wake-up.
#include "ah.h"
#include "lin.h"
using namespace ah;

namespace {
bool flag_step(bool& s, const lin::Op& o) {
  if (o.name == "set") { s = true; return true; }
  if (o.name == "reset") { s = false; return true; }
  if (o.name == "is_set") return o.pending || s == bool(o.res);
  if (o.name == "wait") return s;      // it was set at some moment of the wait
  if (o.name == "no-wait") return !s;
  mc::fail("harness", o.name);
}
void do_op(arpc::flag& f, lin::History& h, int op) {
  static const char* const kNames[] = {"set", "reset", "is_set", "wait", "wait"};
  size_t i = h.begin(kNames[op]);
  long r = 0;
  switch (op) {
    case 0: f.set(); break;
    case 1: f.reset(); break;
    case 2: r = f.is_set(); break;
    case 3: f.wait(); break;
    case 4: { auto [x] = arpc::select(f.async_wait()); *x; break; }
  }
  h.end(i, r);
}
}  // namespace

MC_SCENARIO("histories", 0, 0) {
  // One thread, any order of operations, in live, cancelled and expired contexts.
  warm();
  arpc::flag f;
  bool set = false;
  arpc::context live, cancelled(live, false), expired(live, false);
  cancelled.cancel();
  expired.set_timeout(ms(0));
  int where = mc::choose(3, "context");
  auto in = std::make_unique<arpc::context>(where == 0 ? live : where == 1 ? cancelled : expired);
  int depth = mc::tier_pick(6, 8);
  for (int i = 0; i < depth; i++) {
    switch (mc::choose(5, "op")) {
      case 0: MC_CHECK(how([&] { f.set(); }) == "ok", "set-failed", ""); set = true; break;
      case 1: MC_CHECK(how([&] { f.reset(); }) == "ok", "reset-failed", ""); set = false; break;
      case 2: {
        if (where == 0 && !set) mc::prune();   // would wait for ever
        std::string r = how([&] { f.wait(); });
        MC_CHECK(r == (where == 1 ? "cancelled" : set ? "ok" : "deadline"), set ? "missed-wake-up" : "invented-wake-up", r);
        break;
      }
      case 3: {
        std::string r = how([&] {
          auto [x, t] = arpc::select(f.async_wait(), arpc::always());
          MC_CHECK(bool(x) == set, set ? "missed-wake-up" : "invented-wake-up", "async_wait");
          MC_CHECK(bool(t) == !set, "wrong-event", "");
        });
        MC_CHECK(r == (where == 1 ? "cancelled" : where == 2 && !set ? "deadline" : "ok"), set ? "missed-wake-up" : "invented-wake-up", r);
        break;
      }
      case 4: {
        auto [x, y] = std::make_pair(f.is_set(), bool(f));
        MC_CHECK(x == set && y == set, "wrong-state", "");
        // Would wait for ever: nothing more to see on this path.
        if (where == 0 && !set) { arpc::context c; c.set_timeout(ms(2)); MC_CHECK(how([&] { f.wait(); }) == "deadline", "invented-wake-up", ""); }
        break;
      }
    }
    MC_CHECK(f.is_set() == set, "wrong-state", "");
  }
  mc::nontrivial();
}

static void concurrent(int threads, int ops_each, bool waits_last) {
  warm();
  arpc::flag f;
  lin::History h;
  if (mc::choose(2, "initially set")) { sched::NoPreempt np; do_op(f, h, 0); }
  std::vector<std::vector<int>> prog;
  for (int t = 0; t < threads; t++) {
    std::vector<int> p;
    for (int i = 0; i < ops_each; i++) p.push_back(mc::choose(i + 1 == ops_each || !waits_last ? 4 : 3, "op"));
    if (t > 0 && p < prog.back()) mc::prune();   // threads are interchangeable
    prog.push_back(p);
  }
  std::vector<std::thread> th;
  for (auto& p : prog) th.emplace_back([&] { for (int op : p) do_op(f, h, op); });
  sched::wait_quiet();
  // Whoever still waits must be right to do so.
  bool set_now;
  { sched::NoPreempt np; set_now = f.is_set(); size_t i = h.begin("is_set"); h.end(i, set_now); }
  if (set_now) MC_CHECK(sched::live() == 1, "missed-wake-up", "the flag is set and a waiter is still blocked\n" + h.str() + sched::describe());
  else {
    // A set now must wake all of them; threads may go on and block again.
    for (int k = 0; k < 4 && sched::live() > 1; k++) {
      do_op(f, h, 0);
      sched::wait_quiet();
      if (f.is_set()) MC_CHECK(sched::live() == 1, "missed-wake-up", "the flag is set and a waiter is still blocked\n" + h.str());
    }
  }
  for (auto& t : th) t.join();
  if (!lin::linearizable(h, false, flag_step)) mc::fail("not-linearizable", h.str());
  mc::outcome(h.str());
  mc::nontrivial();
}
MC_SCENARIO("two-threads", 4, 6) { concurrent(2, 2, true); }
MC_SCENARIO("three-threads", 3, 4) { concurrent(3, 1, false); }
MC_SCENARIO("three-threads-deep", 2, 3, true) { concurrent(3, 2, true); }
MC_SCENARIO("two-threads-deep", 3, 4, true) { concurrent(2, 3, true); }

MC_SCENARIO("set-wakes-all", 1, 2) {
  // Every waiter, however it waits, returns after one set; one in a context that ends returns for that.
  warm();
  arpc::flag f;
  std::vector<std::thread> th;
  std::string end[3];
  arpc::context group(arpc::context::current(), false);
  for (int i = 0; i < 3; i++)
    th.emplace_back([&, i] {
      arpc::context mine(i == 2 ? group : arpc::context::top());
      end[i] = how([&] {
        if (i == 0) f.wait();
        else { auto [x] = arpc::select(f.async_wait()); *x; }
      });
    });
  bool cancel_too = mc::choose(2, "cancel"), first = mc::choose(2, "set in a cancelled context");
  if (cancel_too) th.emplace_back([&] { group.cancel(); });
  {
    arpc::context c;
    if (first) c.cancel();
    f.set();
  }
  for (auto& t : th) t.join();
  MC_CHECK(end[0] == "ok" && end[1] == "ok", "missed-wake-up", end[0] + end[1]);
  MC_CHECK(end[2] == "ok" || (cancel_too && end[2] == "cancelled"), "missed-wake-up", end[2]);
  MC_CHECK(f.is_set(), "wrong-state", "");
  mc::nontrivial();
}

MC_SCENARIO("context-ends-meanwhile", 3, 4) {
  // The context of the setter is cancelled, or expires, at any moment of the change.
  warm();
  arpc::flag f;
  bool expire = mc::choose(2, "expire");
  arpc::context group(arpc::context::current(), false);
  std::string r;
  std::thread setter([&] {
    arpc::context mine(group);
    if (expire) mine.set_timeout(ms(0));
    r = how([&] { f.set(); f.reset(); f.set(); });
  });
  std::thread killer([&] { group.cancel(); });
  f.wait();
  setter.join();
  killer.join();
  MC_CHECK(r == "ok", "set-failed", r);
  MC_CHECK(f.is_set(), "wrong-state", "");
  mc::nontrivial();
}

MC_SCENARIO("many-flags", 2, 3) {
  // A wait over several flags and other waits on the same flags.
  warm();
  arpc::flag f[2];
  int order = mc::choose(2, "order");
  std::thread a([&] { f[order].set(); });
  std::thread b([&] { auto [x, y] = arpc::select(f[0].async_wait(), f[1].async_wait()); MC_CHECK(x || y, "invented-wake-up", ""); if (order && !y) MC_CHECK(f[0].is_set(), "invented-wake-up", ""); });
  std::vector<arpc::awaitable<void>> v;
  v.push_back(f[0].async_wait()); v.push_back(f[1].async_wait());
  auto [r] = arpc::select(std::move(v));
  MC_CHECK(bool(r[order]) && !bool(r[1 - order]), "invented-wake-up", "");
  f[1 - order].set();
  a.join(); b.join();
  mc::nontrivial();
}

MC_SCENARIO("scale", 0, 0) {
  // However often it is set, reset and waited for.
  warm(); sched::opt().max_steps = 4000000; sched::opt().timers = false; sched::NoPreempt np;
  arpc::flag f;
  int n = amount(mc::tier_pick(24, 64), mc::tier_pick(1025, 4097), "times"), sets = 1 + amount(3, mc::tier_pick(257, 1025), "sets"), waits = mc::choose(2, "waits") * 3;
  for (int i = 0; i < n; i++) {
    MC_CHECK(!f.is_set() && !ready_now(f.async_wait()), "set", "time " + std::to_string(i));
    for (int k = 0; k < (i < 3 || i > n - 3 ? sets : 1); k++) f.set();
    MC_CHECK(f.is_set() && ready_now(f.async_wait()), "not-set", "time " + std::to_string(i));
    for (int k = 0; k < waits; k++) f.wait();
    MC_CHECK(f.is_set() && ready_now(f.async_wait()), "not-set", "time " + std::to_string(i));
    for (int k = 0; k < (i < 3 || i > n - 3 ? sets : 1); k++) f.reset();
  }
  MC_CHECK(!f.is_set() && !ready_now(f.async_wait()), "set", "at the end");
  mc::nontrivial();
}
