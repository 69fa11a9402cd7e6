// T02: the awaitable mutex gives exclusive, leak-free ownership.
#include "arpc/mutex.h"
#include "ah.h"
using namespace ah;

namespace {
struct Shared {
  arpc::mutex mu;
  int data = 0;         // guarded: the race detector watches it
  int holders = 0;      // harness bookkeeping
  int acquired = 0, failed = 0;
  void hold() {
    { sched::Ignore ig; holders++; acquired++; MC_CHECK(holders == 1, "two-holders", ""); }
    int v = data;
    sched::point("hold");
    data = v + 1;
    { sched::Ignore ig; MC_CHECK(holders == 1, "two-holders", ""); holders--; }
  }
};
enum Way { kLock, kTry, kMaybe, kSelect, kSelectTimeout, kCanThenTry, kScoped, kWays };
// One attempt; true if it took the mutex (and gave it back).
bool attempt(Shared& s, int way, std::string* end) {
  bool got = false;
  *end = how([&] {
    switch (way) {
      case kLock: s.mu.lock(); got = true; break;
      case kTry: got = s.mu.try_lock(); break;
      case kMaybe: s.mu.maybe_lock(); got = true; break;
      case kSelect: { auto [x] = arpc::select(s.mu.async_lock()); if (x) { *x; got = true; } break; }
      case kSelectTimeout: { auto [x, t] = arpc::select(s.mu.async_lock(), arpc::timeout(ms(1))); if (x) { *x; got = true; } MC_CHECK(x || t, "nothing-reported", ""); break; }
      case kCanThenTry: { arpc::wait(s.mu.can_lock()); got = s.mu.try_lock(); break; }
      case kScoped: { std::scoped_lock l(s.mu); s.hold(); got = true; break; }
    }
  });
  if (got && way != kScoped) {
    MC_CHECK(*end == "ok", "wrong-end", *end);
    s.hold();
    std::string u = how([&] { s.mu.unlock(); });
    MC_CHECK(u == "ok", "unlock-failed", u);
  }
  if (!got) { sched::Ignore ig; s.failed++; }
  return got;
}
void finish(Shared& s) {
  // Nobody holds it now: it must be free, once.
  MC_CHECK(s.mu.try_lock(), "left-locked", "nobody holds the mutex and it cannot be taken");
  MC_CHECK(!s.mu.try_lock(), "two-holders", "the mutex was taken twice");
  MC_CHECK(s.data == s.acquired, "lost-update", std::to_string(s.data) + " of " + std::to_string(s.acquired));
  s.mu.unlock();
}
}  // namespace

static void contend(int threads, int attempts, bool endings) {
  warm();
  Shared s;
  std::vector<std::vector<int>> prog;
  for (int t = 0; t < threads; t++) {
    std::vector<int> p;
    for (int i = 0; i < attempts; i++) p.push_back(mc::choose(endings ? kWays : kWays - 1, "way"));
    if (!endings && t > 0 && p < prog.back()) mc::prune();
    prog.push_back(p);
  }
  // Contexts that end while threads wait in them.
  arpc::context group(arpc::context::current(), false);
  std::vector<std::thread> th;
  std::string end[4];
  int ending = endings ? 1 + mc::choose(3, "ending") : 0;
  for (int t = 0; t < threads; t++)
    th.emplace_back([&, t] {
      arpc::context mine(t == 0 ? group : arpc::context::top());
      if (t == 0 && ending == 2) mine.set_timeout(ms(1));
      if (t == 0 && ending == 3) mine.set_timeout(ms(0));
      for (int w : prog[t]) {
        bool got = attempt(s, w, &end[t]);
        if (t == 0 && ending == 1) MC_CHECK(end[t] == "ok" || end[t] == "cancelled" || end[t] == "again", "wrong-end", end[t]);
        else if (t == 0 && ending >= 2) MC_CHECK(end[t] == "ok" || end[t] == "deadline" || end[t] == "again", "wrong-end", end[t]);
        else {
          MC_CHECK(end[t] == "ok" || (w == kMaybe && end[t] == "again"), "wrong-end", end[t]);
          if (w == kLock || w == kSelect || w == kScoped) MC_CHECK(got, "wrong-end", "");
        }
      }
    });
  if (ending == 1) group.cancel();
  for (auto& t : th) t.join();
  finish(s);
  mc::outcome(s.acquired * 100 + s.failed);
  mc::nontrivial();
}
MC_SCENARIO("two-threads", 3, 4) { contend(2, 1, false); }
MC_SCENARIO("two-threads-twice", 2, 3) { contend(2, 2, false); }
MC_SCENARIO("three-threads", 2, 3) { contend(3, 1, false); }
MC_SCENARIO("contexts-end", 2, 4) { contend(2, 1, true); }

MC_SCENARIO("released-to-a-waiter", 2, 3) {
  // The mutex is held; waiters of all kinds queue up, some give up; whoever is left gets it.
  warm();
  Shared s;
  s.mu.lock();
  arpc::context group(arpc::context::current(), false);
  std::vector<std::thread> th;
  std::string end[2];
  bool got[2];
  int way[2] = {mc::choose(2, "way") ? kSelect : kLock, mc::choose(2, "way") ? kSelect : kLock};
  for (int t = 0; t < 2; t++) th.emplace_back([&, t] { arpc::context mine(t ? group : arpc::context::top()); got[t] = attempt(s, way[t], &end[t]); });
  if (mc::choose(2, "when they wait")) sched::wait_quiet();
  std::optional<std::thread> c;
  bool cancel = mc::choose(2, "cancel");
  if (cancel) c.emplace([&] { group.cancel(); });
  {
    // Released in a context that is over, too.
    arpc::context here;
    int over = mc::choose(3, "over");
    if (over == 1) here.cancel();
    if (over == 2) here.set_timeout(ms(0));
    std::string u = how([&] { s.mu.unlock(); });
    MC_CHECK(u == "ok", "unlock-failed", u);
  }
  for (auto& t : th) t.join();
  if (c) c->join();
  MC_CHECK(got[0], "not-handed-over", "");
  MC_CHECK(got[1] || (cancel && end[1] == "cancelled"), "not-handed-over", end[1]);
  finish(s);
  mc::nontrivial();
}

MC_SCENARIO("histories", 0, 0) {
  // One thread: every order of operations, in live, cancelled and expired contexts; also created there.
  warm();
  arpc::context base;
  int where = mc::choose(4, "context");
  if (where == 1) base.cancel();
  if (where == 2) base.set_timeout(ms(0));
  if (where == 3) { base.cancel(); base.set_timeout(ms(0)); }
  std::unique_ptr<arpc::mutex> m;
  std::string c = how([&] { m = std::make_unique<arpc::mutex>(); });
  MC_CHECK(c == "ok", "creation-failed", c);
  bool held = false;
  int depth = mc::tier_pick(5, 7);
  for (int i = 0; i < depth; i++) {
    int op = mc::choose(6, "op");
    bool over = where == 1 || where == 3;
    std::string r;
    switch (op) {
      case 0: MC_CHECK(m->try_lock() == !held, held ? "two-holders" : "left-locked", "try_lock"); held = true; break;
      case 1: r = how([&] { m->maybe_lock(); }); MC_CHECK(r == (held ? "again" : "ok"), held ? "two-holders" : "left-locked", "maybe_lock " + r); held = true; break;
      case 2:
        if (!held) mc::prune();
        r = how([&] { m->unlock(); }); MC_CHECK(r == "ok", "unlock-failed", r); held = false; break;
      case 3: {
        if (held && where == 0) mc::prune();
        r = how([&] { m->lock(); });
        if (over) MC_CHECK(r == "cancelled", "wrong-end", r);
        else if (held) MC_CHECK(r == "deadline", "wrong-end", r);
        else MC_CHECK(r == "ok" || (where == 2 && r == "deadline"), "wrong-end", r);
        if (r == "ok") held = true;
        break;
      }
      case 4: {
        bool x1 = false, t1 = false;
        r = how([&] { auto [x, t] = arpc::select(m->async_lock(), arpc::always()); x1 = bool(x); t1 = bool(t); });
        if (over) MC_CHECK(r == "cancelled", "wrong-end", r);
        else if (r == "ok") MC_CHECK(x1 == !held && t1 == held, "wrong-event", "");
        else MC_CHECK(where == 2 && r == "deadline", "wrong-end", r);
        if (r == "ok") held = true;
        break;
      }
      case 5: {
        bool x1 = false;
        r = how([&] { auto [x, t] = arpc::select(m->can_lock(), arpc::always()); x1 = bool(x); });
        if (r == "ok") MC_CHECK(x1 == !held, "wrong-event", "can_lock");
        break;
      }
    }
    if (i + 1 == depth) {
      MC_CHECK(m->try_lock() == !held, held ? "two-holders" : "left-locked", "at the end");
    }
  }
  mc::nontrivial();
}

MC_SCENARIO("scale", 0, 1) {
  // Many waiters: each gets the lock once, one at a time.
  warm(); sched::opt().max_steps = 4000000; sched::opt().timers = false; sched::opt().free_switch = false;
  int n = 1 + mc::choose(10, "threads"), times = 1 + mc::choose(mc::tier_pick(3, 6), "times"), last = mc::choose(2, "held meanwhile");
  arpc::mutex m;
  int inside = 0, got = 0;
  if (last) m.lock();
  std::vector<std::thread> t;
  for (int i = 0; i < n; i++) t.emplace_back([&] {
    for (int k = 0; k < times; k++) { m.lock(); { sched::Ignore ig; MC_CHECK(inside++ == 0, "two-holders", ""); got++; } sched::point("inside"); { sched::Ignore ig; inside--; } m.unlock(); }
  });
  if (last) { sched::wait_quiet(); { sched::Ignore ig; MC_CHECK(got == 0, "two-holders", ""); } m.unlock(); }
  for (auto& x : t) x.join();
  MC_CHECK(got == n * times, "lost", std::to_string(got));
  MC_CHECK(m.try_lock(), "not-free", "");
  m.unlock();
  for (int i = 0; i < mc::tier_pick(300, 3000); i++) { m.lock(); MC_CHECK(!m.try_lock(), "two-holders", ""); m.unlock(); }
  mc::nontrivial();
}
