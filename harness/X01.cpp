// X01: cancellation reaches every descendant and nothing else.
#include "arpc/future.h"
#include "arpc/mutex.h"
#include "arpc/pipe.h"
#include "arpc/queue.h"
#include "ah.h"
using namespace ah;

namespace {
struct Node {
  std::unique_ptr<arpc::context> c;
  int parent;
  bool shield, cancelled;
};
struct Tree {
  std::vector<Node> n;
  ~Tree() { for (size_t i = n.size(); i-- > 0;) n[i].c.reset(); }
  bool alive(int i) const { return n[i].c != nullptr; }
  bool leaf(int i) const { for (auto& x : n) if (x.c && x.parent == i) return false; return true; }
  int add(int parent, bool shield) {
    arpc::context& p = parent < 0 ? arpc::context::top() : *n[parent].c;
    n.push_back({std::make_unique<arpc::context>(p, false, shield), parent, shield, !shield && parent >= 0 && n[parent].cancelled});
    return n.size() - 1;
  }
  void mark(int i) { n[i].cancelled = true; for (size_t j = 0; j < n.size(); j++) if (n[j].c && n[j].parent == i && !n[j].shield) mark(j); }
  void verify(const std::string& where) const {
    for (size_t i = 0; i < n.size(); i++) if (n[i].c)
      MC_CHECK(n[i].c->is_cancelled() == n[i].cancelled, n[i].cancelled ? "not-cancelled" : "cancelled-wrongly", where + ", context " + std::to_string(i));
    MC_CHECK(!arpc::context::top().is_cancelled(), "cancelled-wrongly", "top");
  }
};
// Something to block in.
enum Op { kNever, kFlag, kLock, kGet, kRead, kFuture, kTimed, kPut, kSelect, kOps };
struct Things {
  arpc::flag flag;
  arpc::mutex mu;
  arpc::queue<int> empty{1}, full{1};
  arpc::channel ends[2];
  arpc::promise<int> promise;
  arpc::future<int> future;
  Things() { sched::NoPreempt np; mu.lock(); full.put(1); arpc::pipe(ends); future = promise.get_future(); }
  void block(int op) {
    switch (op) {
      case kNever: arpc::wait(arpc::never()); break;
      case kFlag: flag.wait(); break;
      case kLock: mu.lock(); mu.unlock(); break;
      case kGet: empty.get(); break;
      case kRead: { char c; ends[0].read(&c, 1); break; }
      case kFuture: future.get(); break;
      case kTimed: arpc::wait(arpc::timeout(std::chrono::hours(1))); break;
      case kPut: full.put(2); break;
      case kSelect: { auto [a, b] = arpc::select(flag.async_wait(), empty.async_get()); (void)a; (void)b; break; }
    }
  }
  // Lets one blocked thread go on.
  void release(int op) {
    switch (op) {
      case kFlag: case kSelect: flag.set(); break;
      case kLock: mu.unlock(); break;
      case kGet: empty.put(1); break;
      case kRead: ends[1].write("x", 1); break;
      case kFuture: promise.set_value(1); break;
      case kPut: full.get(); break;
    }
  }
};
}  // namespace

MC_SCENARIO("histories", 0, 0) {
  // One thread, every short history of creating, cancelling and destroying.
  warm();
  sched::NoPreempt np;
  Tree t;
  int depth = mc::tier_pick(5, 6);
  t.add(-1, false);
  for (int i = 0; i < depth; i++) {
    std::vector<std::array<int, 3>> ops;
    for (size_t j = 0; j < t.n.size(); j++) if (t.alive(j)) {
      if (t.n.size() < 5) { ops.push_back({0, int(j), 0}); ops.push_back({0, int(j), 1}); }
      ops.push_back({1, int(j), 0});
      if (t.leaf(j) && j > 0) ops.push_back({2, int(j), 0});
    }
    auto o = ops[mc::choose(ops.size(), "op")];
    if (o[0] == 0) t.add(o[1], o[2]);
    if (o[0] == 1) { t.n[o[1]].c->cancel(); t.mark(o[1]); }
    if (o[0] == 2) t.n[o[1]].c.reset();
    t.verify("step " + std::to_string(i));
  }
  // Operations in a context under each.
  for (auto& x : t.n) if (x.c) {
    arpc::context here(*x.c);
    MC_CHECK(here.is_cancelled() == x.cancelled, "child", "");
    std::string r = how([&] { arpc::wait(arpc::timeout(ms(1))); });
    MC_CHECK(r == (x.cancelled ? "cancelled" : "ok"), x.cancelled ? "not-woken" : "cancelled-wrongly", r);
    arpc::shield sh;
    r = how([&] { arpc::wait(arpc::timeout(ms(1))); });
    MC_CHECK(r == "ok", "shield", r);
  }
  mc::nontrivial();
}

// Threads blocked in contexts of a tree; one context is cancelled.
static void blocked(int waiters, int ops) {
  warm();
  sched::opt().timers = false;
  Tree t;
  int op[2], where[2];
  {
    sched::NoPreempt np;
    t.add(-1, false);
    int nodes = 2 + mc::choose(2, "nodes");
    for (int i = 1; i < nodes; i++) { int p = mc::choose(i, "parent"); t.add(p, mc::choose(2, "shield")); }
    for (int i = 0; i < waiters; i++) {
      op[i] = mc::choose(ops, "op");
      where[i] = mc::choose(nodes, "where");
      if (i && (where[i] < where[i - 1] || (where[i] == where[i - 1] && op[i] < op[i - 1]))) mc::prune();
    }
  }
  bool nested = mc::choose(2, "nested");   // one more context in between
  std::unique_ptr<Things> things[2];
  std::string end[2];
  bool started_cancelled[2] = {};
  std::vector<std::thread> th;
  for (int i = 0; i < waiters; i++) {
    things[i] = std::make_unique<Things>();
    th.emplace_back([&, i] {
      arpc::context mine(*t.n[where[i]].c);
      if (nested) { arpc::context inner; started_cancelled[i] = inner.is_cancelled(); end[i] = how([&] { things[i]->block(op[i]); }); }
      else { started_cancelled[i] = mine.is_cancelled(); end[i] = how([&] { things[i]->block(op[i]); }); }
    });
  }
  if (mc::choose(2, "when they wait")) sched::wait_quiet();
  int target = mc::choose(t.n.size(), "target");
  t.n[target].c->cancel(); t.mark(target);
  t.verify("after cancel");
  sched::wait_quiet();
  { sched::Ignore ig;
  for (int i = 0; i < waiters; i++) {
    bool hit = t.n[where[i]].cancelled;
    int tid = i + 1;
    if (hit) MC_CHECK(sched::done(tid) && end[i] == "cancelled", "not-woken", "waiter " + std::to_string(i) + ": " + (sched::done(tid) ? end[i] : "still waiting"));
    else MC_CHECK(!sched::done(tid) && !started_cancelled[i], "woken-wrongly", "waiter " + std::to_string(i) + ": " + end[i]);
  } }
  for (int i = 0; i < waiters; i++) if (!t.n[where[i]].cancelled) {
    if (op[i] == kNever || op[i] == kTimed) { int k = where[i]; t.n[k].c->cancel(); t.mark(k); }
    else things[i]->release(op[i]);
  }
  for (auto& x : th) x.join();
  for (int i = 0; i < waiters; i++) MC_CHECK(end[i] == "ok" || (t.n[where[i]].cancelled && end[i] == "cancelled"), "wrong-end", end[i]);
  mc::outcome(end[0]);
  mc::nontrivial();
}
MC_SCENARIO("one-blocked", 2, 3) { blocked(1, kOps); }
MC_SCENARIO("two-blocked", 1, 2) { blocked(2, 2); }

MC_SCENARIO("created-meanwhile", 3, 4) {
  // Contexts and threads come into being under the one being cancelled.
  warm();
  arpc::context group(arpc::context::current(), false);
  arpc::context other(arpc::context::current(), false);
  int how_made = mc::choose(6, "made");
  bool wait_in_it = mc::choose(2, "wait");
  std::string end = "none";
  bool cancelled_at_birth = false, was = false, at_end = false;
  std::thread th([&] {
    arpc::context base(how_made == 5 ? other : group);
    auto use = [&](arpc::context& c) {
      cancelled_at_birth = c.is_cancelled();
      if (wait_in_it) end = how([&] { arpc::wait(arpc::never()); });
      at_end = c.is_cancelled();
    };
    was = base.is_cancelled();
    switch (how_made) {
      case 0: use(base); break;
      case 1: { arpc::context in; use(in); break; }
      case 2: { arpc::context in; arpc::context in2; use(in2); break; }
      case 3: { arpc::thread t([&] { use(arpc::context::current()); }); t.join(); break; }
      case 4: { arpc::context in(group); use(in); break; }
      case 5: wait_in_it = false; use(base); break;
    }
  });
  group.cancel();
  MC_CHECK(group.is_cancelled(), "not-cancelled", "");
  // Whatever is created now starts cancelled.
  { arpc::context late(group, false); MC_CHECK(late.is_cancelled(), "not-cancelled", "created afterwards"); }
  { arpc::context late(other, false); MC_CHECK(!late.is_cancelled(), "cancelled-wrongly", "under another"); }
  th.join();                     // a missed cancellation shows as a deadlock
  if (wait_in_it) MC_CHECK(end == "cancelled", "wrong-end", end);
  if (was) MC_CHECK(cancelled_at_birth, "not-cancelled", "child of a cancelled one");
  if (cancelled_at_birth) MC_CHECK(at_end, "not-cancelled", "no longer");
  if (how_made == 5) MC_CHECK(!at_end, "cancelled-wrongly", "");
  mc::outcome(cancelled_at_birth + 2 * was + 4 * at_end);
  mc::nontrivial();
}

MC_SCENARIO("destroyed-meanwhile", 3, 4) {
  // Children go while their parent is cancelled; others stay and are reached.
  warm();
  auto group = std::make_unique<arpc::context>(arpc::context::current(), false);
  std::vector<std::unique_ptr<arpc::context>> kids;
  for (int i = 0; i < 3; i++) kids.push_back(std::make_unique<arpc::context>(*group, false));
  auto grandkid = std::make_unique<arpc::context>(*kids[2], false);
  int goes = mc::choose(2, "goes");
  std::thread th([&] {
    kids[goes].reset();
    if (mc::choose(2, "more")) { auto k = std::make_unique<arpc::context>(*group, false); k.reset(); }
  });
  std::thread th2([&] { if (mc::choose(2, "second canceller")) kids[2]->cancel(); });
  group->cancel();
  for (int i = 0; i < 3; i++) if (i != goes) MC_CHECK(kids[i]->is_cancelled(), "not-cancelled", std::to_string(i));
  MC_CHECK(grandkid->is_cancelled(), "not-cancelled", "grandchild");
  th.join(); th2.join();
  grandkid.reset(); kids.clear(); group.reset();
  mc::nontrivial();
}

MC_SCENARIO("threads", 3, 4) {
  // Threads run in contexts under the one that started them; daemons do not.
  warm();
  arpc::context here;
  bool daemon = mc::choose(2, "daemon");
  int when = mc::choose(4, "when");   // before, meanwhile, when it waits, its own context
  if (when == 0) here.cancel();
  arpc::flag go;
  std::string end;
  bool started = false;
  auto body = [&] { started = arpc::context::current().is_cancelled(); end = how([&] { go.wait(); }); };
  auto run = [&](auto&& t) {
    if (when == 2) sched::wait_quiet();
    if (when == 1 || when == 2) here.cancel();
    if (when == 3) t.get_context().cancel();
    if (daemon && when != 3) { MC_CHECK(!t.get_context().is_cancelled(), "cancelled-wrongly", "daemon"); sched::wait_quiet(); go.set(); }
    t.join();
  };
  if (daemon) run(arpc::daemon_thread(body)); else run(arpc::thread(body));
  if (daemon && when != 3) MC_CHECK(end == "ok" && !started, "cancelled-wrongly", end);
  else MC_CHECK(end == "cancelled", "wrong-end", end);
  if (when == 0 && !daemon) MC_CHECK(started, "not-cancelled", "started under a cancelled context");
  MC_CHECK(here.is_cancelled() == (when != 3), "cancelled-wrongly", "the starting context");
  mc::nontrivial();
}

MC_SCENARIO("two-cancellers", 4, 5) {
  // Cancelling a context and one under it at the same time, with a waiter below both.
  warm();
  arpc::context group(arpc::context::current(), false);
  arpc::context child(group, false);
  arpc::context sibling(arpc::context::current(), false);
  std::string end;
  std::thread w([&] { arpc::context mine(child); end = how([&] { arpc::wait(arpc::never()); }); });
  std::thread c([&] { child.cancel(); MC_CHECK(child.is_cancelled(), "not-cancelled", "child"); });
  group.cancel();
  MC_CHECK(group.is_cancelled() && child.is_cancelled(), "not-cancelled", "after cancelling the group");
  c.join(); w.join();
  MC_CHECK(end == "cancelled", "wrong-end", end);
  MC_CHECK(!sibling.is_cancelled(), "cancelled-wrongly", "sibling");
  mc::nontrivial();
}

MC_SCENARIO("scale", 0, 0) {
  // Wide and deep families: a cancellation reaches all below it, wherever they are, and nobody else.
  warm(); sched::opt().max_steps = 4000000; sched::opt().timers = false; sched::NoPreempt np;
  int n = 1 + amount(mc::tier_pick(24, 40), mc::tier_pick(257, 1025), "contexts"), shape = mc::choose(5, "shape");
  auto edge = [&](const char* label) { return n <= 12 ? mc::choose(n, label) : std::vector<int>{0, 1, n / 2, n - 2, n - 1}[mc::choose(5, label)]; };
  std::vector<int> up(n, -1);
  for (int i = 1; i < n; i++) up[i] = shape == 0 ? 0 : shape == 1 ? i - 1 : shape == 2 ? (i - 1) / 2 : shape == 3 ? std::max(0, i - 17) : i % 7 ? i - 1 : 0;
  arpc::context outside(arpc::context::top(), false);
  std::vector<std::unique_ptr<arpc::context>> c(n);
  std::vector<bool> has(n, false), gone(n), want(n);
  for (int i = 0; i < n; i++) { c[i] = std::make_unique<arpc::context>(i ? *c[up[i]] : outside, false); if (i) has[up[i]] = true; }
  // One without children may have left before.
  int left = edge("left");
  if (!has[left] && n > 1) { c[left].reset(); gone[left] = true; }
  int who = edge("cancelled");
  if (gone[who]) mc::prune();
  c[who]->cancel();
  want[who] = true;
  for (int i = 1; i < n; i++) if (want[up[i]]) want[i] = true;
  for (int i = 0; i < n; i++) if (!gone[i]) {
    MC_CHECK(c[i]->is_cancelled() == want[i], want[i] ? "not-cancelled" : "cancelled-wrongly", std::to_string(i) + " of " + std::to_string(n));
    std::string e = how([&] { auto [w, a] = arpc::select(c[i]->wait_cancelled(), arpc::always()); MC_CHECK(bool(w) == want[i], "wrong-readiness", std::to_string(i)); });
    MC_CHECK(e == "ok", "wrong-end", e);
  }
  { arpc::context late(*c[who], false); MC_CHECK(late.is_cancelled(), "not-cancelled", "created afterwards"); }
  MC_CHECK(!outside.is_cancelled(), "cancelled-wrongly", "the parent");
  for (int i = n; i-- > 0;) c[i].reset();
  mc::nontrivial();
}
