// X03: a context outlives its children and threads inherit it.
#include "ah.h"
using namespace ah;

namespace {
// Counts the contexts alive below a level; the destructor of the level above must not return before it is zero.
struct Census { int alive[4] = {}; };
struct Alive {   // declared before the context: counts until the context is gone
  Census& c; int level;
  Alive(Census& c, int l) : c(c), level(l) { sched::Ignore ig; c.alive[l]++; }
  ~Alive() { sched::Ignore ig; c.alive[level]--; }
};
// Declared after the context: counts until its destruction starts.
void none(Census& c, int from, const char* where) {
  sched::Ignore ig;
  for (int i = from; i < 4; i++) MC_CHECK(c.alive[i] == 0, "outlived", std::string(where) + ": a context below is still there");
}
}  // namespace

MC_SCENARIO("children-on-threads", 3, 4) {
  // A context is destroyed while contexts under it exist, come and go on another thread, to three levels.
  warm();
  Census c;
  int levels = 1 + mc::choose(3, "levels");
  bool wait = mc::choose(2, "wait in it");
  bool direct = mc::choose(2, "twice");    // one more directly under the group
  auto group = std::make_unique<arpc::context>(arpc::context::current(), false);
  int fds0 = vos::open_count();
  // The threads have their contexts before the parent goes away.
  arpc::context* base = group.get();
  Gate ready[2];
  std::thread th([&] {
    arpc::context l1(*base);
    Alive a1(c, 1);
    ready[0].open();
    if (levels > 1) {
      arpc::context l2; Alive a2(c, 2);
      if (levels > 2) { arpc::context l3; Alive a3(c, 3); if (wait) MC_CHECK(how([&] { arpc::wait(arpc::never()); }) == "cancelled", "wrong-end", ""); }
    }
    if (wait && levels < 3) MC_CHECK(how([&] { arpc::wait(arpc::never()); }) == "cancelled", "wrong-end", "");
  });
  std::optional<std::thread> th2;
  if (direct) th2.emplace([&] {
    arpc::context l1(*base);
    Alive a1(c, 1);
    ready[1].open();
    sched::point("there");
  });
  ready[0].wait(); if (direct) ready[1].wait();
  group.reset();
  none(c, 1, "group");
  th.join(); if (th2) th2->join();
  MC_CHECK(vos::open_count() <= fds0 - 2, "leaked", "");
  mc::nontrivial();
}

MC_SCENARIO("chain", 4, 5) {
  // A chain of contexts whose members are destroyed by different threads: no member may go before those below it.
  warm();
  Census c;
  struct Level { std::unique_ptr<arpc::context> p; };
  auto top = std::make_unique<arpc::context>(arpc::context::current(), false);
  auto mid = std::make_unique<arpc::context>(*top, false);
  auto low = std::make_unique<arpc::context>(*mid, false);
  { sched::Ignore ig; c.alive[1] = c.alive[2] = 1; }
  int shape = mc::choose(3, "shape");
  // Each thread destroys one; the destructors above have to wait.
  std::thread t1([&] { if (shape == 2) sched::wait_quiet(); { sched::Ignore ig; c.alive[2]--; } low.reset(); });
  std::optional<std::thread> t2;
  if (shape != 1) t2.emplace([&] { mid.reset(); none(c, 2, "middle"); { sched::Ignore ig; c.alive[1]--; } });
  if (shape == 1) { mid.reset(); none(c, 2, "middle"); { sched::Ignore ig; c.alive[1]--; } }
  top.reset();
  none(c, 2, "top");
  t1.join(); if (t2) t2->join();
  mc::nontrivial();
}

MC_SCENARIO("last-one-out", 4, 5) {
  // The parent goes away as soon as its last child has left: the child's destructor must be done with it.
  warm();
  auto parent = std::make_unique<arpc::context>(arpc::context::current(), false);
  int kids = 1 + mc::choose(2, "children");
  std::vector<std::unique_ptr<arpc::context>> k;
  for (int i = 0; i < kids; i++) k.push_back(std::make_unique<arpc::context>(*parent, false));
  std::vector<std::thread> th;
  for (int i = 0; i < kids; i++) th.emplace_back([&, i] { k[i].reset(); });
  parent.reset();
  for (auto& t : th) t.join();
  mc::nontrivial();
}

MC_SCENARIO("shields", 4, 5) {
  // A shield never touches what it was created under after that is gone.
  warm();
  auto parent = std::make_unique<arpc::context>(arpc::context::current(), false);
  auto shielded = std::make_unique<arpc::context>(*parent, false, true);
  auto below = std::make_unique<arpc::context>(*shielded, false);
  int order = mc::choose(3, "order");
  if (order == 0) { parent.reset(); MC_CHECK(!shielded->is_cancelled() && !below->is_cancelled(), "cancelled-wrongly", ""); below.reset(); shielded.reset(); }
  if (order == 1) { std::thread t([&] { below.reset(); }); parent.reset(); shielded.reset(); t.join(); }
  if (order == 2) { std::thread t([&] { below.reset(); shielded.reset(); }); parent.reset(); t.join(); }
  mc::nontrivial();
}

MC_SCENARIO("creating-while-destroying", 3, 4) {
  // A thread goes on creating contexts under its own while that one's parent is being destroyed.
  warm();
  auto group = std::make_unique<arpc::context>(arpc::context::current(), false);
  Gate ready;
  Census c;
  std::thread th([&] {
    arpc::context mine(*group);
    Alive a(c, 1);
    ready.open();
    for (int i = 0; i < 2; i++) {
      arpc::context in;
      arpc::context* here = &arpc::context::current();
      MC_CHECK(here == &in, "wrong-current", "");
      arpc::context in2;
      if (in.is_cancelled()) MC_CHECK(in2.is_cancelled(), "not-cancelled", "");
    }
    MC_CHECK(how([&] { arpc::wait(arpc::never()); }) == "cancelled", "wrong-end", "");
  });
  ready.wait();
  group.reset();
  none(c, 1, "group");
  th.join();
  mc::nontrivial();
}

MC_SCENARIO("innermost", 0, 0) {
  // Every nesting of contexts, shields and unset contexts, left in order: the current one is the innermost set one.
  warm();
  sched::NoPreempt np;
  std::vector<std::pair<std::unique_ptr<arpc::context>, bool>> st;
  auto expected = [&]() -> arpc::context* { for (size_t i = st.size(); i-- > 0;) if (st[i].second) return st[i].first.get(); return &arpc::context::top(); };
  int depth = mc::tier_pick(7, 9);
  for (int i = 0; i < depth; i++) {
    int op = mc::choose(4, "op");
    if (op == 0) { if (st.empty()) mc::prune(); st.pop_back(); }
    else st.emplace_back(op == 3 ? std::make_unique<arpc::shield>() : std::make_unique<arpc::context>(arpc::context::current(), op == 1), op != 2);
    MC_CHECK(&arpc::context::current() == expected(), "wrong-current", "step " + std::to_string(i));
  }
  while (!st.empty()) { st.pop_back(); MC_CHECK(&arpc::context::current() == expected(), "wrong-current", "leaving"); }
  mc::nontrivial();
}

MC_SCENARIO("current-per-thread", 2, 3) {
  // Each thread has its own current context.
  warm();
  arpc::context here;
  auto work = [&](arpc::context* base) {
    MC_CHECK(&arpc::context::current() == &arpc::context::top(), "wrong-current", "a plain thread starts at the top");
    for (int i = 0; i < 2; i++) {
      arpc::context a(*base);
      MC_CHECK(&arpc::context::current() == &a, "wrong-current", "");
      { arpc::context b; MC_CHECK(&arpc::context::current() == &b, "wrong-current", ""); }
      MC_CHECK(&arpc::context::current() == &a, "wrong-current", "");
    }
    MC_CHECK(&arpc::context::current() == &arpc::context::top(), "wrong-current", "after leaving");
  };
  std::thread a([&] { work(&here); });
  std::thread b([&] { work(&arpc::context::top()); });
  MC_CHECK(&arpc::context::current() == &here, "wrong-current", "");
  a.join(); b.join();
  MC_CHECK(&arpc::context::current() == &here, "wrong-current", "");
  mc::nontrivial();
}

MC_SCENARIO("threads", 4, 5) {
  // Threads of the library: body runs once, in a context of its own under the one that started it; it ends quietly when cancelled or late.
  warm();
  size_t heap0; int fds0;
  bool daemon = mc::choose(2, "daemon");
  int ends = mc::choose(5, "ends");
  bool moved = mc::choose(2, "moved");
  {
    arpc::context here;
    { sched::Ignore ig; heap0 = sched::heap_live(); } fds0 = vos::open_count();
    int ran = 0, arg = 0;
    arpc::context* inside = nullptr;
    arpc::context* own = nullptr;
    auto body = [&](int x, std::unique_ptr<int> y) {
      { sched::Ignore ig; ran++; arg = x * 10 + *y; inside = &arpc::context::current(); }
      MC_CHECK(inside != &here && inside != &arpc::context::top(), "wrong-current", "in the thread");
      if (ends == 1) throw arpc::errors::cancelled("x");
      if (ends == 2) throw arpc::errors::deadline_exceeded("x");
      if (ends == 3) arpc::wait(arpc::never());
      if (ends == 4) { arpc::context::current().set_timeout(ms(1)); arpc::wait(arpc::never()); }
    };
    auto run = [&](auto t) {
      own = &t.get_context();
      MC_CHECK(own != &here, "wrong-current", "thread's own");
      if (moved) { auto u = std::move(t); MC_CHECK(&u.get_context() == own, "moved", ""); if (ends == 3) u.get_context().cancel(); MC_CHECK(u.joinable() && !t.joinable(), "moved", ""); u.join(); }
      else { if (ends == 3) { if (daemon) t.get_context().cancel(); else here.cancel(); } t.join(); }
    };
    if (daemon) run(arpc::daemon_thread(body, 4, std::make_unique<int>(2))); else run(arpc::thread(body, 4, std::make_unique<int>(2)));
    MC_CHECK(ran == 1 && arg == 42, "not-run", "");
    MC_CHECK(inside != own, "wrong-current", "the thread needs a context of its own");
    MC_CHECK(&arpc::context::current() == &here, "wrong-current", "");
    MC_CHECK(vos::open_count() == fds0, "leaked", "descriptors");
    MC_CHECK(here.is_cancelled() == (ends == 3 && !moved && !daemon), "cancelled-wrongly", "");
  }
  mc::nontrivial();
}

MC_SCENARIO("scale", 0, 1) {
  // Many children that end in any order, and one that stays longest: its parent's end waits for it.
  warm(); sched::opt().max_steps = 4000000; sched::opt().timers = false; sched::opt().free_switch = false;
  int n = 1 + amount(mc::tier_pick(24, 40), mc::tier_pick(257, 513), "children"), last = n <= 12 ? mc::choose(n, "last") : std::vector<int>{0, 1, n / 2, n - 2, n - 1}[mc::choose(5, "last")], order = mc::choose(3, "order");
  auto group = std::make_unique<arpc::context>(arpc::context::top(), false);
  std::vector<std::unique_ptr<arpc::context>> c;
  { sched::NoPreempt np; for (int i = 0; i < n; i++) c.push_back(std::make_unique<arpc::context>(*group, false)); }
  bool ended = false, left = false;
  std::thread th([&] {
    group.reset();
    sched::Ignore ig;
    MC_CHECK(left, "ended-early", "a context ended before its child");
    ended = true;
  });
  sleep_us(1000);
  {
    sched::NoPreempt np;
    for (int i = 0; i < n; i++) { int k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 2 < n ? i * 2 : (i - (n + 1) / 2) * 2 + 1); if (k != last) c[k].reset(); }
  }
  sched::wait_quiet();
  { sched::Ignore ig; MC_CHECK(!ended, "ended-early", "with a child left"); left = true; }
  c[last].reset();
  th.join();
  mc::nontrivial();
}
