// E03: an object is never used after it was withdrawn from its guard.
#include "arpc/usage_lock.h"
#include "mc.h"
#include "msched.h"

#include <optional>
#include <thread>
#include <vector>

namespace {
struct Object {
  explicit Object(int id) : id(id), alive(1) {}
  ~Object() { alive = 0; }
  int id, alive;
  // A use: reads the object at two separate moments.
  void use() const {
    int a = alive;
    sched::point("use");
    int b = alive;
    MC_CHECK(a == 1 && b == 1, "used-after-withdrawal", "the object was destroyed while a user held it");
  }
};
using Lock = arpc::usage_lock<Object>;
using Handle = decltype(std::declval<Lock&>().get_or_null());
// Bookkeeping that the threads under test do not synchronise on.
struct Book {
  int offered = 0;      // id of the object that is offered (0: none): set after arm returns, cleared before drop is called
  int withdrawn = 0;    // the largest id whose withdrawal has returned
  int inside = 0;       // users holding a handle
};
}  // namespace

static void take(Lock& l, Book& b, bool throwing, int rounds) {
  for (int i = 0; i < rounds; i++) {
    int w0, o0;
    { sched::Ignore ig; w0 = b.withdrawn; o0 = b.offered; }
    Handle h;
    if (throwing) { try { h = l.get(); } catch (const arpc::errors::unavailable& e) { MC_CHECK(std::string(e.what()) == "gone", "wrong-message", e.what()); } }
    else h = l.get_or_null();
    if (h) {
      MC_CHECK(h->id > w0, "handle-after-withdrawal", "access was given to an object whose withdrawal had returned");
      { sched::Ignore ig; b.inside++; }
      h->use();
      { sched::Ignore ig; b.inside--; MC_CHECK(b.withdrawn < h->id, "withdrawal-did-not-wait", "a withdrawal returned while a user was inside"); }
      mc::outcome(h->id);
      h.reset();
    } else {
      sched::Ignore ig;
      MC_CHECK(!(o0 && b.offered == o0), "not-offered", "an offered object was reported as gone");
      mc::outcome("none");
    }
  }
}
static void withdraw(Lock& l, Book& b, int id) {
  { sched::Ignore ig; b.offered = 0; }
  l.drop();
  { sched::Ignore ig; b.withdrawn = std::max(b.withdrawn, id); MC_CHECK(b.inside == 0, "withdrawal-did-not-wait", "a withdrawal returned while a user was inside"); }
}

MC_SCENARIO("users-and-withdrawal", 3, 4) {
  Book b;
  Lock l("gone");
  auto* o1 = new Object(1);
  l.arm(o1);
  b.offered = 1;
  int users = 1 + mc::choose(2, "users");
  std::vector<std::thread> t;
  for (int i = 0; i < users; i++) t.emplace_back([&, i] { take(l, b, i == 1, mc::tier_pick(1, 2)); });
  withdraw(l, b, 1);
  delete o1;
  auto* o2 = new Object(2);
  bool again = mc::choose(2, "again");
  if (again) { l.arm(o2); { sched::Ignore ig; b.offered = 2; } }
  else MC_CHECK(!l.get_or_null(), "handle-after-withdrawal", "");
  if (again && mc::choose(2, "withdraw again")) withdraw(l, b, 2);
  for (auto& x : t) x.join();
  if (again) withdraw(l, b, 2);
  delete o2;
  mc::nontrivial();
}

MC_SCENARIO("destroy-with-users-inside", 3, 4) {
  // The guard is destroyed by its owner while users hold handles they took before.
  auto* o = new Object(1);
  auto* l = new Lock("gone");
  l->arm(o);
  int users = 1 + mc::choose(2, "users");
  Handle h[2];
  for (int i = 0; i < users; i++) h[i] = l->get();
  std::vector<std::thread> t;
  for (int i = 0; i < users; i++) t.emplace_back([hh = std::move(h[i])]() mutable { hh->use(); hh.reset(); });
  if (mc::choose(2, "drop first")) l->drop();
  delete l;
  delete o;
  for (auto& x : t) x.join();
  mc::nontrivial();
}

MC_SCENARIO("two-withdrawers", 3, 4) {
  Book b;
  Lock l("gone");
  auto* o = new Object(1);
  l.arm(o);
  b.offered = 1;
  std::thread u([&] { take(l, b, false, 1); });
  std::thread w([&] {
    { sched::Ignore ig; b.offered = 0; }
    l.drop();
    { sched::Ignore ig; MC_CHECK(b.inside == 0, "withdrawal-did-not-wait", "a withdrawal returned while a user was inside"); }
  });
  withdraw(l, b, 1);
  w.join();
  delete o;
  MC_CHECK(!l.get_or_null(), "handle-after-withdrawal", "");
  u.join();
  mc::nontrivial();
}

MC_SCENARIO("offer-and-use", 3, 4) {
  // Users that arrive before, during and after the offer; withdrawal by a third thread.
  Book b;
  Lock l("gone");
  auto* o = new Object(1);
  std::thread u([&] { take(l, b, true, mc::tier_pick(2, 3)); });
  std::thread w([&] { l.arm(o); { sched::Ignore ig; b.offered = 1; } });
  w.join();
  withdraw(l, b, 1);
  delete o;
  u.join();
  mc::nontrivial();
}

MC_SCENARIO("handles-are-shared", 0, 0) {
  // All single-threaded histories: handles may be copied, kept and dropped in any order.
  Object o1(1), o2(2);
  Object* cur = nullptr;
  std::optional<Lock> l;
  if (mc::choose(2, "armed at construction")) { l.emplace(&o1, "gone"); cur = &o1; } else l.emplace("gone");
  std::vector<Handle> hs;
  int depth = mc::tier_pick(6, 8);
  for (int i = 0; i < depth; i++) {
    switch (mc::choose(5, "op")) {
      case 0: {
        Handle h = l->get_or_null();
        MC_CHECK(h.get() == cur, "wrong-object", "get_or_null");
        if (h) hs.push_back(h);
        break;
      }
      case 1:
        try { Handle h = l->get(); MC_CHECK(h.get() == cur && cur, "wrong-object", "get"); hs.push_back(h); }
        catch (const arpc::errors::unavailable&) { MC_CHECK(!cur, "wrong-object", "get threw"); }
        break;
      case 2: if (!hs.empty()) hs.pop_back(); else mc::prune(); break;
      case 3:
        if (!hs.empty()) mc::prune();   // would wait for ever
        l->drop(); cur = nullptr; break;
      case 4:
        if (!hs.empty()) mc::prune();
        cur = cur == &o1 ? &o2 : &o1;
        l->arm(cur);
        break;
    }
    mc::state(mc::hash_bytes(&i, sizeof i, (cur ? cur->id : 0) * 100 + hs.size()));
  }
  hs.clear();
  mc::nontrivial();
}

MC_SCENARIO("scale", 0, 0) {
  // Many handles at a time: the withdrawal waits for the last one, whichever that is.
  sched::opt().max_steps = 4000000;
  int n = 1 + mc::amount(mc::tier_pick(24, 40), mc::tier_pick(1025, 4097), "handles"), last = n <= 12 ? mc::choose(n, "last") : std::vector<int>{0, 1, n / 2, n - 2, n - 1}[mc::choose(5, "last")];
  bool shared = mc::choose(2, "copied");
  Lock l("gone");
  auto* o = new Object(1);
  l.arm(o);
  std::vector<Handle> h;
  { sched::NoPreempt np; for (int i = 0; i < n; i++) h.push_back(shared && i % 2 ? h[i - 1] : l.get()); }
  bool done = false, left = false;
  std::thread w([&] { l.drop(); { sched::Ignore ig; MC_CHECK(left, "withdrawal-did-not-wait", std::to_string(n)); done = true; } delete o; });
  sched::wait_quiet();
  { sched::NoPreempt np; for (int i = 0; i < n; i++) if (i != last) { h[i]->use(); h[i].reset(); } }
  sched::wait_quiet();
  { sched::Ignore ig; MC_CHECK(!done, "withdrawal-did-not-wait", std::to_string(n)); left = true; }
  MC_CHECK(!l.get_or_null(), "handle-after-withdrawal", "");
  h[last]->use();
  h[last].reset();
  w.join();
  mc::nontrivial();
}
