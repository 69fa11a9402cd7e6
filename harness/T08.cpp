// T08: a thread pool runs every accepted task exactly once.
#include "arpc/executor.h"
#include "arpc/semaphore.h"
#include "ah.h"
using namespace ah;

namespace {
struct Board {
  static constexpr int kMax = 8;
  int runs[kMax] = {}, accepted[kMax] = {}, running = 0, most = 0, dropped[kMax] = {};
  arpc::semaphore finished{100};
};
// Owned by a task: shows when the pool lets go of it.
struct Token {
  Board* b; int id;
  Token(Board* b, int id) : b(b), id(id) {}
  Token(Token&& o) : b(o.b), id(o.id) { o.b = nullptr; }
  ~Token() { if (b) { sched::Ignore ig; b->dropped[id]++; } }
};
struct TaskError {};
auto task(Board& b, int id, int kind) {
  return [&b, t = Token(&b, id), kind]() mutable {
    {
      sched::Ignore ig;
      MC_CHECK(t.b == &b, "empty-task", "the task was run after it had been moved away");
      b.runs[t.id]++; b.running++; b.most = std::max(b.most, b.running);
      MC_CHECK(b.runs[t.id] == 1, "run-twice", "task " + std::to_string(t.id));
    }
    sched::point("task");
    { sched::Ignore ig; b.running--; }
    if (kind == 3) { arpc::wait(arpc::never()); }        // until the pool goes away
    { sched::NoPreempt np; b.finished.maybe_put(); }
    if (kind == 1) throw TaskError();
    if (kind == 2) throw arpc::errors::cancelled("task");
  };
}
void check_all(Board& b, int n, bool drained) {
  for (int i = 0; i < n; i++) {
    MC_CHECK(b.runs[i] <= b.accepted[i], "rejected-but-run", "task " + std::to_string(i));
    if (drained) MC_CHECK(b.runs[i] == b.accepted[i], "not-run", "task " + std::to_string(i));
    MC_CHECK(b.dropped[i] == 1, b.dropped[i] ? "destroyed-twice" : "leaked", "task " + std::to_string(i));
  }
}
}  // namespace

static void work(int submitters, int each, int bound_workers) {
  warm();
  size_t heap0;
  {
    Board b;
    heap0 = sched::heap_live();
    int workers = 1 + mc::choose(bound_workers, "workers");
    static const int kQ[] = {1, 0, -1};
    int qs = mc::pick(kQ, "queue size");
    std::unique_ptr<arpc::thread_pool> pool;
    { sched::NoPreempt np; pool = std::make_unique<arpc::thread_pool>(workers, qs); }
    // Workers may be idle already or still starting.
    if (mc::choose(2, "idle")) sched::wait_quiet();
    int kinds[Board::kMax];
    int n = submitters * each;
    for (int i = 0; i < n; i++) kinds[i] = i == 0 ? mc::choose(3, "kind") : 0;
    std::vector<std::thread> th;
    auto submit = [&](int s) {
      for (int i = s * each; i < (s + 1) * each; i++) {
        std::string r = how([&] { pool->run(task(b, i, kinds[i])); });
        MC_CHECK(r == "ok", "submission-failed", r);
        sched::Ignore ig;
        b.accepted[i] = 1;
      }
    };
    for (int s = 1; s < submitters; s++) th.emplace_back([&, s] { submit(s); });
    submit(0);
    for (int i = 0; i < n; i++) b.finished.get();       // a lost task shows as a deadlock
    for (auto& t : th) t.join();
    MC_CHECK(b.most <= workers, "too-many-at-once", "");
    sched::wait_quiet();
    for (int i = 0; i < n; i++) MC_CHECK(b.dropped[i] == 1, "kept", "the pool still keeps task " + std::to_string(i) + ", which it has run");
    pool.reset();
    check_all(b, n, true);
    mc::outcome(b.most);
  }
  mc::nontrivial();
}
MC_SCENARIO("one-submitter", 1, 2) { work(1, 2, 2); }
MC_SCENARIO("two-submitters", 1, 2) { work(2, 1, 2); }
MC_SCENARIO("two-submitters-one-worker", 2, 3) { work(2, 1, 1); }
MC_SCENARIO("two-submitters-twice", 1, 2, true) { work(2, 2, 2); }

MC_SCENARIO("destroyed-with-work", 1, 2) {
  // The pool goes away with tasks running, queued or being handed over: nothing runs twice, everything is released.
  warm();
  Board b;
  int workers = 1 + mc::choose(2, "workers");
  int n = 1 + mc::choose(3, "tasks");
  size_t heap0 = sched::heap_live();
  int fds0 = vos::open_count();
  {
    std::unique_ptr<arpc::thread_pool> pool;
    { sched::NoPreempt np; pool = std::make_unique<arpc::thread_pool>(workers, -1); }
    if (mc::choose(2, "idle")) sched::wait_quiet();
    bool block = mc::choose(2, "first blocks");
    for (int i = 0; i < n; i++) { pool->run(task(b, i, i == 0 && block ? 3 : 0)); b.accepted[i] = 1; }
    if (mc::choose(2, "running")) sched::wait_quiet();
    pool.reset();
  }
  check_all(b, n, false);
  MC_CHECK(sched::live() == 1, "thread-left", sched::describe());
  MC_CHECK(vos::open_count() == fds0, "leaked", "descriptors");
  MC_CHECK(sched::heap_live() <= heap0, "leaked", std::to_string(sched::heap_live() - heap0) + " bytes");
  int done = 0;
  for (int i = 0; i < n; i++) done += b.runs[i];
  mc::outcome(done);
  mc::nontrivial();
}

MC_SCENARIO("destroyed-with-dependent-tasks", 1, 2) {
  // Destruction cancels every running task, whatever the others are doing: a task that waits for another one does not block it.
  warm();
  Board b;
  int first = mc::choose(2, "first");
  arpc::flag done;
  std::unique_ptr<arpc::thread_pool> pool;
  { sched::NoPreempt np; pool = std::make_unique<arpc::thread_pool>(2, -1); sched::wait_quiet(); }
  for (int i = 0; i < 2; i++) {
    if (i == first) pool->run([&] { try { arpc::wait(arpc::never()); } catch (const arpc::errors::cancelled&) { sched::Ignore ig; b.runs[0]++; } done.set(); });
    else pool->run([&] { try { arpc::shield s; done.wait(); } catch (...) { return; } sched::Ignore ig; b.runs[1]++; });
  }
  sched::wait_quiet();
  pool.reset();
  MC_CHECK(b.runs[0] == 1 && b.runs[1] == 1, "not-run", "");
  MC_CHECK(sched::live() == 1, "thread-left", sched::describe());
  mc::nontrivial();
}
MC_SCENARIO("submitter-cancelled", 2, 3) {
  // The pool is busy; a submitter that gives up has submitted nothing.
  warm();
  Board b;
  std::unique_ptr<arpc::thread_pool> pool;
  { sched::NoPreempt np; pool = std::make_unique<arpc::thread_pool>(1, 1); }
  arpc::flag gate;
  {
    sched::NoPreempt np;
    pool->run([&] { gate.wait(); });
    sched::wait_quiet();
    pool->run(task(b, 0, 0)); b.accepted[0] = 1;
    sched::wait_quiet();
  }
  arpc::context group(arpc::context::current(), false);
  int end = mc::choose(3, "end");   // cancelled, expired, cancelled before
  if (end == 2) group.cancel();
  std::string r;
  std::thread s([&] {
    arpc::context mine(group);
    if (end == 1) mine.set_timeout(ms(1));
    r = how([&] { pool->run(task(b, 1, 0)); });
    if (r == "ok") { sched::Ignore ig; b.accepted[1] = 1; }
  });
  if (mc::choose(2, "waiting")) sched::wait_quiet();
  bool open_first = mc::choose(2, "open first");
  if (open_first) gate.set();
  if (end == 0) group.cancel();
  if (end == 1) sched::sleep_ms(2);
  s.join();
  if (!open_first) gate.set();
  MC_CHECK(r == "ok" || r == (end == 1 ? "deadline" : "cancelled"), "wrong-end", r);
  if (!open_first || end == 2) MC_CHECK(r != "ok" || b.accepted[1], "wrong-end", r);
  b.finished.get();
  if (b.accepted[1]) b.finished.get();
  sched::wait_quiet();
  pool.reset();
  check_all(b, 2, true);
  mc::outcome(r);
  mc::nontrivial();
}

MC_SCENARIO("tasks-submit-tasks", 1, 2) {
  // Tasks put more work into the same pool.
  warm();
  Board b;
  int workers = 1 + mc::choose(2, "workers");
  std::unique_ptr<arpc::thread_pool> pool;
  { sched::NoPreempt np; pool = std::make_unique<arpc::thread_pool>(workers, -1); }
  b.accepted[0] = b.accepted[1] = 1;
  pool->run([&] { pool->run(task(b, 0, 0)); pool->run(task(b, 1, 0)); });
  b.finished.get(); b.finished.get();
  sched::wait_quiet();
  pool.reset();
  check_all(b, 2, true);
  mc::nontrivial();
}

MC_SCENARIO("synchronous", 0, 0) {
  warm();
  Board b;
  arpc::synchronous_executor x;
  int kind = mc::choose(3, "kind");
  bool threw = false;
  int me = sched::self(), ran_in = -1;
  try { x.run([&, t = task(b, 0, kind)]() mutable { ran_in = sched::self(); t(); }); } catch (const TaskError&) { threw = true; } catch (const arpc::errors::cancelled&) { threw = true; }
  MC_CHECK(b.runs[0] == 1 && ran_in == me && threw == (kind > 0), "wrong-outcome", "");
  mc::nontrivial();
}

MC_SCENARIO("scale", 0, 0) {
  // Many tasks, submitted by one thread and by tasks, on one to four workers.
  warm(); sched::opt().max_steps = 4000000;
  sched::opt().timers = false; sched::opt().free_switch = false;
  int n = amount(mc::tier_pick(24, 64), mc::tier_pick(257, 1025), "tasks"), workers = 1 + mc::choose(4, "workers"), each = mc::choose(2, "submitted by tasks");
  std::vector<int> runs(n), order;
  arpc::semaphore finished{size_t(n) + 1};
  {
    arpc::thread_pool x(workers, mc::choose(2, "limited queue") ? 1 + n : -1);
    sched::NoPreempt np;
    auto run = [&](int i) { sched::Ignore ig; runs[i]++; order.push_back(i); };
    for (int i = 0; i < n; i += 1 + each)
      x.run([&, i] { run(i); if (each && i + 1 < n) x.run([&, i] { run(i + 1); finished.put(); }); finished.put(); });
    for (int i = 0; i < n; i++) finished.get();
  }
  for (int i = 0; i < n; i++) MC_CHECK(runs[i] == 1, runs[i] ? "run-twice" : "not-run", "task " + std::to_string(i) + " of " + std::to_string(n));
  mc::nontrivial();
}
