// T04: a promise completes its future exactly once.
#include "arpc/future.h"
#include "ah.h"
using namespace ah;

namespace {
struct Custom : std::runtime_error { using std::runtime_error::runtime_error; };
// What a promise is completed with.
enum How { kValue, kError, kStd, kTryAgain, kCancelled, kHolderValue, kHolderError, kDestroy, kReplace, kMovedAway, kNothing, kHows };
template <typename T> T make_value(int n) {
  if constexpr (std::is_same_v<T, int>) return n;
  else if constexpr (std::is_same_v<T, std::string>) return "a value too long for the small buffer " + std::to_string(n);
  else return std::make_unique<int>(n);
}
template <typename T> int value_of(T&& v) {
  using U = std::decay_t<T>;
  if constexpr (std::is_same_v<U, int>) return v;
  else if constexpr (std::is_same_v<U, std::string>) { int n = -1; sscanf(v.c_str(), "a value too long for the small buffer %d", &n); return n; }
  else { if (!v) mc::fail("wrong-value", "empty pointer"); return *v; }
}
std::exception_ptr exc(int h) {
  switch (h) {
    case kError: case kHolderError: return std::make_exception_ptr(Custom("custom"));
    case kStd: return std::make_exception_ptr(std::out_of_range("range"));
    case kTryAgain: return std::make_exception_ptr(arpc::errors::try_again("busy"));
    default: return std::make_exception_ptr(arpc::errors::cancelled("remote"));
  }
}
// The outcome a reader must see.
std::string want(int h) {
  switch (h) {
    case kValue: case kHolderValue: return "value 7";
    case kError: case kHolderError: return "other:custom";
    case kStd: return "other:range";
    case kTryAgain: return "again:busy";
    case kCancelled: return "cancelled:remote";
    case kDestroy: case kReplace: return "error:invalid_state:Broken promise";
    default: return "";
  }
}
template <typename T, typename P>
void complete(std::unique_ptr<P>& p, int h, std::unique_ptr<P>* keep = nullptr) {
  switch (h) {
    case kValue: if constexpr (std::is_void_v<T>) p->set_value(); else p->set_value(make_value<T>(7)); break;
    case kError: case kStd: case kTryAgain: case kCancelled: p->set_exception(exc(h)); break;
    case kHolderValue: if constexpr (!std::is_void_v<T>) { arpc::result_holder<T> r; r.set_value(make_value<T>(7)); p->set(std::move(r)); } else p->set_value(); break;
    case kHolderError: if constexpr (!std::is_void_v<T>) { arpc::result_holder<T> r; r.set_exception(exc(h)); p->set(std::move(r)); } else p->set_exception(exc(h)); break;
    case kDestroy: p.reset(); break;
    case kReplace: *p = P(); break;
    case kMovedAway: { auto q = std::make_unique<P>(std::move(*p)); p.reset(); *keep = std::move(q); break; }
    default: break;
  }
}
template <typename F>
std::string outcome_of(F&& f) {
  std::string what, v;
  std::string r = how([&] { v = f(); }, &what);
  if (r == "ok") return v;
  return r.rfind("other:", 0) == 0 ? r : r + ":" + what;
}
template <typename Fut>
std::string read(Fut& f, int way) {
  return outcome_of([&]() -> std::string {
    using T = typename Fut::value_type;
    if (way == 0) {
      if constexpr (std::is_void_v<T>) { f.get(); return "value 7"; } else return "value " + std::to_string(value_of(f.get()));
    } else if (way == 5) {   // polls first
      try {
        if constexpr (std::is_void_v<T>) { f.maybe_get(); return "value 7"; } else return "value " + std::to_string(value_of(f.maybe_get()));
      } catch (const arpc::errors::try_again&) {}
      if constexpr (std::is_void_v<T>) { f.get(); return "value 7"; } else return "value " + std::to_string(value_of(f.get()));
    } else if (way == 1) {
      auto [x, t] = arpc::select(f.async_get(), arpc::timeout(ms(50)));
      if (!x) { MC_CHECK(t, "nothing-reported", ""); return "timeout"; }
      if constexpr (std::is_void_v<T>) { *x; return "value 7"; } else return "value " + std::to_string(value_of(std::move(*x)));
    } else {
      arpc::wait(f.can_get());
      if constexpr (std::is_void_v<T>) { f.maybe_get(); return "value 7"; } else return "value " + std::to_string(value_of(f.maybe_get()));
    }
  });
}
}  // namespace

template <typename T>
static void race() {
  // One thread completes the promise in some way, another reads or drops the future in some way.
  warm(); sched::opt().timers = false;
  size_t heap0 = sched::heap_live();
  {
    auto p = std::make_unique<arpc::promise<T>>();
    std::unique_ptr<arpc::promise<T>> kept;
    auto f = std::make_unique<arpc::future<T>>(p->get_future());
    int h = mc::choose(kHows, "completion");
    int reader = mc::choose(6, "reader");   // 3: drops the future, 4: moves it first, 5: polls it first
    if ((reader == 1 || reader == 5) && h == kTryAgain) mc::prune();   // inside a wait that exception means "not yet"
    int where = mc::choose(3, "context of the writer");
    bool writes = h != kMovedAway && h != kNothing;
    std::string r;
    std::thread w([&] {
      arpc::context c;
      if (where == 1) c.cancel();
      if (where == 2) c.set_timeout(ms(0));
      std::string e = how([&] { complete<T>(p, h, &kept); });
      MC_CHECK(e == "ok", "completion-failed", e);
    });
    if (reader == 3) f.reset();
    else {
      arpc::context c;
      if (!writes) c.set_timeout(ms(20));
      auto g = std::make_unique<arpc::future<T>>();
      if (reader == 4) { *g = std::move(*f); f.swap(g); }
      r = read(*f, reader == 4 ? 0 : reader);
      if (writes) MC_CHECK(r == want(h), "wrong-outcome", r + " instead of " + want(h));
      else MC_CHECK(r == "deadline:Deadline exceeded", "wrong-outcome", r + " although nothing was set");
    }
    w.join();
    if (writes && (h == kValue || h == kError || h == kHolderValue)) {
      std::string again = how([&] { if constexpr (std::is_void_v<T>) p->set_value(); else p->set_value(make_value<T>(9)); });
      MC_CHECK(again == "error:invalid_state", "completed-twice", again);
    }
    if (h == kReplace && reader != 3) {
      auto f2 = p->get_future();
      complete<T>(p, kValue);
      MC_CHECK(read(f2, 0) == "value 7", "wrong-outcome", "of the replacement");
    }
    mc::outcome(r);
  }
  MC_CHECK(sched::heap_live() == heap0, "leaked", std::to_string(sched::heap_live() - heap0) + " bytes");
  MC_CHECK(vos::open_count() <= 2, "leaked", "descriptors");
  mc::nontrivial();
}
MC_SCENARIO("race-int", 3, 5) { race<int>(); }
MC_SCENARIO("race-string", 1, 2) { race<std::string>(); }
MC_SCENARIO("race-pointer", 3, 4) { race<std::unique_ptr<int>>(); }
MC_SCENARIO("race-void", 2, 3) { race<void>(); }

MC_SCENARIO("two-waiters", 3, 5) {
  // Every thread that waits for the future is woken.
  warm(); sched::opt().timers = false;
  auto p = std::make_unique<arpc::promise<int>>();
  auto f = p->get_future();
  int h = mc::choose(kReplace + 1, "completion");
  std::thread a([&] { arpc::wait(f.can_get()); });
  std::thread b([&] { auto [x, y] = arpc::select(f.can_get(), arpc::never()); MC_CHECK(x && !y, "wrong-event", ""); });
  complete<int>(p, h);
  a.join(); b.join();
  std::string r = read(f, 2);
  MC_CHECK(r == want(h), "wrong-outcome", r);
  mc::nontrivial();
}

template <typename T>
static void histories() {
  // One thread, any order of operations on one promise and its future.
  warm(); sched::opt().timers = false;
  size_t heap0 = sched::heap_live();
  {
    auto p = std::make_unique<arpc::promise<T>>();
    std::unique_ptr<arpc::promise<T>> q;
    std::unique_ptr<arpc::future<T>> f;
    bool taken = false;     // get_future was called
    std::string done;       // the outcome it was completed with
    bool consumed = false;
    int depth = mc::tier_pick(4, 6);
    arpc::context c;
    if (mc::choose(2, "over")) c.cancel(); else c.set_timeout(ms(0));
    bool over = c.is_cancelled();
    for (int i = 0; i < depth; i++) {
      switch (mc::choose(8, "op")) {
        case 0: {
          if (!p) mc::prune();
          int h = mc::choose(kNothing, "completion");
          bool set = h < kDestroy;
          if (h == kMovedAway && q) mc::prune();
          std::string e = how([&] { complete<T>(p, h, &q); });
          if (set && !done.empty()) MC_CHECK(e == "error:invalid_state", "completed-twice", e);
          else MC_CHECK(e == "ok", "completion-failed", e);
          if (h == kMovedAway) { p = std::move(q); }
          else if (done.empty()) done = want(h);
          if (h == kReplace) {   // now about the replacement
            if (taken && f && !consumed && !(over && done == want(kTryAgain))) {
              std::string r = outcome_of([&]() -> std::string { if constexpr (std::is_void_v<T>) { f->maybe_get(); return "value 7"; } else return "value " + std::to_string(value_of(f->maybe_get())); });
              MC_CHECK(r == done, "wrong-outcome", r + " instead of " + done);
            }
            f.reset(); taken = false; consumed = false; done = "";
          }
          break;
        }
        case 1: {
          if (!p) mc::prune();
          auto g = std::make_unique<arpc::future<T>>(p->get_future());
          if (taken) MC_CHECK(how([&] { g->maybe_get(); }) == "error:invalid_state", "future-twice", "");
          else { f = std::move(g); taken = true; }
          break;
        }
        case 2: {
          if (!f || consumed) mc::prune();
          std::string r = outcome_of([&]() -> std::string { if constexpr (std::is_void_v<T>) { f->maybe_get(); return "value 7"; } else return "value " + std::to_string(value_of(f->maybe_get())); });
          std::string w = done.empty() ? "again:Future not ready yet" : done;
          MC_CHECK(r == w, "wrong-outcome", r + " instead of " + w);
          if (!done.empty()) consumed = true;
          break;
        }
        case 3: {
          if (!f || consumed) mc::prune();
          std::string r = read(*f, 0);
          if (over) MC_CHECK(r == "cancelled:Context is cancelled", "wrong-outcome", r);
          else if (done.empty()) MC_CHECK(r == "deadline:Deadline exceeded", "wrong-outcome", r);
          else { MC_CHECK(r == done, "wrong-outcome", r + " instead of " + done); consumed = true; }
          break;
        }
        case 4: {
          if (!f || consumed) mc::prune();
          bool ready = false;
          std::string r = how([&] { auto [x, t] = arpc::select(f->can_get(), arpc::always()); ready = bool(x); });
          if (over) MC_CHECK(r == "cancelled", "wrong-outcome", r);
          else MC_CHECK(ready == !done.empty(), "wrong-readiness", r);
          break;
        }
        case 5: if (!f) mc::prune(); { auto g = std::make_unique<arpc::future<T>>(std::move(*f)); MC_CHECK(how([&] { f->maybe_get(); }) == "error:invalid_state", "moved-from", ""); f = std::move(g); } break;
        case 6: if (!f) mc::prune(); f.reset(); break;
        case 7: if (!p) mc::prune(); p.reset(); if (done.empty()) done = want(kDestroy); break;
      }
    }
  }
  MC_CHECK(sched::heap_live() == heap0, "leaked", "");
  mc::nontrivial();
}
MC_SCENARIO("histories-int", 0, 0) { histories<int>(); }
MC_SCENARIO("histories-pointer", 0, 0) { histories<std::unique_ptr<int>>(); }
MC_SCENARIO("histories-void", 0, 0) { histories<void>(); }

MC_SCENARIO("continuations", 2, 3) {
  // Chains of continuations, handlers and decorations: each runs at most once, after completion, and passes its outcome on.
  warm(); sched::opt().timers = false;
  size_t heap0 = sched::heap_live();
  {
    auto p = std::make_unique<arpc::promise<int>>();
    auto f0 = p->get_future();
    static const int kH[] = {kValue, kError, kStd, kDestroy, kReplace};
    int h = mc::pick(kH, "completion");
    std::string model = want(h);
    int n = mc::choose(4, "links");
    bool completed = false;
    std::vector<int> runs(n);
    std::vector<int> expect(n);
    int val = 7;
    auto cur = std::make_unique<arpc::future<int>>(std::move(f0));
    for (int i = 0; i < n; i++) {
      int link = mc::choose(6, "link");
      bool ok = model.rfind("value", 0) == 0;
      auto ran = [&runs, &completed, i] { runs[i]++; sched::Ignore ig; MC_CHECK(completed, "ran-too-early", ""); };
      switch (link) {
        case 0: cur = std::make_unique<arpc::future<int>>(cur->then([ran](int v) { ran(); return v * 2; })); if (ok) { val *= 2; model = "value " + std::to_string(val); expect[i] = 1; } break;
        case 1: cur = std::make_unique<arpc::future<int>>(cur->then([ran](int) -> int { ran(); throw Custom("from then"); })); if (ok) { model = "other:from then"; expect[i] = 1; } break;
        case 2: cur = std::make_unique<arpc::future<int>>(cur->except<Custom>([ran](const Custom&) { ran(); return 5; })); if (model.rfind("other:custom", 0) == 0 || model.rfind("other:from", 0) == 0) { val = 5; model = "value 5"; expect[i] = 1; } break;
        case 3: cur = std::make_unique<arpc::future<int>>(cur->except<std::exception>([ran](const std::exception& e) -> int { ran(); throw Custom(std::string("from except")); })); if (!ok) { model = "other:from except"; expect[i] = 1; } break;
        case 4: cur = std::make_unique<arpc::future<int>>(cur->decorate([ran](auto& inner, arpc::detail::future_state_base& s) { ran(); return inner(s) + 1; })); if (ok) { val++; model = "value " + std::to_string(val); } expect[i] = 1; break;
        case 5: cur = std::make_unique<arpc::future<int>>(cur->then([ran](int v) { ran(); return std::make_unique<int>(v); }).then([](std::unique_ptr<int> q) { return *q + 3; })); if (ok) { val += 3; model = "value " + std::to_string(val); expect[i] = 1; } break;
      }
    }
    std::thread w([&] { { sched::Ignore ig; completed = true; } complete<int>(p, h); });
    std::string r = read(*cur, mc::choose(3, "reader"));
    w.join();
    MC_CHECK(r == model, "wrong-outcome", r + " instead of " + model);
    for (int i = 0; i < n; i++) MC_CHECK(runs[i] == expect[i], runs[i] > expect[i] ? "ran-too-often" : "not-run", "link " + std::to_string(i) + " ran " + std::to_string(runs[i]) + " times");
    mc::outcome(r);
  }
  MC_CHECK(sched::heap_live() == heap0, "leaked", "");
  mc::nontrivial();
}

MC_SCENARIO("void-continuations", 0, 1) {
  warm(); sched::opt().timers = false;
  arpc::promise<void> p;
  int got = 0, runs = 0;
  auto f = p.get_future().then([&] { runs++; return 4; }).then([&](int v) { runs++; got = v; }).except<Custom>([&](const Custom&) { runs += 100; });
  bool bad = mc::choose(2, "exception");
  std::thread w([&] { if (bad) p.set_exception(exc(kError)); else p.set_value(); });
  std::string r = how([&] { f.get(); });
  w.join();
  MC_CHECK(r == "ok" && (bad ? runs == 100 && got == 0 : runs == 2 && got == 4), "wrong-outcome", r + std::to_string(runs));
  mc::nontrivial();
}
namespace {
struct Picky {   // copying it fails
  int n = 0;
  Picky() = default;
  explicit Picky(int n) : n(n) {}
  Picky(const Picky& o) { if (o.n < 0) throw Custom("copy"); n = o.n; }
  Picky(Picky&& o) : n(o.n) { if (n < 0) throw Custom("move"); }
  Picky& operator=(const Picky& o) { if (o.n < 0) throw Custom("copy"); n = o.n; return *this; }
  Picky& operator=(Picky&& o) { if (o.n < 0) throw Custom("move"); n = o.n; return *this; }
};
}  // namespace
MC_SCENARIO("value-cannot-be-stored", 1, 2) {
  // Storing the value fails: the caller learns of it and the future is not left hanging.
  warm(); sched::opt().timers = false;
  auto p = std::make_unique<arpc::promise<Picky>>();
  auto f = p->get_future();
  std::string r;
  int then = mc::choose(2, "then");
  std::thread g([&] { r = how([&] { f.get(); }); });
  Picky bad(-1);
  std::string e = how([&] { p->set_value(bad); });
  MC_CHECK(e == "other:copy", "wrong-outcome", e);
  if (then == 0) { Picky good(3); std::string s = how([&] { p->set_value(good); }); MC_CHECK(s == "ok" || s == "error:invalid_state", "wrong-outcome", s); }
  p.reset();
  g.join();
  MC_CHECK(r == "ok" || r == "other:copy" || r == "error:invalid_state", "wrong-outcome", r);
  mc::outcome(r);
  mc::nontrivial();
}

MC_SCENARIO("scale", 0, 0) {
  // Long chains of continuations: the first value comes out at the end, or the first error.
  warm(); sched::opt().max_steps = 4000000; sched::opt().timers = false; sched::NoPreempt np;
  size_t heap0 = sched::heap_live();
  {
    int n = amount(mc::tier_pick(40, 100), mc::tier_pick(257, 1025), "links"), bad = n ? mc::choose(3, "throws") : 0, early = mc::choose(2, "set first");
    int at = bad == 0 ? n : bad == 1 ? 0 : n - 1, runs = 0;
    arpc::promise<int> p;
    auto f = std::make_unique<arpc::future<int>>(p.get_future());
    if (early) p.set_value(1);
    for (int i = 0; i < n; i++)
      f = std::make_unique<arpc::future<int>>(f->then([&runs, i, at](int v) { MC_CHECK(v == i + 1, "wrong-value", ""); runs++; if (i == at) throw Custom("link " + std::to_string(i)); return v + 1; }));
    if (!early) p.set_value(1);
    std::string what; int v = 0;
    std::string e = how([&] { v = f->get(); }, &what);
    if (at < n) MC_CHECK(e == "other:link " + std::to_string(at) && runs == at + 1, "wrong-outcome", e);
    else MC_CHECK(e == "ok" && v == n + 1 && runs == n, "wrong-outcome", e);
  }
  MC_CHECK(sched::heap_live() == heap0, "leaked", "");
  mc::nontrivial();
}
