// T07: chained reactions transform outcomes faithfully.
#include "ah.h"
#include <variant>
using namespace ah;

namespace {
struct Custom : std::runtime_error { using std::runtime_error::runtime_error; };
struct Special : Custom { using Custom::Custom; };
enum Base { kReady, kWritable, kNow, kLater, kPolled, kUnready, kNever };
// The outcome of a firing as text: "v<n>", "" (void), or "x<class>:<what>".
struct Out {
  enum Kind { kVal, kCustom, kSpecial, kStd, kAgain } k = kVal;
  int v = 0;
  std::string what;
};
std::string caught(const std::function<int()>& f) {
  try { return "v" + std::to_string(f()); }
  catch (const Special& e) { return std::string("special:") + e.what(); }
  catch (const Custom& e) { return std::string("custom:") + e.what(); }
  catch (const arpc::errors::try_again& e) { return std::string("again:") + e.what(); }
  catch (const std::exception& e) { return std::string("std:") + e.what(); }
}
[[noreturn]] void raise(Out::Kind k, const std::string& w) {
  switch (k) {
    case Out::kCustom: throw Custom(w);
    case Out::kSpecial: throw Special(w);
    case Out::kAgain: throw arpc::errors::try_again(w);
    default: throw std::out_of_range(w);
  }
}
std::string text(const Out& o) {
  static const char* const n[] = {"v", "custom:", "special:", "std:", "again:"};
  return n[o.k] + (o.k == Out::kVal ? std::to_string(o.v) : o.what);
}
bool is_a(Out::Kind k, Out::Kind handler) {
  if (handler == Out::kStd) return true;            // except<std::exception>
  if (handler == Out::kCustom) return k == Out::kCustom || k == Out::kSpecial;
  return k == handler;
}
struct Log {
  std::vector<int> runs, order;
  explicit Log(size_t n) : runs(n) {}
  void ran(int i) { runs[i]++; order.push_back(i); }
};
// Adds one link to the chain and applies it to the model of the outcome; counts what must have run.
arpc::awaitable<int> link(arpc::awaitable<int>&& a, int kind, int i, Log& log, Out& m, std::vector<int>& expect, uint64_t& fired_at, uint64_t t_due) {
  auto ran = [&log, i, t_due] { log.ran(i); MC_CHECK(us() >= t_due, "ran-too-early", ""); };
  bool ok = m.k == Out::kVal;
  auto handle = [&](Out::Kind h, bool rethrow) {
    if (ok || !is_a(m.k, h)) return;
    expect[i]++;
    if (rethrow) { m.k = Out::kCustom; m.what = "rethrown"; } else { m.k = Out::kVal; m.v = 50 + i; }
  };
  switch (kind) {
    case 0: if (ok) { m.v = m.v * 3 + 1; expect[i]++; } return a.then([ran](int v) { ran(); return v * 3 + 1; });
    case 1: if (ok) { m = {Out::kSpecial, 0, "then"}; expect[i]++; } return a.then([ran](int) -> int { ran(); raise(Out::kSpecial, "then"); });
    case 2: handle(Out::kCustom, false); return a.except<Custom>([ran, i](const Custom&) { ran(); return 50 + i; });
    case 3: handle(Out::kSpecial, false); return a.except<Special>([ran, i](const Special&) { ran(); return 50 + i; });
    case 4: handle(Out::kStd, true); return a.except<std::exception>([ran](const std::exception&) -> int { ran(); raise(Out::kCustom, "rethrown"); });
    case 5: expect[i]++; if (ok) m.v += 1000; return a.decorate([ran](auto& inner) { ran(); return inner() + 1000; });
    case 6: expect[i]++; m = {Out::kVal, 77, ""}; return a.decorate([ran](auto&) { ran(); return 77; });          // does not ask at all
    case 7: expect[i]++; if (!ok) m = {Out::kVal, 5, ""}; return a.decorate([ran](auto& inner) { ran(); try { return inner(); } catch (const std::exception&) { return 5; } });
    case 8: if (ok) { m.v += 7; expect[i]++; } return a.then([ran](int v) { ran(); return std::make_unique<int>(v); }).then([](std::unique_ptr<int> p) { return *p + 7; });
    case 9: if (ok) { m.v = 9; expect[i]++; } return a.then([ran](int) { ran(); }).then([] { return 9; });
    case 10: handle(Out::kAgain, false); return a.except<arpc::errors::try_again>([ran, i](const arpc::errors::try_again&) { ran(); return 50 + i; });
    case 11: if (ok) { m = {Out::kStd, 0, "then"}; expect[i]++; } return a.then([ran](int) -> int { ran(); raise(Out::kStd, "then"); });
  }
  mc::fail("harness", "link");
}
}  // namespace

// What a decoration that does not ask leaves unrun is not in the model, so counts before it are not compared.
static void chains(int max_links, int n_kinds) {
  sched::opt().timers = false;
  warm();
  static const Base kBases[] = {kReady, kWritable, kNow, kLater, kPolled, kUnready, kNever};
  Base b = mc::pick(kBases, "base");
  static const Out::Kind kFirst[] = {Out::kVal, Out::kCustom, Out::kSpecial, Out::kStd, Out::kAgain};
  Out m{mc::pick(kFirst, "first"), 1, "base"};
  int n = mc::choose(max_links + 1, "links");
  Pipe p;
  uint64_t fired_at = 0, due = us();
  if (b == kReady) p.put();
  if (b == kLater || b == kPolled) due += 5000;
  auto raw = [&]() -> arpc::awaitable<void> {
    switch (b) {
      case kReady: case kUnready: return arpc::awaitable<void>(p.r);
      case kWritable: return arpc::awaitable<void>(p.w, true);
      case kNow: return arpc::always();
      case kLater: return arpc::timeout(ms(5));
      case kPolled: return arpc::polling(ms(5));
      default: return arpc::never();
    }
  }();
  int base_runs = 0;
  Out first = m;
  Log log(n);
  std::vector<int> expect(n);
  int opaque = -1;     // the last decoration that does not ask
  auto a = std::make_unique<arpc::awaitable<int>>(raw.then([&]() -> int { base_runs++; if (first.k != Out::kVal) raise(first.k, "base"); return 1; }));
  for (int i = 0; i < n; i++) {
    int k = mc::choose(n_kinds, "link");
    if (k == 6) opaque = i;
    a = std::make_unique<arpc::awaitable<int>>(link(std::move(*a), k, i, log, m, expect, fired_at, due));
  }
  if (m.k == Out::kAgain) mc::prune();    // that means "not yet" to a wait
  bool fires = b != kUnready && b != kNever;
  std::string got;
  uint64_t end = 0;
  std::string r = how([&] {
    auto [x, t] = arpc::select(*a, arpc::timeout(ms(20)));
    end = us();
    if (!x) { got = "timeout"; return; }
    got = caught([&x = x] { return *x; });
  });
  MC_CHECK(r == "ok", "wrong-end", r);
  if (!fires) {
    MC_CHECK(got == "timeout" && base_runs == 0 && log.order.empty(), "fired-without-event", got);
  } else {
    MC_CHECK(got == text(m), "wrong-outcome", got + " instead of " + text(m));
    MC_CHECK(end >= due && end < due + 1000, "fired-at-another-time", std::to_string(end));
    MC_CHECK(base_runs == (opaque >= 0 ? 0 : 1), "ran-too-often", "the first reaction");
    for (int i = 0; i < n; i++) {
      int e = i < opaque ? 0 : expect[i];
      MC_CHECK(log.runs[i] == e, log.runs[i] > e ? "ran-too-often" : "not-run", "link " + std::to_string(i) + " ran " + std::to_string(log.runs[i]) + " times instead of " + std::to_string(e));
    }
    mc::outcome(got);
  }
  mc::nontrivial();
}
MC_SCENARIO("chains", 0, 0) { chains(mc::tier_pick(4, 5), 12); }

MC_SCENARIO("void-chains", 0, 0) {
  sched::opt().timers = false;
  warm();
  int runs = 0, handled = 0, after = 0;
  bool thrown = mc::choose(2, "throws"), handler_first = mc::choose(2, "handler first"), rethrow = mc::choose(2, "rethrow"), deco = mc::choose(2, "decorated");
  auto act = [&] { runs++; if (thrown) throw Custom("c"); };
  auto h = [&](const Custom&) { handled++; if (rethrow) throw Special("again"); };
  auto then = [&] { after++; };
  std::string got;
  auto run = [&](auto&& a) {
    if (deco) {
      auto d = a.decorate([&](auto& inner) { inner(); inner = nullptr; });
      auto [x] = arpc::select(d);
      got = caught([&x = x] { *x; return 0; });
    } else {
      auto [x] = arpc::select(std::move(a));
      got = caught([&x = x] { *x; return 0; });
    }
  };
  if (handler_first) run(arpc::always().then(std::move(act)).except<Custom>(std::move(h)).then(std::move(then)));
  else run(arpc::always().then(std::move(act)).then(std::move(then)).except<Custom>(std::move(h)));
  MC_CHECK(runs == 1, "ran-too-often", "");
  MC_CHECK(handled == thrown, "handler", "");
  bool failed = thrown && rethrow;
  MC_CHECK(got == (failed ? "special:again" : "v0"), "wrong-outcome", got);
  MC_CHECK(after == (handler_first ? !failed : !thrown), "not-run", "");
  mc::nontrivial();
}

namespace {
// Callables that show what is done with them.
struct Fn {
  std::shared_ptr<int> n;
  explicit Fn(int k) : n(std::make_shared<int>(k)) {}
  int operator()() const { if (!n) mc::fail("callable-emptied", "the callable the caller still owns was emptied"); return *n; }
  int operator()(int v) const { if (!n) mc::fail("callable-emptied", "the callable the caller still owns was emptied"); return v + *n; }
  int operator()(const std::exception&) const { if (!n) mc::fail("callable-emptied", "the callable the caller still owns was emptied"); return *n; }
  template <typename F> auto operator()(F& f) const -> std::enable_if_t<std::is_invocable_v<F&>, int> { if (!n) mc::fail("callable-emptied", "the callable the caller still owns was emptied"); return f() + *n; }
};
}  // namespace
MC_SCENARIO("callables-are-copied", 0, 0) {
  // The same named callable may be attached to several events.
  warm();
  Fn f(4);
  int k = mc::choose(3, "kind");
  auto make = [&]() -> arpc::awaitable<int> {
    if (k == 0) return arpc::always().then(f).then(f);
    if (k == 1) return arpc::always().then([]() -> int { throw Custom("x"); }).except<std::exception>(f).then([](int v) { return v * 2; });
    return arpc::always().then([] { return 4; }).decorate(f);
  };
  auto a = make(), b = make();
  auto [x, y] = arpc::select(a, b);
  MC_CHECK(x && y && *x == 8 && *y == 8, "wrong-outcome", "");
  MC_CHECK(f.n && f() == 4, "callable-emptied", "");
  mc::nontrivial();
}


namespace {
using Chain = std::variant<std::unique_ptr<arpc::awaitable<void>>, std::unique_ptr<arpc::awaitable<int>>>;
template <typename A> Chain keep(A&& a) {
  using T = std::decay_t<A>;
  return std::make_unique<T>(std::forward<A>(a));
}
// A callable that knows whether it is still whole; `visit` is told of each run, before and after.
struct Whole {
  std::shared_ptr<int> alive = std::make_shared<int>(1);
  void check() const { if (!alive) mc::fail("reaction-gone", "a reaction that has to run again was let go of"); }
};
}  // namespace
MC_SCENARIO("repeated-firing", 0, 0) {
  // While an event answers "not yet" its chain runs once per firing, and later links only run when it succeeds.
  sched::opt().timers = false;
  warm();
  int n = 1 + mc::choose(mc::tier_pick(4, 5), "links"), tries = 1 + mc::choose(mc::tier_pick(3, 4), "tries"), at = mc::choose(n, "which link answers");
  bool early = false;
  std::vector<int> runs(n), expect(n);
  Whole w;
  auto maybe = [&](int i) { w.check(); runs[i]++; if (i == at && runs[i] < tries) throw arpc::errors::try_again(""); };
  bool piped = mc::choose(2, "event is a readable pipe");
  Pipe p;
  if (piped) p.put();
  Chain c = piped ? keep(arpc::awaitable<void>(p.r)) : keep(arpc::polling(ms(5)));
  int value = 0, polled = 0;      // what an int link has produced last
  if (piped) c = keep(std::get<0>(c)->then([&] { polled++; }));
  for (int i = 0; i < n; i++) {
    int kind = mc::choose(7, "link");
    bool is_int = c.index() == 1;
    if (kind == 5 && i == at) early = true;
    auto say = [maybe, i, w] { w.check(); maybe(i); };
    switch (kind) {
      case 0:      // then -> void
        c = is_int ? keep(std::get<1>(c)->then([say](int) { say(); })) : keep(std::get<0>(c)->then([say] { say(); }));
        break;
      case 1:      // then -> int
        c = is_int ? keep(std::get<1>(c)->then([say, i](int v) { say(); return v * 3 + i; })) : keep(std::get<0>(c)->then([say, i] { say(); return 10 + i; }));
        value = is_int ? value * 3 + i : 10 + i;
        break;
      case 2:      // throws, and is handled -> void
        c = is_int ? keep(std::get<1>(c)->then([](int) { throw Custom("c"); }).except<Custom>([say](const Custom&) { say(); }))
                   : keep(std::get<0>(c)->then([] { throw Custom("c"); }).except<Custom>([say](const Custom&) { say(); }));
        break;
      case 3:      // throws, and is handled -> int
        c = is_int ? keep(std::get<1>(c)->then([](int) -> int { throw Custom("c"); }).except<Custom>([say, i](const Custom&) { say(); return 20 + i; }))
                   : keep(std::get<0>(c)->then([]() -> int { throw Custom("c"); }).except<Custom>([say, i](const Custom&) { say(); return 20 + i; }));
        value = 20 + i;
        break;
      case 4:      // decorated, asking first
        if (is_int) c = keep(std::get<1>(c)->decorate([say](auto& inner) { int v = inner(); say(); return v + 1; })), value++;
        else c = keep(std::get<0>(c)->decorate([say](auto& inner) { inner(); say(); }));
        break;
      case 5:      // decorated, asking last
        if (is_int) c = keep(std::get<1>(c)->decorate([say](auto& inner) { say(); return inner() + 1; })), value++;
        else c = keep(std::get<0>(c)->decorate([say](auto& inner) { say(); inner(); }));
        break;
      case 6:      // a handler with nothing to handle
        if (i == at) mc::prune();
        if (is_int) c = keep(std::get<1>(c)->except<Special>([say](const Special&) { say(); return 0; }));
        else c = keep(std::get<0>(c)->except<Special>([say](const Special&) { say(); }));
        break;
    }
    expect[i] = kind == 6 ? 0 : i <= at || kind == 5 ? tries : 1;     // one that asks last runs even when what it asks refuses
  }
  // A decoration that refuses before it asks leaves what is under it unrun, and one that was asked and then refuses does not.
  if (early) for (int i = 0; i < at; i++) expect[i] = expect[i] ? 1 : 0;
  uint64_t t0 = us();
  auto finish = [&](auto& a) {
    auto [x, t] = arpc::select(a, arpc::timeout(ms(100)));
    MC_CHECK(x && !t, "wrong-outcome", "timed out");
    if constexpr (std::is_same_v<std::decay_t<decltype(a)>, arpc::awaitable<int>>) MC_CHECK(*x == value, "wrong-outcome", std::to_string(*x) + " instead of " + std::to_string(value));
  };
  if (c.index() == 1) finish(*std::get<1>(c)); else finish(*std::get<0>(c));
  MC_CHECK((us() - t0) / 1000 == (piped ? 0 : uint64_t(5 * tries)), "fired-at-another-time", std::to_string(us() - t0));
  for (int i = 0; i < n; i++) MC_CHECK(runs[i] == expect[i], runs[i] > expect[i] ? "ran-too-often" : "not-run", "link " + std::to_string(i) + " ran " + std::to_string(runs[i]) + " times instead of " + std::to_string(expect[i]));
  mc::nontrivial();
}

MC_SCENARIO("scale", 0, 0) {
  // Long chains of reactions: what the first produced comes out at the end, or the first error.
  warm(); sched::opt().max_steps = 4000000; sched::opt().timers = false; sched::NoPreempt np;
  int n = amount(mc::tier_pick(40, 100), mc::tier_pick(257, 1025), "links"), bad = n ? mc::choose(3, "throws") : 0;
  int at = bad == 0 ? n : bad == 1 ? 0 : n - 1, runs = 0;
  auto a = std::make_unique<arpc::awaitable<int>>(arpc::always().then([] { return 1; }));
  for (int i = 0; i < n; i++)
    a = std::make_unique<arpc::awaitable<int>>(a->then([&runs, i, at](int v) { MC_CHECK(v == i + 1, "wrong-value", ""); runs++; if (i == at) throw Custom("link " + std::to_string(i)); return v + 1; }));
  std::string what; int v = 0;
  std::string e = how([&] { auto [r] = arpc::select(std::move(*a)); v = *r; }, &what);
  if (at < n) MC_CHECK(e == "other:link " + std::to_string(at) && runs == at + 1, "wrong-outcome", e);
  else MC_CHECK(e == "ok" && v == n + 1 && runs == n, "wrong-outcome", e);
  mc::nontrivial();
}
