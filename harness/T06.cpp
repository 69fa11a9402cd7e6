// T06: timeouts and deadlines are measured from when they were set.
#include "ah.h"
using namespace ah;

namespace {
struct Item { int kind; uint64_t ms; int tries; };   // kind 0 timer, 1 polling that succeeds at its tries-th attempt
constexpr uint64_t kNone = UINT64_MAX;
}  // namespace

// Timers, polling waits, a deadline and vain wake-ups together; the model says when the wait ends.
static void mixed(int n_items, bool wakes) {
  sched::opt().timers = false;
  warm();
  static const Item kItems[] = {{0, 0, 0}, {0, 10, 0}, {0, 15, 0}, {1, 4, 1}, {1, 4, 3}, {1, 7, 2}, {1, 10, 1}};
  std::vector<Item> items;
  for (int i = 0; i < n_items; i++) items.push_back(kItems[mc::choose(7, "item")]);
  // The deadline of the innermost context and of its parent.
  static const uint64_t kDeadline[] = {kNone, 0, 9, 12};
  uint64_t dl_outer = kDeadline[mc::choose(4, "outer deadline")], dl_inner = kDeadline[wakes ? 0 : mc::choose(4, "inner deadline")];
  uint64_t frac = mc::choose(2, "fraction") ? 300 : 0;
  if (frac) sleep_us(frac);
  uint64_t t_set = us();
  arpc::context outer;
  if (dl_outer != kNone) outer.set_timeout(ms(dl_outer));
  arpc::context inner;
  if (dl_inner != kNone) inner.set_timeout(ms(dl_inner));
  // Time may pass between setting the deadline and waiting.
  static const uint64_t kGap[] = {0, 2500, 2900};
  uint64_t gap = mc::pick(kGap, "gap");
  if (gap) sleep_us(gap);
  Pipe p;
  std::optional<std::thread> waker;
  static const std::vector<uint64_t> kWakes[] = {{}, {3}, {4, 8}, {2, 5, 9, 11}, {10}, {9, 10, 14}};
  if (wakes) {
    const auto& w = mc::pick(kWakes, "wakes");
    uint64_t t0 = us();
    waker.emplace([&p, w, t0] { for (uint64_t at : w) { sleep_us(t0 + at * 1000 - us()); p.put(); } });
  }
  uint64_t start = us();
  // The model.
  uint64_t dl = std::min(dl_outer, dl_inner);
  uint64_t end_dl = dl == kNone ? kNone : std::max(start, t_set + dl * 1000);
  uint64_t end_item = kNone;
  for (auto& i : items) end_item = std::min(end_item, start + (i.kind == 0 ? i.ms : i.ms * i.tries) * 1000);
  uint64_t expect = std::min(end_dl, end_item);
  if (expect == kNone) mc::prune();
  std::vector<arpc::awaitable<int>> v;
  std::vector<int> attempts(items.size()), last(items.size());
  for (size_t k = 0; k < items.size(); k++) {
    auto it = items[k];
    auto base = it.kind == 0 ? arpc::timeout(ms(it.ms)) : arpc::polling(ms(it.ms));
    v.push_back(base.then([&, k, it]() -> int {
      attempts[k]++;
      uint64_t due = start + it.ms * 1000 * (it.kind == 0 ? 1 : attempts[k]);
      MC_CHECK(us() >= due, "too-early", "attempt " + std::to_string(attempts[k]) + " at " + std::to_string(us() - start) + "us instead of " + std::to_string(due - start));
      MC_CHECK(us() < due + 1000, "too-late", "attempt " + std::to_string(attempts[k]) + " at " + std::to_string(us() - start) + "us instead of " + std::to_string(due - start));
      if (it.kind == 1 && attempts[k] < it.tries) throw arpc::errors::try_again("");
      return int(k);
    }));
  }
  auto vain = wakes ? arpc::awaitable<void>(p.r).then([&] { char c; if (::read(p.r, &c, 1) != 1) mc::fail("harness", "read"); throw arpc::errors::try_again(""); })
                    : arpc::awaitable<void>(-1).then([] {});
  std::vector<bool> got(items.size());
  std::string r = how([&] {
    auto [a, b] = arpc::select(v, vain);
    for (size_t k = 0; k < a.size(); k++) {
      if (!a[k]) continue;
      got[k] = true;
      MC_CHECK(*a[k] == int(k), "wrong-event", "");
    }
    MC_CHECK(!b, "wrong-event", "the vain event was reported");
  });
  uint64_t end = us();
  std::string d = r + " at " + std::to_string(end - start) + "us, expected at " + std::to_string(expect - start);
  mc::outcome(d);
  MC_CHECK(r == "ok" || r == "deadline", "wrong-end", d);
  MC_CHECK(end >= expect, "too-early", d);
  MC_CHECK(end < expect + (end_dl <= end_item ? 2000 : 1000), "too-late", d);
  if (r == "deadline") MC_CHECK(end_dl <= end, "too-early", d);
  else {
    bool any = false;
    for (size_t k = 0; k < items.size(); k++) any = any || got[k];
    MC_CHECK(any, "nothing-reported", d);
    if (end_dl != kNone && end_item >= end_dl + 2000) mc::fail("deadline-missed", d);
  }
  for (size_t k = 0; k < items.size(); k++)
    if (got[k]) MC_CHECK(attempts[k] == (items[k].kind == 0 ? 1 : items[k].tries), "wrong-event", "reported without its action having succeeded");
  if (waker) waker->join();
  mc::nontrivial();
}
MC_SCENARIO("timers-polling-deadlines", 0, 0) { mixed(mc::choose(3, "items"), false); }
MC_SCENARIO("three-items", 0, 0, true) { mixed(3, false); }
MC_SCENARIO("vain-wake-ups", 1, 2) { mixed(1 + mc::choose(2, "items"), true); }

MC_SCENARIO("event-and-timeout", 1, 2) {
  // An event that is there (or arrives) against timeouts of all sorts.
  sched::opt().timers = false;
  warm();
  static const uint64_t kAt[] = {0, 3, 10, 12};
  uint64_t at = mc::pick(kAt, "event at");
  static const uint64_t kT[] = {0, 3, 10, kNone};
  uint64_t t = mc::pick(kT, "timeout"), d = mc::pick(kT, "deadline");
  bool polling = mc::choose(2, "polling");
  if (t == kNone && polling) mc::prune();
  Pipe p;
  arpc::context ctx;
  uint64_t start = us();
  if (d != kNone) ctx.set_timeout(ms(d));
  std::optional<std::thread> writer;
  if (at == 0) p.put();
  else writer.emplace([&] { sleep_us(at * 1000); p.put(); });
  bool ev = false, to = false;
  std::string r = how([&] {
    auto event = arpc::awaitable<void>(p.r).then([&] { char c; if (::read(p.r, &c, 1) != 1) mc::fail("harness", "read"); });
    auto limit = t == kNone ? arpc::never() : polling ? arpc::polling(ms(t)) : arpc::timeout(ms(t));
    auto [a, b] = arpc::select(event, limit);
    ev = bool(a); to = bool(b);
  });
  uint64_t end = (us() - start) / 1000, lim = std::min(t, d);
  std::string s = r + (ev ? " event" : "") + (to ? " timeout" : "") + " at " + std::to_string(end);
  mc::outcome(s);
  MC_CHECK(end == std::min(at, lim), end < std::min(at, lim) ? "too-early" : "too-late", s);
  if (ev) MC_CHECK(end >= at, "wrong-event", s);
  if (to) MC_CHECK(t != kNone && end >= t, "too-early", s);
  if (r == "deadline") MC_CHECK(d != kNone && end >= d && !ev && !to, "too-early", s);
  if (at == 0 && d != 0) MC_CHECK(ev, "timed-out-with-event-there", s);
  if (r == "ok") MC_CHECK(ev || to, "nothing-reported", s);
  if (writer) writer->join();
  mc::nontrivial();
}

MC_SCENARIO("units", 0, 0) {
  // Limits given in other units are never cut short and never longer by a millisecond or more.
  sched::opt().timers = false;
  warm();
  int frac = mc::choose(3, "fraction");
  if (frac) sleep_us(frac == 1 ? 1 : 999);
  static const uint64_t kUs[] = {1, 500, 1000, 1001, 1500, 10000, 10999, 86400ull * 30 * 1000000, 86400ull * 60 * 1000000};
  uint64_t d = mc::pick(kUs, "limit");
  uint64_t start = us();
  auto dur = std::chrono::microseconds(d);
  std::string r;
  int form = mc::choose(7, "form");
  switch (form) {
    case 0: r = how([&] { arpc::wait(arpc::timeout(dur)); }); break;
    case 1: r = how([&] { arpc::wait(arpc::timeout(std::chrono::duration<double>(d / 1e6))); }); break;
    case 2: r = how([&] { arpc::wait(arpc::polling(dur)); }); break;
    case 3: r = how([&] { arpc::wait(arpc::deadline(std::chrono::system_clock::now() + dur)); }); break;
    case 4: {
      arpc::context c;
      c.set_deadline(std::chrono::time_point_cast<ms>(std::chrono::system_clock::now() + dur + std::chrono::microseconds(999)));
      r = how([&] { arpc::wait(arpc::never()); });
      break;
    }
    case 5: {
      if (d % 1000) mc::prune();
      arpc::context c;
      c.set_timeout(ms(d / 1000));
      arpc::flag f;
      r = how([&] { f.wait(); });
      break;
    }
    case 6: {
      if (d % 1000) mc::prune();
      arpc::context c;
      c.set_timeout(ms(d / 1000));
      arpc::thread t([&] { r = how([&] { auto [x] = arpc::select(arpc::never()); (void)x; }); });
      t.join();
      break;
    }
  }
  uint64_t end = us() - start;
  std::string s = r + " after " + std::to_string(end) + "us";
  MC_CHECK(r == (form < 4 ? "ok" : "deadline"), "wrong-end", s);
  MC_CHECK(end >= d, "too-early", s + ", limit " + std::to_string(d));
  MC_CHECK(end < d + (form >= 4 ? 2000 : 1000), "too-late", s + ", limit " + std::to_string(d));
  mc::outcome(form);
  mc::nontrivial();
}

MC_SCENARIO("interrupted", 3, 5) {
  // Interrupted system calls do not change when a wait ends.
  sched::opt().timers = false;
  warm();
  Pipe p;
  std::thread waker([&] { sleep_us(4000); p.put(); sleep_us(4000); p.put(); });
  uint64_t start = us();
  vos::cfg().intr = vos::kPoll;
  int form = mc::choose(3, "form"), n = 0;
  std::string r = how([&] {
    arpc::context c;
    if (form == 1) c.set_timeout(ms(10));
    auto vain = arpc::awaitable<void>(p.r).then([&] { char b; if (::read(p.r, &b, 1) != 1) mc::fail("harness", "read"); throw arpc::errors::try_again(""); });
    auto limit = form == 0 ? arpc::timeout(ms(10)).then([] {}) : form == 1 ? arpc::never().then([] {})
                           : arpc::polling(ms(5)).then([&] { if (++n < 2) throw arpc::errors::try_again(""); });
    auto [a, b] = arpc::select(vain, limit);
    MC_CHECK(b && !a, "nothing-reported", "");
  });
  uint64_t end = (us() - start) / 1000;
  std::string s = r + " after " + std::to_string(end);
  MC_CHECK(r == (form == 1 ? "deadline" : "ok"), "wrong-end", s);
  MC_CHECK(end == 10, end < 10 ? "too-early" : "too-late", s);
  waker.join();
  mc::nontrivial();
}

MC_SCENARIO("tightened-while-nested", 0, 0) {
  // The deadline of a context limits waits in contexts created under it, however deep; later ones never extend it.
  sched::opt().timers = false;
  warm();
  uint64_t start = us();
  static const uint64_t kT[] = {kNone, 5, 10, 20};
  uint64_t lim = 20;
  arpc::context base;
  base.set_timeout(ms(20));
  std::vector<std::unique_ptr<arpc::context>> cs;
  for (int i = 0; i < 3; i++) {
    cs.push_back(std::make_unique<arpc::context>());
    for (int k = 0; k < 2; k++) {
      uint64_t t = mc::pick(kT, "timeout");
      if (t != kNone) { cs.back()->set_timeout(ms(t)); lim = std::min(lim, t); }
    }
  }
  MC_CHECK(how([] { arpc::wait(arpc::never()); }) == "deadline", "wrong-end", "");
  uint64_t end = (us() - start) / 1000;
  MC_CHECK(end == lim, end < lim ? "too-early" : "too-late", std::to_string(end));
  auto left = arpc::context::current().deadline_left();
  MC_CHECK(left && left->count() <= 0, "deadline-left", "");
  while (!cs.empty()) cs.pop_back();
  mc::nontrivial();
}

MC_SCENARIO("scale", 0, 0) {
  // Many timers: the wait ends when the first is due, and only those due by then are reported.
  warm(); sched::opt().max_steps = 4000000; sched::opt().timers = false; sched::NoPreempt np;
  int n = 1 + amount(mc::tier_pick(12, 20), mc::tier_pick(513, 1025), "timers"), m = mc::choose(2, "second list") * 2, total = n + m;
  int first = total <= 16 ? mc::choose(total, "first") : std::vector<int>{0, 1, n / 2, n - 2, n - 1, total - 1}[mc::choose(6, "first")];
  int shape = mc::choose(4, "others"), poll = mc::choose(2, "polling");
  std::vector<int> at(total);
  for (int i = 0; i < total; i++) at[i] = i == first ? 7 : shape == 0 ? 8 + (i + total - first) % total : shape == 1 ? 8 + total - i : shape == 2 ? 8 : i % 3 ? 1000 + i : -1;
  std::vector<arpc::awaitable<void>> v, w;
  for (int i = 0; i < total; i++) (i < n ? v : w).push_back(at[i] < 0 ? arpc::never() : poll ? arpc::polling(ms(at[i])) : arpc::timeout(ms(at[i])));
  uint64_t t0 = us();
  auto [a, b] = arpc::select(std::move(v), std::move(w));
  uint64_t end = us() - t0;
  MC_CHECK(end >= 7000, "too-early", std::to_string(end));
  MC_CHECK(end < 8000, "too-late", std::to_string(end));
  for (int i = 0; i < total; i++) MC_CHECK(bool(i < n ? a[i] : b[i - n]) == (i == first), "wrong-results", "timer " + std::to_string(i) + " of " + std::to_string(total));
  mc::nontrivial();
}
