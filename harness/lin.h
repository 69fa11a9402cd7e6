// Checks that a concurrent history is equivalent to some sequential one.
#pragma once
#include "mc.h"
#include "msched.h"
#include <functional>
#include <set>
#include <string>
#include <vector>

namespace lin {
struct Op { int tid; uint64_t inv, ret; std::string name; long arg = 0, res = 0; bool pending = true; };
// The history of one execution; the harness's own bookkeeping, invisible to the race detector.
struct History {
  std::vector<Op> ops;
  uint64_t clock = 0;
  size_t begin(const std::string& name, long arg = 0) {
    sched::Ignore ig;
    ops.push_back({sched::self(), ++clock, UINT64_MAX, name, arg});
    return ops.size() - 1;
  }
  void end(size_t i, long res = 0) {
    sched::Ignore ig;
    ops[i].ret = ++clock; ops[i].res = res; ops[i].pending = false;
  }
  // Failed operations that must have had no effect are dropped.
  void drop(size_t i) { sched::Ignore ig; ops[i].name = ""; ops[i].pending = false; ops[i].ret = ++clock; }
  std::string str() const {
    std::string s;
    for (auto& o : ops) if (!o.name.empty())
      s += "t" + std::to_string(o.tid) + " [" + std::to_string(o.inv) + "," + (o.pending ? "-" : std::to_string(o.ret)) + "] " + o.name + "(" + std::to_string(o.arg) + ") = " + (o.pending ? "?" : std::to_string(o.res)) + "\n";
    return s;
  }
};
// S: sequential state (copyable, ordered). step(state, op): applies op, false if its result is impossible there.
template <typename S, typename F>
bool linearizable(const History& h, S init, F step) {
  sched::Ignore ig;
  std::vector<const Op*> ops;
  for (auto& o : h.ops) if (!o.name.empty()) ops.push_back(&o);
  size_t n = ops.size();
  if (n > 20) mc::fail("harness", "history too long");
  std::set<std::pair<uint32_t, S>> seen;
  std::function<bool(uint32_t, const S&)> go = [&](uint32_t done, const S& s) {
    bool all = true;
    for (size_t i = 0; i < n; i++) if (!(done >> i & 1) && !ops[i]->pending) all = false;
    if (all) return true;
    if (!seen.insert({done, s}).second) return false;
    uint64_t first = UINT64_MAX;
    for (size_t i = 0; i < n; i++) if (!(done >> i & 1)) first = std::min(first, ops[i]->ret);
    for (size_t i = 0; i < n; i++) {
      if (done >> i & 1 || ops[i]->inv > first) continue;
      S t = s;
      if (step(t, *ops[i]) && go(done | 1u << i, t)) return true;
    }
    return false;
  };
  return go(0, init);
}
}  // namespace lin
