// Exhaustive explorer: runs a scenario once for every sequence of choices.
//
// A scenario is an ordinary function that builds fresh objects, asks
// mc::choose() for every decision (an operation, an argument, a fault, which
// thread runs next) and checks an oracle.  The explorer enumerates the whole
// tree of choices depth first; choose_dev() marks decisions that deviate from
// the default (a preemption, a short read, a fault) and are limited to a
// bound.  Every execution is a function of its choice vector alone, so a
// vector is a replay.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

namespace mc {

// --- Decisions -------------------------------------------------------------
// Any of 0..n-1, all explored.
int choose(int n, const char* label = "");
// 0 is the default; every other answer uses up one deviation of the bound.
int choose_dev(int n, const char* label = "");
// Only some answers cost a deviation: cost[i] for answer i (cost[0]==0).
int choose_cost(int n, const uint8_t* cost, const char* label = "");
template <typename T, size_t N>
const T& pick(const T (&a)[N], const char* label = "") { return a[choose(int(N), label)]; }
template <typename T>
const T& pick(const std::vector<T>& a, const char* label = "") { return a[choose(int(a.size()), label)]; }

// --- Oracle ----------------------------------------------------------------
// Report a violation. `key` identifies what failed (known findings are matched
// by it); does not return: the worker process ends here.
[[noreturn]] void fail(const std::string& key, const std::string& msg = "");
#define MC_CHECK(cond, key, msg) do { if (!(cond)) ::mc::fail((key), (msg)); } while (0)

// --- Bookkeeping -----------------------------------------------------------
void nontrivial();                    // this execution exercised the property
void outcome(uint64_t h);             // an observed outcome (distinct ones are counted)
void outcome(const std::string& s);
void state(uint64_t h);               // a (hashed) state reached
void transition(uint64_t n = 1);      // extra transitions beyond the choices taken
bool tracing();                       // a replay or a sample is being recorded
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool thorough();
int bound();                          // current deviation bound
int remaining();                      // deviations still affordable in this execution
bool pruning();
int tier_pick(int quick, int thorough);
// Give up on this execution without an error (a case outside the harness).
[[noreturn]] void prune();
// Called in every worker before/after each execution (the scheduler uses it).
extern void (*before_execution)();
extern void (*after_execution)();
extern void (*prune_impl)();
// Wraps the scenario body (the scheduler runs it on a fiber).
extern void (*run_wrapper)(void (*body)());

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  h ^= h >> 29; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 32;
  return h;
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }
std::string hex(const std::string& s);

// --- Scenarios -------------------------------------------------------------
struct Scenario {
  const char* name;
  void (*body)();
  int bound_quick, bound_thorough;    // deviation bounds
  bool thorough_only;
  int exec_timeout_s;
};
struct Register {
  Register(const char* name, void (*body)(), int bq = 0, int bt = 0, bool thorough_only = false, int timeout = 20);
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIO(name, ...)                                              \
  static void MC_CAT(mc_body_, __LINE__)();                                 \
  static ::mc::Register MC_CAT(mc_reg_, __LINE__)(name, MC_CAT(mc_body_, __LINE__), ##__VA_ARGS__); \
  static void MC_CAT(mc_body_, __LINE__)()

int explorer_main(int argc, char** argv);
// Every number up to `all`, and those next to a power of two up to `most`.
inline int amount(int all, int most, const char* label) {
  std::vector<int> v;
  for (int i = 0; i <= all; i++) v.push_back(i);
  for (int p = 2; p <= most; p *= 2) for (int d = -1; d <= 1; d++) if (p + d > v.back() && p + d <= most) v.push_back(p + d);
  return v[choose(int(v.size()), label)];
}
}  // namespace mc
