#include "mc.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

// Depth of runtime code below the code under test (see sched.cpp).
extern "C" { int mc_rt_depth = 0; }

namespace mc {
void (*before_execution)() = nullptr;
void (*after_execution)() = nullptr;
void (*prune_impl)() = nullptr;
void (*run_wrapper)(void (*)()) = nullptr;

namespace {
constexpr int kMaxPoints = 20000;
struct Point { uint16_t choice, n; };
// One per worker, in shared memory: survives the worker's death.
struct Slot {
  uint64_t executions, nontrivial, transitions, extra_transitions, pruned, maxlen, exec_started;
  int npoints, prefix_len, done, in_execution;
  int has_violation;
  char key[512];
  char msg[4096];
  Point pts[kMaxPoints];
};
constexpr size_t kTable = 1u << 21;
// Part of a tree: what advance() still finds between prefix_len and n.
struct Task { int n, prefix_len; Point pts[kMaxPoints]; };
constexpr int kTasks = 16;
struct Shared {
  int stop, lock, idle, workers, ntasks, started;
  Task tasks[kTasks];
  uint64_t outcomes, states, table_full;
  uint64_t outcome_table[kTable];
  uint64_t state_table[kTable];
};
std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
Shared* g_sh;
Slot* g_slot;
const Scenario* g_sc;
int g_bound = 0, g_used = 0, g_idx = 0, g_forced = 0;
bool g_thorough = false, g_tracing = false;
bool g_nontrivial = false;
bool g_check_n = false;

double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

bool table_add(uint64_t* tab, uint64_t& count, uint64_t h) {
  if (h == 0) h = 1;
  size_t i = h & (kTable - 1);
  for (int probe = 0; probe < 64; probe++, i = (i + 1) & (kTable - 1)) {
    uint64_t v = __atomic_load_n(&tab[i], __ATOMIC_RELAXED);
    if (v == h) return false;
    if (v == 0) {
      uint64_t e = 0;
      if (__atomic_compare_exchange_n(&tab[i], &e, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
        __atomic_fetch_add(&count, 1, __ATOMIC_RELAXED);
        return true;
      }
      if (e == h) return false;
    }
  }
  __atomic_fetch_add(&g_sh->table_full, 1, __ATOMIC_RELAXED);
  return false;
}
struct PruneTag {};
}  // namespace

[[noreturn]] static void die(int code) { fflush(stdout); fflush(stderr); _exit(code); }
static const int kViolationExit = 77, kInternalExit = 78;

static int choose_impl(int n, int limit_n, const uint8_t* cost, const char* label) {
  // Answers that would exceed the bound are not offered; they must be a suffix
  // or are skipped by index remapping.
  static thread_local uint16_t map_buf[4096];
  int m = 0;
  if (n > 4096) { fprintf(stderr, "mc: too many alternatives (%d)\n", n); die(kInternalExit); }
  (void)limit_n;
  if (n <= 0) { fprintf(stderr, "mc: choose(%d) at %s\n", n, label); die(kInternalExit); }
  for (int i = 0; i < n; i++) if (!cost || g_used + cost[i] <= g_bound) map_buf[m++] = i;
  if (m == 0) { fprintf(stderr, "mc: no affordable alternative at %s\n", label); die(kInternalExit); }
  if (g_idx >= kMaxPoints) fail("horizon", "more than 20000 choice points in one execution");
  int c = 0;
  if (g_idx < g_forced) {
    c = g_slot->pts[g_idx].choice;
    if (c >= m || (g_check_n && g_idx < g_forced - 1 && g_slot->pts[g_idx].n != m)) {
      fprintf(stderr, "mc: NONDETERMINISM in %s at point %d (%s): choice %d of %d, recorded n=%d\n",
              g_sc ? g_sc->name : "?", g_idx, label, c, m, g_slot->pts[g_idx].n);
      die(kInternalExit);
    }
  }
  g_slot->pts[g_idx].choice = c;
  g_slot->pts[g_idx].n = m;
  g_idx++;
  g_slot->npoints = g_idx;
  int r = map_buf[c];
  if (cost) g_used += cost[r];
  if (g_tracing && m > 1 && *label) trace("  [%s -> %d of %d]", label, r, n);
  return r;
}
int choose(int n, const char* label) { return choose_impl(n, n, nullptr, label); }
int choose_dev(int n, const char* label) {
  uint8_t cost[4096];
  if (n > 4096) die(kInternalExit);
  cost[0] = 0;
  for (int i = 1; i < n; i++) cost[i] = 1;
  return choose_impl(n, n, cost, label);
}
int choose_cost(int n, const uint8_t* cost, const char* label) { return choose_impl(n, n, cost, label); }

void fail(const std::string& key, const std::string& msg) {
  snprintf(g_slot->key, sizeof g_slot->key, "%s:%s", g_sc->name, key.c_str());
  snprintf(g_slot->msg, sizeof g_slot->msg, "%s", msg.c_str());
  if (g_tracing) {
    trace("VIOLATION %s: %s", key.c_str(), msg.c_str());
  }
  g_slot->has_violation = 1;
  die(kViolationExit);
}
void nontrivial() { g_nontrivial = true; }
void outcome(uint64_t h) { table_add(g_sh->outcome_table, g_sh->outcomes, h ^ hash_str(g_sc->name)); }
void outcome(const std::string& s) { outcome(hash_str(s)); }
void state(uint64_t h) { table_add(g_sh->state_table, g_sh->states, h ^ hash_str(g_sc->name)); }
void transition(uint64_t n) { g_slot->extra_transitions += n; }
bool tracing() { return g_tracing; }
void trace(const char* fmt, ...) {
  if (!g_tracing) return;
  char buf[2048];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  fputs(buf, stdout); fputc('\n', stdout); fflush(stdout);
}
bool thorough() { return g_thorough; }
int bound() { return g_bound; }
int remaining() { return g_bound - g_used; }
static bool g_pruning = false;
bool pruning() { return g_pruning; }
int tier_pick(int q, int t) { return g_thorough ? t : q; }
void prune() { g_pruning = true; if (prune_impl) prune_impl(); throw PruneTag(); }
std::string hex(const std::string& s) {
  std::string r; char b[4];
  for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
  return r.empty() ? "(empty)" : r;
}
Register::Register(const char* name, void (*body)(), int bq, int bt, bool to, int timeout) {
  mc_rt_depth++;
  scenarios().push_back(Scenario{name, body, bq, bt, to, timeout});
  mc_rt_depth--;
}

static void execute_once() {
  g_idx = 0; g_used = 0; g_nontrivial = false; g_pruning = false;
  g_slot->npoints = 0;
  g_slot->exec_started = uint64_t(now_s() * 1000);
  g_slot->in_execution = 1;
  if (before_execution) before_execution();
  try {
    if (run_wrapper) run_wrapper(g_sc->body); else g_sc->body();
  } catch (const PruneTag&) {
  }
  if (g_pruning) g_slot->pruned = g_slot->pruned + 1;
  if (after_execution) after_execution();
  g_slot->in_execution = 0;
  g_slot->executions = g_slot->executions + 1;
  if (g_nontrivial) g_slot->nontrivial = g_slot->nontrivial + 1;
  if ((uint64_t)g_idx > g_slot->maxlen) g_slot->maxlen = g_idx;
}

// Advance the slot's vector to the next one below prefix_len..limit; false if done.
static bool advance(Slot* s, int prefix_len, int limit) {
  int n = std::min<int>(s->npoints, limit);
  for (int i = n - 1; i >= prefix_len; i--) {
    if (s->pts[i].choice + 1 < s->pts[i].n) {
      s->pts[i].choice++;
      s->npoints = i + 1;
      return true;
    }
  }
  return false;
}


static void worker_setup(const std::string& errfile) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd >= 0) { dup2(fd, 2); if (!g_tracing) dup2(fd, 1); if (fd > 2) close(fd); }
  rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
}

static void lock_tasks() { while (__atomic_exchange_n(&g_sh->lock, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
static void unlock_tasks() { __atomic_store_n(&g_sh->lock, 0, __ATOMIC_RELEASE); }
// The next part of the tree for this worker; false when all of it is explored.
// Workers without work wait for the others to give away part of theirs.
static bool take_task(Slot* s, bool* root) {
  bool counted = false;
  for (int spins = 0;; spins++) {
    lock_tasks();
    if (g_sh->stop) { unlock_tasks(); return false; }
    if (!g_sh->started || g_sh->ntasks > 0) {
      *root = !g_sh->started;
      if (*root) { g_sh->started = 1; s->npoints = 0; s->prefix_len = 0; }
      else {
        const Task& t = g_sh->tasks[--g_sh->ntasks];
        memcpy(s->pts, t.pts, sizeof(Point) * t.n);
        s->npoints = t.n; s->prefix_len = t.prefix_len;
      }
      if (counted) g_sh->idle = g_sh->idle - 1;
      unlock_tasks();
      return true;
    }
    if (!counted) { g_sh->idle = g_sh->idle + 1; counted = true; }
    bool over = g_sh->idle == g_sh->workers;
    unlock_tasks();
    if (over) return false;
    if (spins < 50) sched_yield(); else usleep(50);
  }
}
// Gives the shallower half of the open points away if someone is waiting.
static void give_task(Slot* s) {
  if (__atomic_load_n(&g_sh->idle, __ATOMIC_RELAXED) <= __atomic_load_n(&g_sh->ntasks, __ATOMIC_RELAXED)) return;
  int open = 0;
  for (int i = s->prefix_len; i < s->npoints; i++) open += s->pts[i].choice + 1 < s->pts[i].n;
  if (open < 2) return;
  int m = s->prefix_len - 1;
  for (int k = 0; k < open / 2;) { m++; k += s->pts[m].choice + 1 < s->pts[m].n; }
  lock_tasks();
  if (g_sh->ntasks < kTasks) {
    Task& t = g_sh->tasks[g_sh->ntasks];
    t.n = m + 1; t.prefix_len = s->prefix_len;
    memcpy(t.pts, s->pts, sizeof(Point) * t.n);
    s->prefix_len = m + 1;
    g_sh->ntasks = g_sh->ntasks + 1;
  }
  unlock_tasks();
}
static void worker_loop(Slot* slot, bool resume) {
  g_slot = slot;
  g_check_n = true;
  bool have = false;
  if (resume) {
    // The previous worker died in the execution recorded in the slot.
    have = advance(slot, slot->prefix_len, kMaxPoints);
    g_forced = slot->npoints;
  }
  while (!g_sh->stop) {
    if (!have) {
      bool root;
      if (!take_task(slot, &root)) break;
      if (root) { g_forced = 0; }
      else {
        have = advance(slot, slot->prefix_len, kMaxPoints);
        if (!have) continue;
        g_forced = slot->npoints;
      }
    }
    int before = g_forced;
    execute_once();
    slot->transitions = slot->transitions + std::max(0, g_idx - before + (have ? 1 : 0));
    give_task(slot);
    have = advance(slot, slot->prefix_len, kMaxPoints);
    g_forced = slot->npoints;
  }
  slot->done = 1;
}

struct Options {
  std::string tier = "quick", out, replay, only, workdir = ".";
  int jobs = 8;
  double max_seconds = 0;
  std::set<std::string> known;
};

struct ViolationRec { std::string key, msg, scenario; int bound; std::vector<int> choices; std::string err; };

static std::string read_file(const std::string& p, size_t max = 1 << 16) {
  std::ifstream f(p); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
  if (s.size() > max) s = s.substr(0, max / 2) + "\n...\n" + s.substr(s.size() - max / 2);
  return s;
}
static std::string json_str(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
// Classify a dead worker from its exit status and captured stderr.
static std::string crash_key(int status, const std::string& err) {
  size_t p = err.find("ERROR: AddressSanitizer: ");
  if (p != std::string::npos) {
    size_t b = p + 25, e = err.find_first_of(" \n", b);
    return "asan-" + err.substr(b, e - b);
  }
  if ((p = err.find("runtime error: ")) != std::string::npos) {
    size_t b = p + 15, e = err.find('\n', b);
    std::string m = err.substr(b, std::min<size_t>(e - b, 60));
    for (char& c : m) if (c == ' ' || isdigit((unsigned char)c)) c = '-';
    return "ubsan-" + m;
  }
  if (err.find("ERROR: LeakSanitizer") != std::string::npos) return "leak";
  if (WIFSIGNALED(status)) return "signal-" + std::to_string(WTERMSIG(status));
  return "exit-" + std::to_string(WEXITSTATUS(status));
}

static void* shm(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return p;
}

// Runs one vector in a fresh child with tracing; returns (key or "", trace).
static std::pair<std::string, std::string> run_single(const Scenario& sc, int bound, const std::vector<int>& choices,
                                                      Slot* slot, const std::string& workdir, int timeout_s, std::string* msg) {
  slot->has_violation = 0; slot->key[0] = slot->msg[0] = 0;
  for (size_t i = 0; i < choices.size(); i++) slot->pts[i] = Point{(uint16_t)choices[i], 0};
  std::string outf = workdir + "/single.out", errf = workdir + "/single.err";
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(outf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 1);
    g_tracing = true;
    worker_setup(errf);
    g_sc = &sc; g_slot = slot; g_bound = bound; g_forced = choices.size(); g_check_n = false;
    alarm(timeout_s);
    execute_once();
    die(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  std::string tr = read_file(outf), err = read_file(errf);
  if (slot->has_violation) { if (msg) *msg = slot->msg; return {slot->key, tr}; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return {"", tr};
  if (WIFEXITED(st) && WEXITSTATUS(st) == kInternalExit) { if (msg) *msg = err; return {"internal", tr + err}; }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { if (msg) *msg = "execution does not end"; return {std::string(sc.name) + ":hang", tr}; }
  if (msg) *msg = err;
  return {std::string(sc.name) + ":" + crash_key(st, err), tr + err};
}

int explorer_main(int argc, char** argv) {
  mc_rt_depth++;
  Options o;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--tier") o.tier = val();
    else if (a == "--out") o.out = val();
    else if (a == "--jobs") o.jobs = atoi(val().c_str());
    else if (a == "--replay") o.replay = val();
    else if (a == "--only") o.only = val();
    else if (a == "--workdir") o.workdir = val();
    else if (a == "--max-seconds") o.max_seconds = atof(val().c_str());
    else if (a == "--known") o.known.insert(val());
    else if (a == "--list") { for (auto& s : scenarios()) puts(s.name); return 0; }
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  mkdir(o.workdir.c_str(), 0755);
  g_thorough = o.tier == "thorough";
  g_sh = (Shared*)shm(sizeof(Shared));
  Slot* slots = (Slot*)shm(sizeof(Slot) * (o.jobs + 1));

  if (!o.replay.empty()) {
    std::ifstream f(o.replay); std::string line, scn; std::vector<int> ch; int b = 0;
    while (std::getline(f, line)) {
      if (line.rfind("scenario=", 0) == 0) scn = line.substr(9);
      if (line.rfind("bound=", 0) == 0) b = atoi(line.c_str() + 6);
      if (line.rfind("tier=", 0) == 0) g_thorough = line.substr(5) == "thorough";
      if (line.rfind("choices=", 0) == 0) { std::stringstream ss(line.substr(8)); std::string t; while (std::getline(ss, t, ',')) ch.push_back(atoi(t.c_str())); }
      if (line == "---") break;
    }
    for (auto& s : scenarios()) if (s.name == scn) {
      std::string msg;
      auto r = run_single(s, b, ch, &slots[0], o.workdir, s.exec_timeout_s * 3, &msg);
      printf("%s\n", r.second.c_str());
      printf("RESULT key=%s msg=%s\n", r.first.c_str(), msg.c_str());
      return r.first.empty() ? 0 : 1;
    }
    fprintf(stderr, "no such scenario %s\n", scn.c_str());
    return 2;
  }

  double t0 = now_s();
  std::vector<ViolationRec> viols;
  std::map<std::string, uint64_t> known_hits;
  std::map<std::string, std::string> known_example;
  std::string scen_json, samples_json;
  uint64_t total_exec = 0, total_nontriv = 0, total_trans = 0, total_extra = 0;
  bool all_complete = true, stop_all = false;
  for (auto& sc : scenarios()) {
    if (stop_all) break;
    if (!o.only.empty() && o.only != sc.name) continue;
    if (sc.thorough_only && !g_thorough) continue;
    int maxb = g_thorough ? sc.bound_thorough : sc.bound_quick;
    g_sc = &sc;
    for (int b = 0; b <= maxb && !stop_all; b++) {
      double ts = now_s();
      g_bound = b;
      uint64_t o0 = g_sh->outcomes, s0 = g_sh->states;
      int jobs = std::min<int>(o.jobs, kTasks);
      g_sh->stop = g_sh->lock = g_sh->idle = g_sh->ntasks = g_sh->started = 0;
      g_sh->workers = jobs;
      // Run workers.
      std::map<pid_t, int> running;
      auto spawn = [&](int w, bool resume) {
        fflush(stdout); fflush(stderr);
        slots[w].exec_started = uint64_t(now_s() * 1000);
        pid_t pid = fork();
        if (pid == 0) {
          worker_setup(o.workdir + "/w" + std::to_string(w) + ".err");
          worker_loop(&slots[w], resume);
          die(0);
        }
        running[pid] = w;
      };
      for (int w = 0; w < jobs; w++) { memset((void*)&slots[w], 0, offsetof(Slot, pts)); spawn(w, false); }
      bool complete = true;
      std::set<int> hung;
      auto save_viol = [&](int w, const std::string& key, const std::string& msg) {
        std::vector<int> ch; for (int i = 0; i < slots[w].npoints; i++) ch.push_back(slots[w].pts[i].choice);
        while (!ch.empty() && ch.back() == 0) ch.pop_back();
        if (o.known.count(key)) {
          known_hits[key]++;
          if (!known_example.count(key)) { std::string s; for (int c : ch) s += std::to_string(c) + ","; known_example[key] = std::string(sc.name) + " bound=" + std::to_string(b) + " choices=" + s + " " + msg.substr(0, 300); }
          return false;
        }
        viols.push_back(ViolationRec{key, msg, sc.name, b, ch, ""});
        return true;
      };
      while (!running.empty()) {
        int st; pid_t pid = waitpid(-1, &st, WNOHANG);
        if (pid > 0 && running.count(pid)) {
          int w = running[pid]; running.erase(pid);
          Slot& s = slots[w];
          if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            continue;
          }
          std::string err = read_file(o.workdir + "/w" + std::to_string(w) + ".err");
          if (WIFEXITED(st) && WEXITSTATUS(st) == kInternalExit) { fprintf(stderr, "internal error:\n%s\n", err.c_str()); return 2; }
          std::string key, msg;
          if (s.has_violation) { key = s.key; msg = s.msg; }
          else if (hung.count(pid)) { key = std::string(sc.name) + ":hang"; msg = "execution does not end"; }
          else if (!s.in_execution) { fprintf(stderr, "worker died outside an execution (status %x):\n%s\n", st, err.c_str()); return 2; }
          else { key = std::string(sc.name) + ":" + crash_key(st, err); msg = err; }
          bool isnew = save_viol(w, key, msg);
          s.has_violation = 0; s.in_execution = 0;
          s.executions = s.executions + 1;
          if (isnew) { g_sh->stop = 1; stop_all = true; }
          else spawn(w, true);
          continue;
        }
        if (o.max_seconds > 0 && now_s() - t0 > o.max_seconds && !g_sh->stop) { g_sh->stop = 1; complete = false; }
        uint64_t nowms = uint64_t(now_s() * 1000);
        for (auto& r : running) {
          Slot& s = slots[r.second];
          if (s.in_execution && nowms > s.exec_started + 1000ull * sc.exec_timeout_s && !hung.count(r.first)) { hung.insert(r.first); kill(r.first, SIGKILL); }
        }
        usleep(500);
      }
      if (g_sh->stop && !stop_all) complete = false;
      uint64_t ex = 0, nt = 0, tr = 0, xt = 0, ml = 0, pr = 0;
      for (int w = 0; w < jobs; w++) { ex += slots[w].executions; nt += slots[w].nontrivial; tr += slots[w].transitions; xt += slots[w].extra_transitions; ml = std::max<uint64_t>(ml, slots[w].maxlen); pr += slots[w].pruned; }
      if (stop_all) complete = false;
      if (!complete) all_complete = false;
      bool last = b == maxb || !complete;
      if (last) { total_exec += ex; total_nontriv += nt; }
      else { total_exec += 0; }
      total_trans += last ? tr : 0; total_extra += last ? xt : 0;
      char buf[1024];
      snprintf(buf, sizeof buf, "%s{\"scenario\":%s,\"bound\":%d,\"executions\":%llu,\"nontrivial\":%llu,\"transitions\":%llu,\"longest\":%llu,\"pruned\":%llu,\"distinct_outcomes\":%llu,\"distinct_states\":%llu,\"complete\":%s,\"wall_s\":%.2f}",
               scen_json.empty() ? "" : ",\n", json_str(sc.name).c_str(), b, (unsigned long long)ex, (unsigned long long)nt, (unsigned long long)(tr + xt),
               (unsigned long long)ml, (unsigned long long)pr, (unsigned long long)(g_sh->outcomes - o0), (unsigned long long)(g_sh->states - s0), complete ? "true" : "false", now_s() - ts);
      scen_json += buf;
      fprintf(stderr, "%-40s bound %d: %9llu executions, %llu transitions, longest %llu, outcomes +%llu, states +%llu, %.1fs%s\n", sc.name, b, (unsigned long long)ex,
              (unsigned long long)(tr + xt), (unsigned long long)ml, (unsigned long long)(g_sh->outcomes - o0), (unsigned long long)(g_sh->states - s0), now_s() - ts, complete ? "" : "  (NOT COMPLETE)");
      // A sample of this scenario: the last execution of one of the workers.
      if (last && !stop_all) {
        Slot& w = slots[jobs / 2].executions ? slots[jobs / 2] : slots[0];
        std::vector<int> ch; for (int i = 0; i < w.npoints; i++) ch.push_back(w.pts[i].choice);
        while (!ch.empty() && ch.back() == 0) ch.pop_back();
        std::string msg;
        auto r = run_single(sc, b, ch, &slots[o.jobs], o.workdir, sc.exec_timeout_s * 3, &msg);
        std::string txt = r.second.substr(0, 1500);
        std::string cs; for (int c : ch) cs += std::to_string(c) + ",";
        samples_json += (samples_json.empty() ? "" : ",\n") + std::string("{\"scenario\":") + json_str(sc.name) + ",\"choices\":" + json_str(cs) + ",\"trace\":" + json_str(txt) + "}";
      }
      if (!complete) break;
    }
    if (o.max_seconds > 0 && now_s() - t0 > o.max_seconds) { if (&sc != &scenarios().back()) all_complete = false; }
  }

  // Replay before report.
  std::string viol_json;
  for (auto& v : viols) {
    const Scenario* sc = nullptr; for (auto& s : scenarios()) if (v.scenario == s.name) sc = &s;
    std::string msg;
    auto r = run_single(*sc, v.bound, v.choices, &slots[0], o.workdir, sc->exec_timeout_s * 3, &msg);
    std::string cs; for (int c : v.choices) cs += std::to_string(c) + ",";
    bool confirmed = r.first == v.key || (!r.first.empty() && r.first != "internal");
    viol_json += (viol_json.empty() ? "" : ",\n") + std::string("{\"key\":") + json_str(r.first.empty() ? v.key : r.first) + ",\"scenario\":" + json_str(v.scenario) + ",\"bound\":" + std::to_string(v.bound) +
                 ",\"choices\":" + json_str(cs) + ",\"confirmed\":" + (confirmed ? "true" : "false") + ",\"msg\":" + json_str((msg.empty() ? v.msg : msg).substr(0, 3000)) + ",\"trace\":" + json_str(r.second.substr(0, 20000)) + "}";
  }
  std::string known_json;
  for (auto& k : known_hits) known_json += (known_json.empty() ? "" : ",") + std::string("{\"key\":") + json_str(k.first) + ",\"hits\":" + std::to_string(k.second) + ",\"example\":" + json_str(known_example[k.first]) + "}";
  std::ofstream out(o.out.empty() ? "/dev/stdout" : o.out);
  out << "{\"tier\":" << json_str(o.tier) << ",\"executions\":" << total_exec << ",\"nontrivial\":" << total_nontriv << ",\"transitions\":" << total_trans + total_extra
      << ",\"distinct_outcomes\":" << g_sh->outcomes << ",\"distinct_states\":" << g_sh->states << ",\"table_full\":" << g_sh->table_full << ",\"complete\":" << (all_complete ? "true" : "false") << ",\"wall_s\":" << now_s() - t0
      << ",\n\"scenarios\":[" << scen_json << "],\n\"samples\":[" << samples_json << "],\n\"known\":[" << known_json << "],\n\"violations\":[" << viol_json << "]}\n";
  return 0;
}
}  // namespace mc
