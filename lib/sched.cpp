// See msched.h.  Compiled without instrumentation into a shared library of its
// own, so that the data segment of the executable holds only the code under
// test and the harness, and can be restored before every execution.
#include "rt.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <condition_variable>
#include <mutex>
#include <new>
#include <thread>

namespace rt {
namespace {
// ------------------------------------------------------------------ memory
constexpr uintptr_t kBase = 0x100000000000ull;
constexpr size_t kStack = 512 * 1024;
constexpr size_t kStacks = kStack * kMaxThreads;
constexpr size_t kArena = 256u << 20;
constexpr size_t kRegion = kStacks + kArena;
constexpr int kSlots = 4;
struct Cell { uint64_t s[kSlots]; uint32_t pc[kSlots]; };
char* g_region = nullptr;
Cell* g_shadow = nullptr;       // one per 8 bytes of the region
uint8_t* g_state = nullptr;     // one per 8 bytes of the arena: 0 outside, 1 allocated, 2 freed
uintptr_t g_bump = 0, g_snap_bump = 0, g_high = 0;
size_t g_live_bytes = 0, g_snap_live = 0;
// The executable's writable data.
uintptr_t g_data = 0, g_data_end = 0;
Cell* g_data_shadow = nullptr;
std::string* g_data_snap = nullptr;
std::string* g_arena_snap = nullptr;
std::string* g_state_snap = nullptr;
uint32_t g_gen = 0;
bool g_exec = false;
int g_ignore = 0;

void init_region() {
  if (g_region) return;
  void* p = mmap((void*)kBase, kRegion, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)kBase) { fprintf(stderr, "sched: cannot map the arena\n"); _exit(78); }
  g_region = (char*)p;
  for (int i = 0; i < kMaxThreads; i++) mprotect(g_region + i * kStack, 4096, PROT_NONE);
  g_shadow = (Cell*)mmap(nullptr, kRegion / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_state = (uint8_t*)mmap(nullptr, kArena / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_bump = kBase + kStacks;
}
inline bool in_arena(uintptr_t a) { return a - (kBase + kStacks) < kArena; }
struct Header { uint64_t size, magic; };
void* arena_alloc(size_t n, size_t align) {
  init_region();
  if (align < 16) align = 16;
  if (n == 0) n = 1;
  uintptr_t p = (g_bump + sizeof(Header) + align - 1) & ~(align - 1);
  size_t r = (n + 15) & ~size_t(15);
  if (n > (64u << 20) || p + r + 32 > kBase + kRegion) return nullptr;
  Header* h = (Header*)(p - sizeof(Header));
  h->size = n; h->magic = 0xA110CA7Eull;
  memset(g_state + (p - kBase - kStacks) / 8, 1, (n + 7) / 8);
  g_bump = p + r + 16;
  if (g_bump > g_high) g_high = g_bump;
  g_live_bytes += n;
  // Fresh memory has arbitrary contents; a fixed pattern shows uses before initialisation.
  memset((void*)p, 0xA5, r);
  return (void*)p;
}
void arena_free(void* q) {
  uintptr_t p = (uintptr_t)q;
  uint8_t* st = g_state + (p - kBase - kStacks) / 8;
  Header* h = (Header*)(p - sizeof(Header));
  if (h->magic != 0xA110CA7Eull) mc::fail("bad-free", "memory freed that is not the start of an allocation");
  if (*st == 2) mc::fail("double-free", "memory freed twice");
  size_t n = (h->size + 7) / 8;
  memset(st, 2, n ? n : 1);
  g_live_bytes -= h->size;
}
struct Init { Init() { init_region(); } };

// ------------------------------------------------------------------ fibers
enum { kRun, kBlocked, kDone };
struct Fiber {
  int id, status;
  void* sp;
  int depth;                       // mc_rt_depth
  uint64_t eh[2];                  // __cxa_eh_globals
  std::function<bool()>* pred;
  uint64_t deadline;
  const char* what; const void* obj;
  VC vc;
  void (*entry)(void*); void* arg;
  int steps;                       // consecutive
  bool yielding, quiet, late;      // late: runs only when nobody else can
  bool started;
  std::vector<std::pair<void (*)(void*), void*>>* tls_dtors;
  struct Tls { void* control; void* mem; } tls[32];
  int ntls;
};
Fiber g_fib[kMaxThreads];
int g_nfib = 0, g_cur = -1;
void* g_main_sp;
uint64_t g_main_eh[2];
uint64_t g_now = 0;
int g_nopreempt = 0;
uint64_t g_steps = 0;
std::vector<uint64_t>* g_events = nullptr;
sched::Options g_opt;
void (*g_body)() = nullptr;
bool g_in_mode_left = false;
constexpr uint64_t kForever = UINT64_MAX;

// Objects: mutexes, condition variables, atomics, ...
struct Obj {
  uintptr_t addr; uint32_t gen; int sub;
  VC vc; bool has_vc;
  int owner, depth;   // mutex: -1 free
  int readers;
  bool destroyed;
  struct Waiter { int fiber; bool signalled; } w[kMaxThreads]; int nw;
};
// A small table that stays in the cache, and a large one for executions with very many objects.
constexpr size_t kObjs = 1u << 15, kMoreObjs = 1u << 22;
Obj* g_objs = nullptr, * g_more_objs = nullptr;
Obj* lookup(Obj*& table, size_t size, size_t tries, uint64_t h, uintptr_t a, int sub) {
  if (!table) { table = (Obj*)mmap(nullptr, size * sizeof(Obj), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  for (size_t i = h & (size - 1), n = 0; n < tries; i = (i + 1) & (size - 1), n++) {
    Obj& o = table[i];
    if (o.gen != g_gen) { memset((void*)&o, 0, sizeof o); o.addr = a; o.sub = sub; o.gen = g_gen; o.owner = -1; return &o; }
    if (o.addr == a && o.sub == sub) return &o;
  }
  return nullptr;
}
Obj& object(const void* a, int sub = 0) {
  uint64_t h = ((uintptr_t)a + sub * 7919) * 0x9E3779B97F4A7C15ull >> 40;
  if (Obj* o = lookup(g_objs, kObjs, 256, h, (uintptr_t)a, sub)) return *o;
  if (Obj* o = lookup(g_more_objs, kMoreObjs, kMoreObjs, h, (uintptr_t)a, sub)) return *o;
  fprintf(stderr, "sched: object table full\n"); _exit(78);
}
inline void join(VC& a, const VC& b) { for (int i = 0; i < kMaxThreads; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

std::string where(void* pc) { char b[32]; snprintf(b, sizeof b, "pc=%p", pc); return b; }

__attribute__((noinline)) void report(const char* key, uintptr_t a, bool w, void* pc, const std::string& more) {
  Guard g;
  char b[256];
  snprintf(b, sizeof b, "T%d %s %#lx (%s)%s", g_cur, w ? "writes" : "reads", (unsigned long)a, where(pc).c_str(), more.c_str());
  mc::fail(key, b);
}

// slot: clk 32 | gen 18 | tid 4 | write 1 | atomic 1 | mask 8
constexpr uint32_t kGenMask = (1u << 18) - 1;
inline uint64_t pack(uint32_t clk, uint32_t gen, int tid, bool w, bool at, uint8_t mask) {
  return (uint64_t)clk << 32 | (uint64_t)gen << 14 | (uint64_t)tid << 10 | (uint64_t)w << 9 | (uint64_t)at << 8 | mask;
}
inline void cell_access(Cell& c, uint8_t mask, bool w, bool at, void* pc, uintptr_t a) {
  const VC& vc = g_fib[g_cur].vc;
  uint64_t mine = pack(vc.c[g_cur], g_gen & kGenMask, g_cur, w, at, mask);
  int place = -1, old = -1;
  for (int i = 0; i < kSlots; i++) {
    uint64_t s = c.s[i];
    if (s == mine) return;
    if ((s >> 14 & kGenMask) != (g_gen & kGenMask) || s == 0) { if (place < 0) place = i; continue; }
    int tid = s >> 10 & 15;
    bool sw = s >> 9 & 1, sat = s >> 8 & 1;
    uint32_t clk = s >> 32;
    if (tid == g_cur) {
      if (sw == w && sat == at && (uint8_t)(s & ~(uint64_t)mask & 255) == 0) place = i;   // superseded
      else if (old < 0 && (w || !sw)) old = i;
      continue;
    }
    bool hb = clk <= vc.c[tid];
    if ((s & mask) && (w || sw) && !(at && sat) && !hb && g_opt.races) {
      char b[200];
      snprintf(b, sizeof b, ", unordered with T%d which %s it (pc=%#x)", tid, sw ? "wrote" : "read", c.pc[i]);
      report("data-race", a, w, pc, b);
    }
    if (hb && old < 0) old = i;
  }
  if (place < 0) place = old >= 0 ? old : (int)((a >> 3 ^ vc.c[g_cur]) % kSlots);
  c.s[place] = mine;
  c.pc[place] = (uint32_t)(uintptr_t)pc;
}
inline void check_one(uintptr_t a, bool w, void* pc) {
  if (in_arena(a)) {
    uint8_t st = g_state[(a - kBase - kStacks) / 8];
    if (st == 2) report("use-after-free", a, w, pc, " in freed memory");
    if (st == 0) report("heap-overflow", a, w, pc, " outside of any allocation");
  } else {
    int f = (a - kBase) / kStack;
    if (f != g_cur && f < g_nfib && (g_fib[f].status == kDone || a < (uintptr_t)g_fib[f].sp))
      report("dead-stack", a, w, pc, " on a stack frame that is gone");
  }
}
inline void acc(const void* p, size_t n, bool w, bool at, void* pc) {
  if (mc_rt_depth || !g_exec || g_ignore) return;
  uintptr_t a = (uintptr_t)p, e = a + n;
  if (n == 0) return;
  if (a - kBase < kRegion) {
    for (uintptr_t g = a & ~7ull; g < e; g += 8) {
      uintptr_t lo = g < a ? a : g, hi = g + 8 < e ? g + 8 : e;
      check_one(lo, w, pc);
      uint8_t mask = ((1u << (hi - g)) - 1) & ~((1u << (lo - g)) - 1);
      cell_access(g_shadow[(g - kBase) / 8], mask, w, at, pc, lo);
    }
  } else if (a - g_data < g_data_end - g_data) {
    for (uintptr_t g = a & ~7ull; g < e; g += 8) {
      uintptr_t lo = g < a ? a : g, hi = g + 8 < e ? g + 8 : e;
      uint8_t mask = ((1u << (hi - g)) - 1) & ~((1u << (lo - g)) - 1);
      cell_access(g_data_shadow[(g - g_data) / 8], mask, w, at, pc, lo);
    }
  } else if (a < 4096) {
    report("null-dereference", a, w, pc, "");
  }
}
int find_exe(dl_phdr_info* info, size_t, void*) {
  uintptr_t lo = ~0ull, hi = 0, rlo = 0, rhi = 0;
  for (int i = 0; i < info->dlpi_phnum; i++) {
    auto& h = info->dlpi_phdr[i];
    uintptr_t b = info->dlpi_addr + h.p_vaddr, e = b + h.p_memsz;
    if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) { lo = std::min(lo, b); hi = std::max(hi, e); }
    if (h.p_type == PT_GNU_RELRO) { rlo = b; rhi = e; }
  }
  if (rhi > lo && rlo <= lo + 4096) lo = (rhi + 4095) & ~4095ull;
  g_data = lo & ~7ull; g_data_end = hi;
  return 1;   // only the first object: the executable
}
void snapshot() {
  Guard g;
  init_region();
  dl_iterate_phdr(find_exe, nullptr);
  g_data_shadow = (Cell*)mmap(nullptr, ((g_data_end - g_data) / 8 + 1) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_data_snap = new std::string((char*)g_data, g_data_end - g_data);
  g_snap_bump = g_bump; g_high = g_bump; g_snap_live = g_live_bytes;
  g_arena_snap = new std::string((char*)(kBase + kStacks), g_bump - kBase - kStacks);
  g_state_snap = new std::string((char*)g_state, (g_bump - kBase - kStacks) / 8 + 1);
}
void restore() {
  memcpy((void*)g_data, g_data_snap->data(), g_data_snap->size());
  memcpy((void*)(kBase + kStacks), g_arena_snap->data(), g_arena_snap->size());
  memset(g_state, 0, (g_high - kBase - kStacks) / 8 + 8);
  memcpy(g_state, g_state_snap->data(), g_state_snap->size());
  g_bump = g_high = g_snap_bump; g_live_bytes = g_snap_live;
  g_gen++;
  if ((g_gen & kGenMask) == 0) {
    g_gen++;
    madvise(g_shadow, kRegion / 8 * sizeof(Cell), MADV_DONTNEED);
    madvise(g_data_shadow, ((g_data_end - g_data) / 8 + 1) * sizeof(Cell), MADV_DONTNEED);
  }
}
}  // namespace

extern "C" void mc_switch(void** from, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

static uint64_t* eh_globals() { return (uint64_t*)abi::__cxa_get_globals(); }
static void switch_to(int to) {
  int from = g_cur;
  if (from == to) return;
  uint64_t* eh = eh_globals();
  uint64_t* save = from >= 0 ? g_fib[from].eh : g_main_eh;
  uint64_t* load = to >= 0 ? g_fib[to].eh : g_main_eh;
  save[0] = eh[0]; save[1] = eh[1]; eh[0] = load[0]; eh[1] = load[1];
  int depth = mc_rt_depth;
  if (from >= 0) g_fib[from].depth = depth;
  if (to >= 0) mc_rt_depth = g_fib[to].depth;
  g_cur = to;
  mc_switch(from >= 0 ? &g_fib[from].sp : &g_main_sp, to >= 0 ? g_fib[to].sp : g_main_sp);
  mc_rt_depth = depth;   // ours again
}
static void fiber_finish();
static void fiber_main() {
  Fiber& f = g_fib[g_cur];
  mc_rt_depth = 0;
  try {
    f.entry(f.arg);
  } catch (...) {
    mc_rt_depth++;
    mc::fail("terminate", std::string("an exception left a thread: ") + (abi::__cxa_current_exception_type() ? abi::__cxa_current_exception_type()->name() : "?"));
  }
  mc_rt_depth++;
  fiber_finish();
  __builtin_trap();
}
static int new_fiber(void (*entry)(void*), void* arg) {
  if (g_nfib >= kMaxThreads) mc::fail("too-many-threads", "more threads than the runtime supports");
  int id = g_nfib++;
  Fiber& f = g_fib[id];
  memset((void*)&f, 0, sizeof f);
  f.id = id; f.entry = entry; f.arg = arg; f.status = kRun; f.deadline = kForever; f.what = "start"; f.obj = nullptr;
  char* top = g_region + (id + 1) * kStack - 64;
  uintptr_t* sp = (uintptr_t*)((uintptr_t)top & ~15ull);
  *--sp = 0;                    // alignment: as after a call
  *--sp = (uintptr_t)&fiber_main;
  for (int i = 0; i < 6; i++) *--sp = 0;
  f.sp = sp;
  f.depth = 1;
  if (g_cur >= 0) { f.vc = g_fib[g_cur].vc; g_fib[g_cur].vc.c[g_cur]++; }
  f.vc.c[id] = 1;
  return id;
}
static bool enabled(Fiber& f) {
  if (f.status == kDone) return false;
  if (f.status == kRun) return true;
  if (f.quiet) return false;
  return (f.pred && (*f.pred)()) || (f.deadline != kForever && f.deadline <= g_now);
}
static std::string describe() {
  std::string s; char b[160];
  for (int i = 0; i < g_nfib; i++) {
    Fiber& f = g_fib[i];
    snprintf(b, sizeof b, "T%d:%s%s%s%s", i, f.status == kDone ? "done" : f.status == kRun ? "running" : "blocked in ", f.status == kBlocked ? f.what : "",
             f.status == kBlocked && f.deadline != kForever ? " (timed)" : "", i + 1 < g_nfib ? ", " : "");
    s += b;
  }
  return s;
}
static void do_switch(int to) {
  if (to != g_cur) { if (g_cur >= 0) g_fib[g_cur].steps = 0; switch_to(to); }
}
// The current fiber (enabled or not) gives up the processor; returns when it is to run.
static void schedule(bool cur_enabled) {
  Fiber& me = g_fib[g_cur];
  if (++g_steps > (uint64_t)g_opt.max_steps) mc::fail("livelock", "the execution does not end: " + describe());
  for (;;) {
    int cand[kMaxThreads + 3]; uint8_t cost[kMaxThreads + 3]; int n = 0;
    bool pin = cur_enabled && g_nopreempt > 0 && !me.yielding;
    bool others = false, late = false;
    if (cur_enabled && !me.yielding) { cand[n] = g_cur; cost[n++] = 0; }
    if (!pin) {
      for (int k = 1; k <= g_nfib; k++) {
        int i = (g_cur + k) % g_nfib;
        if (i == g_cur && (me.status == kDone || (cur_enabled && !me.yielding))) continue;
        if (!enabled(g_fib[i])) continue;
        if (g_fib[i].late && !me.yielding) { late = true; continue; }
        if (i != g_cur) others = true;
        cand[n] = i;
        cost[n] = (cur_enabled && !me.yielding) ? 1 : (n == 0 || (g_opt.free_switch && !g_nopreempt)) ? 0 : 1;
        n++;
      }
    }
    if (n == 0 && late) { for (int i = 0; i < g_nfib; i++) g_fib[i].late = false; continue; }
    if (n == 0) {   // someone waiting for quiet?
      for (int i = 0; i < g_nfib; i++) if (g_fib[i].status == kBlocked && g_fib[i].quiet) { cand[n] = i; cost[n++] = 0; break; }
    }
    uint64_t timer = kForever;
    if (n == 0 || (g_opt.timers && !pin && !g_nopreempt && mc::remaining() > 0)) {
      for (int i = 0; i < g_nfib; i++) if (g_fib[i].status == kBlocked && g_fib[i].deadline > g_now) timer = std::min(timer, g_fib[i].deadline);
      for (uint64_t t : *g_events) if (t > g_now) timer = std::min(timer, t);
    }
    if (n == 0) {
      if (timer != kForever) { g_now = timer; op_trace("-- time passes: %.3f ms", g_now / 1e6); continue; }
      bool all = true;
      for (int i = 0; i < g_nfib; i++) if (g_fib[i].status != kDone) all = false;
      if (all || (g_in_mode_left && g_opt.left_ok)) { switch_to(-1); __builtin_trap(); }
      mc::fail(g_in_mode_left ? "thread-left" : "deadlock", "no thread can go on: " + describe());
    }
    // Fairness: nobody runs for ever while others could.
    if (cur_enabled && (others || late) && me.steps > 400) for (int i = 0; i < g_nfib; i++) g_fib[i].late = false;
    if (cur_enabled && others && me.steps > 400) { me.steps = 0; for (int i = 0; i < n; i++) if (cand[i] != g_cur) { do_switch(cand[i]); return; } }
    // Whoever would run is put off until nobody else can.
    int put_off = -1;
    if (g_opt.put_off && !g_opt.free_switch && !g_nopreempt && n > 1 && !me.yielding && mc::remaining() > 0) { put_off = n; cand[n] = cand[1]; cost[n++] = 1; }
    if (timer != kForever) { cand[n] = -1; cost[n++] = 1; }
    int zero = 0;
    for (int i = 0; i < n; i++) if (cost[i] == 0) zero++;
    int c = 0;
    if (n > 1 && (zero > 1 || mc::remaining() > 0)) c = mc::choose_cost(n, cost, "schedule");
    if (cand[c] == -1) { g_now = timer; op_trace("-- time passes: %.3f ms", g_now / 1e6); continue; }
    if (put_off >= 0 && c == put_off) { g_fib[cand[0]].late = true; op_trace("(T%d is put off)", cand[0]); }
    me.yielding = false;
    g_fib[cand[c]].late = false;
    if (cand[c] == g_cur) { me.steps++; return; }
    do_switch(cand[c]);
    return;
  }
}
static void fiber_finish() {
  Fiber& f = g_fib[g_cur];
  if (f.tls_dtors) {
    mc_rt_depth = 0;
    while (!f.tls_dtors->empty()) { auto d = f.tls_dtors->back(); f.tls_dtors->pop_back(); d.first(d.second); }
    mc_rt_depth = 1;
    delete f.tls_dtors; f.tls_dtors = nullptr;
  }
  op_trace("ends");
  f.status = kDone;
  if (g_cur == 0) g_in_mode_left = true;
  schedule(false);
  __builtin_trap();
}

// ------------------------------------------------------------------ interface to the wrappers
uint64_t now() { return g_now; }
bool active() { return g_exec && mc_rt_depth == 0 && g_cur >= 0; }
void op_trace(const char* fmt, ...) {
  if (!mc::tracing()) return;
  char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  mc::trace("  T%d %s", g_cur, b);
}
static void live_check(const void* obj) {
  if (!obj) return;
  uintptr_t a = (uintptr_t)obj;
  if (a - kBase < kRegion) check_one(a, false, nullptr);
}
void point(const char* what, const void* obj) {
  Fiber& f = g_fib[g_cur];
  f.what = what; f.obj = obj; f.status = kRun;
  schedule(true);
  if (obj) live_check(obj);
}
bool block(const char* what, const void* obj, const std::function<bool()>& pred, uint64_t deadline) {
  Fiber& f = g_fib[g_cur];
  if (pred()) return false;
  if (deadline <= g_now) return true;
  op_trace("waits in %s", what);
  std::function<bool()> p = pred;
  for (;;) {
    f.status = kBlocked; f.what = what; f.obj = obj; f.pred = &p; f.deadline = deadline;
    schedule(false);
    f.status = kRun; f.pred = nullptr; f.deadline = kForever;
    bool ok = p();
    if (ok) return false;
    if (deadline <= g_now) return true;
  }
}
VC& obj_clock(const void* obj, int sub) { Obj& o = object(obj, sub); return o.vc; }
void acquire(const VC& v) { join(g_fib[g_cur].vc, v); }
void release(VC& v) { join(v, g_fib[g_cur].vc); g_fib[g_cur].vc.c[g_cur]++; }
void add_event(uint64_t t) { g_events->push_back(t); }
void range(const void* p, size_t n, bool write, void* pc) { int d = mc_rt_depth; mc_rt_depth = 0; acc(p, n, write, false, pc); mc_rt_depth = d; }

// ------------------------------------------------------------------ executions
static void body_entry(void*) { g_body(); }
static void before() {
  if (!g_data_snap) snapshot();
  if (!g_events) g_events = new std::vector<uint64_t>;
  restore();
  g_events->clear();
  g_nfib = 0; g_cur = -1; g_now = 0; g_nopreempt = 0; g_steps = 0; g_in_mode_left = false; g_ignore = 0;
  g_opt = sched::Options();
  vos_reset();
  new_fiber(&body_entry, nullptr);
}
static void terminate_handler() {
  mc_rt_depth++;
  const char* n = "";
  if (auto* t = abi::__cxa_current_exception_type()) n = t->name();
  mc::fail("terminate", std::string("std::terminate: ") + n);
}
static void run(void (*body)()) {
  g_body = body;
  __libc_single_threaded = 0;   // reference counts are to be atomic
  std::set_terminate(terminate_handler);
  int d = mc_rt_depth;
  g_exec = true;
  switch_to(0);
  g_exec = false;
  mc_rt_depth = d;
}
static void after() { g_exec = false; }
static void prune_now() { mc_rt_depth++; switch_to(-1); }
static Init g_init;
struct Hook { Hook() { mc::before_execution = before; mc::run_wrapper = run; mc::after_execution = after; mc::prune_impl = prune_now; } };
static Hook g_hook;

// ------------------------------------------------------------------ mutexes
static bool mutex_free(Obj& o) { return o.owner < 0 && o.readers == 0; }
static void take(Obj& o) { o.owner = g_cur; o.depth = 1; acquire(o.vc); }
static int mutex_kind(const void* m) { return ((const pthread_mutex_t*)m)->__data.__kind & 3; }
static void mutex_lock(void* m) {
  Guard g;
  point("lock", m);
  Obj* o = &object(m);
  if (o->owner == g_cur && mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE) { o->depth++; return; }
  if (o->owner == g_cur) mc::fail("self-deadlock", "a thread locks a mutex that it holds: " + describe());
  if (!mutex_free(*o)) block("lock", m, [o] { return mutex_free(*o); }, kForever);
  live_check(m);
  take(*o);
  op_trace("locks %p", m);
}
static bool mutex_trylock(void* m, uint64_t deadline = 0) {
  Guard g;
  point("trylock", m);
  Obj* o = &object(m);
  if (o->owner == g_cur && mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE) { o->depth++; return true; }
  if (!mutex_free(*o)) { if (deadline <= g_now || block("timedlock", m, [o] { return mutex_free(*o); }, deadline)) return false; }
  take(*o);
  op_trace("trylocks %p", m);
  return true;
}
static void mutex_unlock(void* m) {
  Guard g;
  live_check(m);
  Obj& o = object(m);
  if (o.owner != g_cur) mc::fail("bad-unlock", "a mutex is unlocked by a thread that does not hold it");
  if (--o.depth) return;
  o.owner = -1;
  release(o.vc);
  op_trace("unlocks %p", m);
}
// ------------------------------------------------------------------ condition variables
static bool cond_wait(void* c, void* m, uint64_t deadline) {
  Guard g;
  if (g_opt.spurious && mc::choose_dev(2, "spurious")) {
    op_trace("wakes spuriously from %p", c);
    mutex_unlock(m); mutex_lock(m);
    return false;
  }
  Obj* o = &object(c, 1);
  if (o->destroyed) mc::fail("destroyed-condvar", "wait on a destroyed condition variable");
  live_check(c);
  // Atomically release and wait.
  Obj& mo = object(m);
  if (mo.owner != g_cur) mc::fail("bad-wait", "wait with a mutex that is not held");
  int depth = mo.depth; mo.depth = 0; mo.owner = -1; release(mo.vc);
  int me = g_cur;
  if (o->nw >= kMaxThreads) mc::fail("internal", "waiters");
  o->w[o->nw++] = {me, false};
  auto sig = [o, me] { for (int i = 0; i < o->nw; i++) if (o->w[i].fiber == me) return o->w[i].signalled; return true; };
  bool timed_out = block("condition wait", c, sig, deadline);
  for (int i = 0; i < o->nw; i++) if (o->w[i].fiber == me) { for (int k = i + 1; k < o->nw; k++) o->w[k - 1] = o->w[k]; o->nw--; break; }
  mutex_lock(m);
  object(m).depth = depth;
  return timed_out;
}
static void cond_notify(void* c, bool all) {
  Guard g;
  point(all ? "notify_all" : "notify_one", c);
  Obj& o = object(c, 1);
  if (o.destroyed) mc::fail("destroyed-condvar", "notification of a destroyed condition variable");
  int idx[kMaxThreads], n = 0;
  for (int i = 0; i < o.nw; i++) if (!o.w[i].signalled) idx[n++] = i;
  op_trace("notifies %p (%d waiting)", c, n);
  if (!n) return;
  if (all) { for (int i = 0; i < n; i++) o.w[idx[i]].signalled = true; return; }
  int k = n > 1 && mc::remaining() > 0 ? mc::choose_dev(n, "notify_one") : 0;
  o.w[idx[k]].signalled = true;
}
static void cond_destroy(void* c) {
  Guard g;
  Obj& o = object(c, 1);
  live_check(c);
  for (int i = 0; i < o.nw; i++) if (!o.w[i].signalled) mc::fail("condvar-destroyed-with-waiters", describe());
  o.destroyed = true;
}
static void cond_init(void* c) { Guard g; object(c, 1).destroyed = false; object(c, 1).nw = 0; }

// ------------------------------------------------------------------ threads
static int thread_start(void (*entry)(void*), void* arg) {
  Guard g;
  point("thread start", nullptr);
  int id = new_fiber(entry, arg);
  op_trace("starts T%d", id);
  return id;
}
static void thread_join(int id) {
  Guard g;
  point("join", nullptr);
  block("join", nullptr, [id] { return g_fib[id].status == kDone; }, kForever);
  acquire(g_fib[id].vc);
  op_trace("joins T%d", id);
}
constexpr uintptr_t kHandle = 0x7000;

struct TlsControl { size_t size, align; void* obj; void* templ; };
static TlsControl* g_outside_tls_c[32]; static void* g_outside_tls[32]; static int g_outside_n = 0;
static void* tls_get(TlsControl* c) {
  if (g_exec && g_cur >= 0) {
    Fiber& f = g_fib[g_cur];
    for (int i = 0; i < f.ntls; i++) if (f.tls[i].control == c) return f.tls[i].mem;
    if (f.ntls >= 32) mc::fail("internal", "too many thread locals");
    void* m = arena_alloc(c->size, c->align);
    g_live_bytes -= c->size;
    if (c->templ) memcpy(m, c->templ, c->size); else memset(m, 0, c->size);
    f.tls[f.ntls++] = {c, m};
    return m;
  }
  for (int i = 0; i < g_outside_n; i++) if (g_outside_tls_c[i] == c) return g_outside_tls[i];
  void* m = calloc(1, c->size);
  if (c->templ) memcpy(m, c->templ, c->size);
  g_outside_tls_c[g_outside_n] = c; g_outside_tls[g_outside_n++] = m;
  return m;
}

static uint64_t from_realtime(const timespec* ts) {
  int64_t t = (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec - 1600000000000000000ll;
  return t <= 0 ? 0 : t;
}
static uint64_t from_monotonic(const timespec* ts) {
  int64_t t = (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec - 1000000000000ll;
  return t <= 0 ? 0 : t;
}
static void to_timespec(uint64_t ns, timespec* ts) { ts->tv_sec = ns / 1000000000; ts->tv_nsec = ns % 1000000000; }
static void nap(uint64_t ns, bool absolute = false) {
  Guard g;
  point("sleep", nullptr);
  uint64_t until = absolute ? ns : g_now + ns;
  block("sleep", nullptr, [] { return false; }, until);
}
}  // namespace rt
using namespace rt;

namespace sched {
int self() { return g_cur; }
uint64_t now_ns() { return g_now; }
void sleep_ms(uint64_t ms) { nap(ms * 1000000); }
void point(const char* what) { Guard g; rt::point(what, nullptr); }
void wait_quiet() {
  Guard g;
  Fiber& f = g_fib[g_cur];
  f.status = kBlocked; f.quiet = true; f.what = "wait_quiet"; f.pred = nullptr; f.deadline = kForever;
  schedule(false);
  f.status = kRun; f.quiet = false;
}
bool blocked(int tid) { Guard g; return g_fib[tid].status == kBlocked && !enabled(g_fib[tid]); }
bool done(int tid) { return tid < g_nfib && g_fib[tid].status == kDone; }
int threads() { return g_nfib; }
int live() { int n = 0; for (int i = 0; i < g_nfib; i++) if (g_fib[i].status != kDone) n++; return n; }
std::string describe() { return rt::describe(); }
Options& opt() { return g_opt; }
NoPreempt::NoPreempt() { g_nopreempt++; }
NoPreempt::~NoPreempt() { g_nopreempt--; }
Ignore::Ignore() { g_ignore++; }
Ignore::~Ignore() { g_ignore--; }
uint64_t steps() { return g_steps; }
size_t heap_live() { return g_live_bytes - g_snap_live; }
}  // namespace sched

// ------------------------------------------------------------------ replacements
#define PC __builtin_return_address(0)
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!active()) return 0; mutex_lock(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!active()) return 0; return mutex_trylock(m) ? 0 : EBUSY; }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) { if (!active()) return 0; return mutex_trylock(m, from_realtime(ts)) ? 0 : ETIMEDOUT; }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts) { if (!active()) return 0; return mutex_trylock(m, c == CLOCK_MONOTONIC ? from_monotonic(ts) : from_realtime(ts)) ? 0 : ETIMEDOUT; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!active()) return 0; mutex_unlock(m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!active()) return 0;
  Guard g; rt::point("rdlock", m); Obj* o = &object(m);
  block("rdlock", m, [o] { return o->owner < 0; }, kForever); o->readers++; acquire(o->vc); return 0;
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  if (!active()) return 0;
  Guard g; rt::point("tryrdlock", m); Obj& o = object(m);
  if (o.owner >= 0) return EBUSY; o.readers++; acquire(o.vc); return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!active()) return 0;
  Guard g; rt::point("wrlock", m); Obj* o = &object(m);
  if (o->owner == g_cur) mc::fail("self-deadlock", "a thread locks a mutex that it holds");
  block("wrlock", m, [o] { return mutex_free(*o); }, kForever); o->owner = g_cur; acquire(o->vc); acquire(obj_clock(m, 2)); return 0;
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  if (!active()) return 0;
  Guard g; rt::point("trywrlock", m); Obj& o = object(m);
  if (!mutex_free(o)) return EBUSY; o.owner = g_cur; acquire(o.vc); acquire(obj_clock(m, 2)); return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!active()) return 0;
  Guard g; Obj& o = object(m);
  if (o.owner == g_cur) { o.owner = -1; release(o.vc); }
  else if (o.readers > 0) { o.readers--; release(obj_clock(m, 2)); }
  else mc::fail("bad-unlock", "a lock is released that is not held");
  return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!active()) return 0; cond_wait(c, m, kForever); return 0; }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { if (!active()) return 0; return cond_wait(c, m, from_realtime(ts)) ? ETIMEDOUT : 0; }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) {
  if (!active()) return 0;
  return cond_wait(c, m, k == CLOCK_MONOTONIC ? from_monotonic(ts) : from_realtime(ts)) ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) { if (active()) cond_notify(c, false); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { if (active()) cond_notify(c, true); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* c) { if (active()) cond_destroy(c); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { if (active()) cond_init(c); return 0; }
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!active()) { if (!*o) { *o = 2; f(); } return 0; }
  int d;
  { Guard g; d = *o; if (d == 1) block("once", o, [o] { return *o != 1; }, kForever); if (*o == 2) { acquire(object(o, 3).vc); return 0; } *o = 1; }
  try { f(); } catch (...) { *o = 0; throw; }
  { Guard g; *o = 2; release(object(o, 3).vc); }
  return 0;
}
pthread_t __wrap_pthread_self() { return g_exec && g_cur >= 0 ? kHandle + g_cur : 1; }
int __wrap_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
struct PtArg { void* (*f)(void*); void* a; };
static void pt_entry(void* p) { PtArg a = *(PtArg*)p; { Guard g; delete (PtArg*)p; } a.f(a.a); }
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*f)(void*), void* a) {
  Guard g; *t = kHandle + thread_start(pt_entry, new PtArg{f, a}); return 0;
}
int __wrap_pthread_join(pthread_t t, void** r) { thread_join(t - kHandle); if (r) *r = nullptr; return 0; }
int __wrap_pthread_detach(pthread_t) { return 0; }

int __wrap___cxa_guard_acquire(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  if (!active()) { if (b[0]) return 0; b[1] = 1; return 1; }
  Guard gd;
  if (!b[0]) rt::point("static init", g);
  if (b[1] && !b[0]) block("static init", g, [b] { return b[1] == 0 || b[0]; }, kForever);
  if (b[0]) { acquire(object(g, 4).vc); return 0; }
  b[1] = 1;
  return 1;
}
void __wrap___cxa_guard_release(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  b[0] = 1; b[1] = 0;
  if (active()) { Guard gd; release(object(g, 4).vc); release(object(g, 5).vc); }   // 5: the inlined check of the first byte
}
void __wrap___cxa_guard_abort(uint64_t* g) { ((volatile char*)g)[1] = 0; }
int __wrap___cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int __wrap___cxa_thread_atexit(void (*f)(void*), void* a, void*) {
  if (!g_exec || g_cur < 0) return 0;
  Guard g; auto& d = g_fib[g_cur].tls_dtors; if (!d) d = new std::vector<std::pair<void (*)(void*), void*>>; d->push_back({f, a}); return 0;
}
void* __emutls_get_address(TlsControl* c) { return tls_get(c); }

int __wrap_clock_gettime(clockid_t k, timespec* ts) {
  to_timespec(k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE ? g_now + 1600000000000000000ull : g_now + 1000000000000ull, ts);
  return 0;
}
int __wrap_gettimeofday(timeval* tv, void*) { tv->tv_sec = 1600000000 + g_now / 1000000000; tv->tv_usec = g_now / 1000 % 1000000; return 0; }
time_t __wrap_time(time_t* t) { time_t r = 1600000000 + g_now / 1000000000; if (t) *t = r; return r; }
int __wrap_nanosleep(const timespec* ts, timespec*) { nap((uint64_t)ts->tv_sec * 1000000000 + ts->tv_nsec); return 0; }
int __wrap_clock_nanosleep(clockid_t k, int flags, const timespec* ts, timespec*) {
  if (flags & TIMER_ABSTIME) nap(k == CLOCK_REALTIME ? from_realtime(ts) : from_monotonic(ts), true);
  else nap((uint64_t)ts->tv_sec * 1000000000 + ts->tv_nsec);
  return 0;
}
int __wrap_usleep(unsigned us) { nap((uint64_t)us * 1000); return 0; }
unsigned __wrap_sleep(unsigned s) { nap((uint64_t)s * 1000000000); return 0; }
int __wrap_sched_yield() { if (active()) { Guard g; g_fib[g_cur].yielding = true; g_fib[g_cur].status = kRun; g_fib[g_cur].what = "yield"; schedule(true); } return 0; }

// ---- ThreadSanitizer's interface
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define ACC(n) \
  void __tsan_read##n(void* p) { acc(p, n, false, false, PC); } \
  void __tsan_write##n(void* p) { acc(p, n, true, false, PC); } \
  void __tsan_read_write##n(void* p) { acc(p, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* p) { acc(p, n, false, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { acc(p, n, true, false, PC); } \
  void __tsan_unaligned_read_write##n(void* p) { acc(p, n, true, false, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, unsigned long n) { acc(p, n, false, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { acc(p, n, true, false, PC); }
void __tsan_vptr_read(void** p) { acc(p, 8, false, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) acc(p, 8, true, false, PC); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { acc(s, n, false, false, PC); acc(d, n, true, false, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { acc(s, n, false, false, PC); acc(d, n, true, false, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { acc(d, n, true, false, PC); return memset(d, c, n); }
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void atomic_before(const volatile void* p, size_t n, bool w, void* pc) {
  if (!active()) return;
  if (g_opt.atomics) { Guard g; rt::point("atomic", nullptr); }
  acc((const void*)p, n, w, true, pc);
}
static void atomic_after(const volatile void* p, int mo, bool w) {
  if (!active()) return;
  Guard g;
  VC& v = object((const void*)p, 5).vc;
  if (acq(mo)) acquire(v);
  if (w && rel(mo)) release(v);
}
#define ATOMICS(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) { atomic_before(p, sizeof(T), false, PC); T r = *p; atomic_after(p, mo, false); return r; } \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { atomic_before(p, sizeof(T), true, PC); *p = v; atomic_after(p, mo, true); } \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { atomic_before(p, sizeof(T), true, PC); T r = *p; *p = v; atomic_after(p, mo, true); return r; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { atomic_before(p, sizeof(T), true, PC); T r = *p; *p = r + v; atomic_after(p, mo, true); return r; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { atomic_before(p, sizeof(T), true, PC); T r = *p; *p = r - v; atomic_after(p, mo, true); return r; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { atomic_before(p, sizeof(T), true, PC); T r = *p; *p = r & v; atomic_after(p, mo, true); return r; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { atomic_before(p, sizeof(T), true, PC); T r = *p; *p = r | v; atomic_after(p, mo, true); return r; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { atomic_before(p, sizeof(T), true, PC); T r = *p; *p = r ^ v; atomic_after(p, mo, true); return r; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { atomic_before(p, sizeof(T), true, PC); T r = *p; *p = ~(r & v); atomic_after(p, mo, true); return r; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { \
    atomic_before(p, sizeof(T), true, PC); bool ok = *p == *e; if (ok) *p = v; else *e = *p; atomic_after(p, mo, ok); return ok; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { \
    atomic_before(p, sizeof(T), true, PC); bool ok = *p == *e; if (ok) *p = v; else *e = *p; atomic_after(p, mo, ok); return ok; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { \
    atomic_before(p, sizeof(T), true, PC); T r = *p; if (r == e) *p = v; atomic_after(p, mo, r == e); return r; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

// ---- libstdc++
namespace std {
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(g_now + 1600000000000000000ull)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_now + 1000000000000ull)); }
} }
condition_variable::condition_variable() noexcept { if (active()) cond_init(this); }
condition_variable::~condition_variable() noexcept { if (active()) cond_destroy(this); }
void condition_variable::notify_one() noexcept { if (active()) cond_notify(this, false); }
void condition_variable::notify_all() noexcept { if (active()) cond_notify(this, true); }
void condition_variable::wait(unique_lock<mutex>& l) { if (active()) cond_wait(this, l.mutex()->native_handle(), kForever); }
void thread::_M_start_thread(_State_ptr s, void (*)()) { _M_id = id(kHandle + thread_start([](void* p) { _State_ptr s((_State*)p); s->_M_run(); }, s.release())); }
void thread::join() {
  if (_M_id == id()) __throw_system_error(EINVAL);
  if (_M_id._M_thread == kHandle + g_cur) __throw_system_error(EDEADLK);
  thread_join(_M_id._M_thread - kHandle);
  _M_id = id();
}
void thread::detach() { if (_M_id == id()) __throw_system_error(EINVAL); _M_id = id(); }
unsigned int thread::hardware_concurrency() noexcept { return 2; }
}  // namespace std

// ---- memory
static void* do_new(size_t n, size_t al) {
  if (mc_rt_depth) { void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1); return p; }
  return arena_alloc(n, al);
}
extern "C" { extern char __executable_start, etext; }
static void do_delete(void* p, void* pc) {
  if (!p) return;
  if (in_arena((uintptr_t)p)) {
    // Freeing races with every unordered access; except where the library does it, whose own reference counts (of
    // exceptions and their messages) are not seen here.
    bool ours = (uintptr_t)pc >= (uintptr_t)&__executable_start && (uintptr_t)pc < (uintptr_t)&etext;
    if (ours && mc_rt_depth == 0 && g_exec && !g_ignore) {
      Header* h = (Header*)((char*)p - sizeof(Header));
      if (h->magic == 0xA110CA7Eull && g_state[((uintptr_t)p - kBase - kStacks) / 8] == 1) acc(p, h->size, true, false, pc);
    }
    Guard g; arena_free(p);
  } else free(p);
}
void* operator new(size_t n) { void* p = do_new(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = do_new(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { void* p = do_new(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = do_new(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { do_delete(p, PC); }
void operator delete[](void* p) noexcept { do_delete(p, PC); }
void operator delete(void* p, size_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, PC); }
