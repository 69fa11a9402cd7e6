// Internal to the runtime (sched.cpp, vos.cpp).
#pragma once
#include "mc.h"
#include "msched.h"
extern "C" int mc_rt_depth;
namespace rt {
constexpr int kMaxThreads = 14;
struct Guard { Guard() { ++mc_rt_depth; } ~Guard() { --mc_rt_depth; } };
// Scheduling point before a visible operation of the current thread.
void point(const char* what, const void* obj);
// Blocks the current thread until pred() or the deadline (ns, UINT64_MAX none); true: timed out.
bool block(const char* what, const void* obj, const std::function<bool()>& pred, uint64_t deadline);
uint64_t now();
bool active();          // inside an execution, on a fiber
void range(const void* p, size_t n, bool write, void* pc);
struct VC { uint32_t c[kMaxThreads]; };
VC& obj_clock(const void* obj, int sub = 0);
void acquire(const VC& v);
void release(VC& v);    // v join= current; current ticks
void add_event(uint64_t t);   // time may usefully advance to t
void vos_reset();
void op_trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
}  // namespace rt
