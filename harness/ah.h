// Helpers of the harnesses for the asynchronous half.
#pragma once
#include "arpc/awaitable.h"
#include "arpc/channel.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/flag.h"
#include "arpc/select.h"
#include "arpc/thread.h"
#include "arpc/wait.h"
#include "mc.h"
#include "msched.h"

#include <chrono>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <poll.h>
#include <unistd.h>
#include <utility>
#include <vector>

namespace ah {
using ms = std::chrono::milliseconds;
// Builds the process-wide context without exploring the schedules of that.
inline void warm() {
  sched::NoPreempt np;
  sched::Ignore ig;
  // Its table of children then need not grow any more.
  std::vector<std::unique_ptr<arpc::context>> c;
  for (int i = 0; i < 12; i++) c.push_back(std::make_unique<arpc::context>(arpc::context::top(), false));
}
// Runs f and says how it ended: "ok", "cancelled", "deadline", "again", "eof", "io", "unavailable", ... or "other:<what>".
template <typename F>
std::string how(F&& f, std::string* what = nullptr) {
  auto w = [&](const std::exception& e) { if (what) *what = e.what(); };
  try { f(); return "ok"; }
  catch (const arpc::errors::cancelled& e) { w(e); return "cancelled"; }
  catch (const arpc::errors::deadline_exceeded& e) { w(e); return "deadline"; }
  catch (const arpc::errors::try_again& e) { w(e); return "again"; }
  catch (const arpc::errors::eof& e) { w(e); return "eof"; }
  catch (const arpc::errors::io_error& e) { w(e); return "io"; }
  catch (const arpc::errors::base_error& e) { w(e); return std::string("error:") + std::string(e.portable_error_class_name()); }
  catch (const std::exception& e) { w(e); return std::string("other:") + e.what(); }
}
using mc::amount;
// Whether what is waited for has happened already.
inline bool ready_now(arpc::awaitable<void> a) { auto [x, t] = arpc::select(std::move(a), arpc::always()); return bool(x); }
// Virtual time since the start of the execution, in microseconds.
inline uint64_t us() { return sched::now_ns() / 1000; }
inline void sleep_us(uint64_t n) { std::this_thread::sleep_for(std::chrono::microseconds(n)); }
// A pipe of the harness, closed at the end of its life.
struct Pipe {
  int r, w;
  Pipe() { int f[2]; if (::pipe(f)) mc::fail("harness", "pipe"); r = f[0]; w = f[1]; }
  ~Pipe() { if (r >= 0) ::close(r); if (w >= 0) ::close(w); }
  Pipe(const Pipe&) = delete;
  void put(const char* s = "x") { if (::write(w, s, strlen(s)) < 0) mc::fail("harness", "write"); }
  bool ready() const;
};
// Opened once, by one thread; others wait for it.
struct Gate {
  std::mutex m; std::condition_variable c; bool is_open = false;
  void open() { std::scoped_lock l(m); is_open = true; c.notify_all(); }
  void wait() { std::unique_lock l(m); c.wait(l, [this] { return is_open; }); }
};
}  // namespace ah
