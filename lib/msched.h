// Controlled execution of multi-threaded code: threads are fibers, every
// synchronisation operation and system call is a scheduling point decided by
// the explorer, time is virtual and the operating system is a small model
// (vos).  Also checks every explored execution for data races (vector clocks),
// uses of freed memory, dead stacks and destroyed condition variables,
// deadlocks and executions that never end.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <sys/socket.h>
#include <netinet/in.h>

namespace sched {
int self();                  // id of this thread in the execution; 0 runs the scenario
uint64_t now_ns();           // virtual time since the start of the execution
inline uint64_t now_ms() { return now_ns() / 1000000; }
void sleep_ms(uint64_t ms);  // a timed wait
void point(const char* what = "step");   // an explicit scheduling point
void wait_quiet();           // until no other thread can run without time passing
bool blocked(int tid);       // blocked (not enabled) right now
bool done(int tid);
int threads();               // number of threads started so far, including 0
int live();                  // threads not finished yet
std::string describe();
// Options of this execution (reset to the defaults before each).
struct Options {
  bool atomics = true;        // atomic operations are scheduling points
  bool spurious = true;       // spurious wake-ups of condition variables (one deviation each)
  bool timers = true;         // time may pass although threads could run (one deviation each)
  bool free_switch = true;    // when a thread blocks, any enabled one may follow at no cost
  bool put_off = true;        // without free_switch: whoever would run next may be put off until nobody else can (one deviation)
  bool races = true;          // report data races
  bool left_ok = false;       // threads may be left blocked at the end
  int max_steps = 40000;
};
Options& opt();
struct NoPreempt { NoPreempt(); ~NoPreempt(); };
// Code of the harness whose accesses must not count (bookkeeping shared by threads).
struct Ignore { Ignore(); ~Ignore(); };
uint64_t steps();
size_t heap_live();          // bytes allocated on the heap in this execution and not freed
}  // namespace sched

namespace vos {
// Kinds of system call that may fail or deviate (one deviation each) when enabled.
enum Kind : uint32_t {
  kPipe = 1, kRead = 2, kWrite = 4, kPoll = 8, kFcntl = 16, kDup = 32, kSocket = 64, kConnect = 128, kBind = 256,
  kListen = 512, kAccept = 1024, kGetopt = 2048, kSetopt = 4096, kNames = 8192, kShutdown = 16384, kOpen = 32768,
  kResolve = 65536,
};
struct Config {
  uint32_t fail = 0;          // calls that may fail
  uint32_t shorten = 0;       // kRead/kWrite: may transfer fewer bytes
  uint32_t again = 0;         // kRead/kWrite/kAccept: may answer "would block" although ready
  uint32_t intr = 0;          // may be interrupted (EINTR)
  bool library_sockets_only = false;   // reads and writes deviate only on non-blocking sockets
  size_t pipe_capacity = 65536, socket_capacity = 65536;
  bool closed_is_violation = true;   // using a descriptor number after it was closed
};
Config& cfg();
int open_count();                       // descriptors open now
std::vector<int> open_fds();
bool is_open(int fd);
void next_descriptor(int n);            // number of the next one that is opened
int nonblocking(int fd);                // -1 if not open
std::string describe(int fd);
uint64_t closes();                      // successful closes so far
uint64_t opens();
int misuse();                           // uses of closed descriptor numbers (when not a violation)
// Sockets.  A connected pair for harnesses:
void socketpair(int fds[2]);
void set_option(int fd, int level, int name, int value);
int pushes(int fd);                      // how often data held back (Nagle, cork) were sent out
int backlog(int fd);                     // as passed to listen
int get_option(int fd, int level, int name, int dflt = -1);
// What a connect to an address does.
enum ConnectOutcome { kListenerDecides, kImmediate, kInProgressOk, kInProgressRefused, kRefused, kHangs };
struct Peer { std::string addr; ConnectOutcome outcome; uint64_t delay_ms; };
void set_peer(const std::string& addr, ConnectOutcome o, uint64_t delay_ms = 0);
int accepted_end(const std::string& addr);  // harness end of the oldest connection made to a set_peer address; -1 none
std::string addr_key(const sockaddr* sa, socklen_t len);  // "1.2.3.4:80", "[::1]:80", "unix:path"
// Name resolution.
struct Resolved { int family; std::string ip; int port; int socktype; int proto; };
void set_resolution(const std::string& host, int gai_error, std::vector<Resolved> r, uint64_t delay_ms = 0, int errno_value = 0);
int addrinfo_live();
void set_file(const std::string& path, const std::string& content);
bool get_file(const std::string& path, std::string* content);
struct CallRec { std::string name; int fd; long result; int err; };
std::vector<CallRec>& calls();          // recorded when record_calls
void record_calls(bool on);
}  // namespace vos
