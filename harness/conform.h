// The model operating system against the real one: every short sequence of
// calls is made on both, and their answers are compared.
#pragma once
#include "ah.h"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
extern "C" {
int __real_pipe(int*); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
int __real_close(int); int __real_poll(pollfd*, nfds_t, int); int __real_fcntl(int, int, ...); int __real_dup(int);
int __real_socketpair(int, int, int, int*); int __real_shutdown(int, int); int __real_open(const char*, int, ...);
off_t __real_lseek(int, off_t, int); int __real_setsockopt(int, int, int, const void*, socklen_t);
int __real_getsockopt(int, int, int, void*, socklen_t*); int __real_socket(int, int, int);
}
namespace conform {
struct Answer {
  long r = 0; int err = 0; std::string data;
  bool operator==(const Answer& o) const { return r == o.r && err == o.err && data == o.data; }
  std::string str() const { return std::to_string(r) + (err ? std::string(" ") + strerror(err) : "") + " \"" + data + "\""; }
};
inline Answer answer(long r, std::string d = "") { Answer a; a.err = r < 0 ? errno : 0; a.r = r; a.data = d; return a; }
// Real descriptors of one execution.
struct Real { int fd[4] = {-1, -1, -1, -1}; ~Real() { for (int f : fd) if (f >= 0) __real_close(f); } };
inline void same(const std::string& log, const Answer& model, const Answer& real) {
  if (!(model == real)) mc::fail("model-differs", log + ": the model answers " + model.str() + ", the system " + real.str());
}
inline Answer rd(bool real, int fd, size_t n) {
  char b[16] = {};
  long r = real ? __real_read(fd, b, n) : ::read(fd, b, n);
  return answer(r, r > 0 ? std::string(b, r) : "");
}
inline Answer wr(bool real, int fd, const char* s, size_t n) { return answer(real ? __real_write(fd, s, n) : ::write(fd, s, n)); }
inline Answer pl(bool real, int fd, short ev) {
  pollfd p{fd, ev, 0};
  int r = real ? __real_poll(&p, 1, 0) : ::poll(&p, 1, 0);
  return answer(r, std::to_string(p.revents));
}
// A pipe (sockets false) or a pair of connected sockets, all descriptors non-blocking.
inline void streams(bool sockets, int depth) {
  Real k;
  int m[4] = {-1, -1, -1, -1};
  if (sockets) { vos::socketpair(m); if (__real_socketpair(AF_UNIX, SOCK_STREAM, 0, k.fd)) mc::fail("harness", "socketpair"); }
  else { if (::pipe(m) || __real_pipe(k.fd)) mc::fail("harness", "pipe"); }
  for (int i = 0; i < 2; i++) { ::fcntl(m[i], F_SETFL, O_NONBLOCK); __real_fcntl(k.fd[i], F_SETFL, O_NONBLOCK); }
  std::string log;
  char next = 'a';
  for (int i = 0; i < depth; i++) {
    int fd = mc::choose(2, "descriptor");
    int op = mc::choose(sockets ? 8 : 7, "op");
    log += " " + std::to_string(op) + "(" + std::to_string(fd) + ")";
    char s[4] = {next, char(next + 1), char(next + 2), 0};
    bool open = m[fd] >= 0;
    switch (op) {
      case 0: if (open) same(log, wr(false, m[fd], s, 1), wr(true, k.fd[fd], s, 1)); next++; break;
      case 1: if (open) same(log, wr(false, m[fd], s, 3), wr(true, k.fd[fd], s, 3)); next += 3; break;
      case 2: if (open) same(log, rd(false, m[fd], 2), rd(true, k.fd[fd], 2)); break;
      case 3: if (open) same(log, rd(false, m[fd], 9), rd(true, k.fd[fd], 9)); break;
      case 4: if (open) { same(log, answer(::close(m[fd])), answer(__real_close(k.fd[fd]))); m[fd] = k.fd[fd] = -1; } break;
      case 5: if (open) {   // a duplicate takes its place
        int a = ::dup(m[fd]), b = __real_dup(k.fd[fd]);
        ::close(m[fd]); __real_close(k.fd[fd]); m[fd] = a; k.fd[fd] = b; break;
      } break;
      case 6: if (open) same(log, wr(false, m[fd], s, 0), wr(true, k.fd[fd], s, 0)); break;
      case 7: if (open) same(log, answer(::shutdown(m[fd], SHUT_WR)), answer(__real_shutdown(k.fd[fd], SHUT_WR))); break;
    }
    for (int j = 0; j < 2; j++)
      if (m[j] >= 0)
        for (short ev : {POLLIN, POLLOUT}) same(log + " poll " + std::to_string(j) + (ev == POLLIN ? " in" : " out"), pl(false, m[j], ev), pl(true, k.fd[j], ev));
  }
  for (int j = 0; j < 2; j++) if (m[j] >= 0) ::close(m[j]);
  mc::nontrivial();
}
inline void files(int depth) {
  static const int kFlags[] = {O_RDONLY, O_WRONLY | O_CREAT | O_TRUNC, O_WRONLY | O_CREAT | O_APPEND, O_RDWR, O_RDWR | O_CREAT | O_TRUNC, O_RDWR | O_CREAT | O_APPEND, O_WRONLY | O_CREAT, O_RDWR | O_CREAT | O_EXCL};
  int flags = mc::pick(kFlags, "flags");
  int there = mc::choose(3, "file");
  static const char* kContent[] = {"", "", "abcdef"};
  char path[64]; snprintf(path, sizeof path, "/tmp/.conform-%d", (int)getpid());
  ::unlink(path);
  if (there) {
    vos::set_file("/f", kContent[there]);
    int f = __real_open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (f < 0 || __real_write(f, kContent[there], strlen(kContent[there])) < 0) mc::fail("harness", "file");
    __real_close(f);
  }
  Real k;
  int m = ::open("/f", flags, 0600);
  Answer a = answer(m < 0 ? -1 : 0);
  k.fd[0] = __real_open(path, flags, 0600);
  Answer b = answer(k.fd[0] < 0 ? -1 : 0);
  ::unlink(path);
  std::string log = "flags " + std::to_string(flags) + " file " + std::to_string(there);
  same(log, a, b);
  if (m >= 0) {
    char next = 'A';
    for (int i = 0; i < depth; i++) {
      int op = mc::choose(6, "op");
      log += " " + std::to_string(op);
      char s[4] = {next, char(next + 1), char(next + 2), 0};
      switch (op) {
        case 0: same(log, wr(false, m, s, 1), wr(true, k.fd[0], s, 1)); next++; break;
        case 1: same(log, wr(false, m, s, 3), wr(true, k.fd[0], s, 3)); next += 3; break;
        case 2: same(log, rd(false, m, 2), rd(true, k.fd[0], 2)); break;
        case 3: same(log, rd(false, m, 12), rd(true, k.fd[0], 12)); break;
        case 4: same(log, answer(::lseek(m, 0, SEEK_SET)), answer(__real_lseek(k.fd[0], 0, SEEK_SET))); break;
        case 5: same(log, answer(::lseek(m, 1, SEEK_CUR)), answer(__real_lseek(k.fd[0], 1, SEEK_CUR))); break;
      }
      same(log + " poll", pl(false, m, POLLIN), pl(true, k.fd[0], POLLIN));
    }
    ::close(m);
  }
  mc::nontrivial();
}
}  // namespace conform
