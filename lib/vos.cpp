// The virtual operating system: descriptors, pipes, sockets, files, names.
#include "rt.h"

#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

#include <deque>
#include <map>
#include <memory>

namespace vos {
namespace {
using rt::VC;
struct Queue {   // one direction of bytes
  std::string data;
  size_t cap = 65536;
  bool writer_gone = false, reader_gone = false, reset = false;
  std::deque<size_t> dgrams;
  VC vc{}, room{};
};
using QueueP = std::shared_ptr<Queue>;
enum Type { kPipeR, kPipeW, kSock, kFile };
enum SockState { kNew, kBound, kListening, kConnecting, kConnected, kFailed };
struct Name { sockaddr_storage sa{}; socklen_t len = 0; };
struct Conn { QueueP a2b, b2a; Name a, b; };
struct File {
  Type type;
  int flags = 0, refs = 1;
  QueueP in, out;
  // socket
  int domain = 0, socktype = 0, proto = 0;
  SockState st = kNew;
  Name self, peer;
  int so_error = 0;
  uint64_t ready_at = UINT64_MAX; int ready_err = 0;
  std::deque<std::shared_ptr<File>> backlog; int backlog_max = 0;
  std::shared_ptr<File> other_pending;    // our end waits here until accepted
  bool shut_r = false, shut_w = false;
  std::map<std::pair<int, int>, std::string> options;
  VC vc{};
  int pushes = 0;
  // file
  std::string path; size_t pos = 0; bool append = false;
};
using FileP = std::shared_ptr<File>;
struct World {
  std::map<int, FileP> fds;
  int next_fd = 1000;
  std::map<int, bool> closed;
  uint64_t opens = 0, closes = 0;
  int misuse = 0;
  std::map<std::string, Peer> peers;
  std::map<std::string, std::deque<FileP>> peer_ends;
  std::map<std::string, std::weak_ptr<File>> listeners;
  std::map<std::string, std::string> files;
  struct Res { int err; std::vector<Resolved> r; uint64_t delay; int eno; };
  std::map<std::string, Res> names;
  int addrinfos = 0;
  std::map<void*, bool> ai_live;
  int next_port = 40000;
  std::vector<CallRec> calls; bool record = false;
};
World* g_w = nullptr;
Config g_cfg;
World& w() { return *g_w; }

long ret(const char* name, int fd, long r, int err = 0) {
  if (w().record) w().calls.push_back({name, fd, r, err});
  if (r < 0) { rt::op_trace("%s(%d) fails: %s", name, fd, strerror(err)); errno = err; }
  else rt::op_trace("%s(%d) = %ld", name, fd, r);
  return r;
}
// Chooses whether the call deviates; 0 or an errno.
int deviate(uint32_t kind, std::initializer_list<int> fails, bool can_block = false) {
  int alt[8], n = 0;
  if (g_cfg.fail & kind) for (int e : fails) alt[n++] = e;
  if (can_block && (g_cfg.again & kind)) alt[n++] = EAGAIN;
  if (g_cfg.intr & kind) alt[n++] = EINTR;
  if (!n || mc::remaining() <= 0) return 0;
  int c = mc::choose_dev(n + 1, "fault");
  return c ? alt[c - 1] : 0;
}
FileP get(int fd, const char* what) {
  auto it = w().fds.find(fd);
  if (it != w().fds.end()) return it->second;
  if (w().closed.count(fd)) {
    w().misuse++;
    if (g_cfg.closed_is_violation) mc::fail("closed-descriptor", std::string(what) + " on descriptor " + std::to_string(fd) + " after it was closed: " + sched::describe());
  }
  return nullptr;
}
int install(FileP f) { int fd = w().next_fd++; w().fds[fd] = f; w().opens++; return fd; }
void drop(FileP f) {
  if (--f->refs) return;
  if (f->in) { f->in->reader_gone = true; if (!f->in->data.empty() && f->type == kSock && f->socktype == SOCK_STREAM && f->out) f->out->reset = true; rt::release(f->in->room); }
  if (f->out) { f->out->writer_gone = true; rt::release(f->out->vc); }
  if (f->st == kListening) {
    w().listeners.erase(addr_key((sockaddr*)&f->self.sa, f->self.len));
    while (!f->backlog.empty()) { auto s = f->backlog.front(); f->backlog.pop_front(); s->refs = 1; drop(s); }
  }
}
bool readable(File& f) {
  switch (f.type) {
    case kPipeR: return !f.in->data.empty() || f.in->writer_gone;
    case kPipeW: return false;
    case kFile: return true;
    case kSock:
      if (f.st == kListening) return !f.backlog.empty();
      if (f.st == kConnected) return !f.in->data.empty() || !f.in->dgrams.empty() || f.in->writer_gone || f.shut_r || f.in->reset;
      if (f.st == kFailed) return true;
      return false;
  }
  return false;
}
void progress(File& f) {
  if (f.type == kSock && f.st == kConnecting && rt::now() >= f.ready_at) {
    if (f.ready_err) { f.st = kFailed; f.so_error = f.ready_err; } else f.st = kConnected;
  }
}
short revents(int fd, short events) {
  auto it = w().fds.find(fd);
  if (fd < 0) return 0;
  if (it == w().fds.end()) { get(fd, "poll"); return POLLNVAL; }
  File& f = *it->second;
  progress(f);
  short r = 0;
  switch (f.type) {
    case kPipeR:
      if (!f.in->data.empty()) r |= POLLIN | POLLRDNORM;
      if (f.in->writer_gone) r |= POLLHUP;
      break;
    case kPipeW:
      if (f.out->data.size() < f.out->cap) r |= POLLOUT | POLLWRNORM;
      if (f.out->reader_gone) r |= POLLERR | POLLOUT;
      break;
    case kFile: r |= POLLIN | POLLOUT; break;
    case kSock:
      if (f.st == kListening) { if (!f.backlog.empty()) r |= POLLIN; break; }
      if (f.st == kNew || f.st == kBound) { r |= POLLOUT | POLLHUP; break; }
      if (f.st == kFailed) { r |= POLLOUT | POLLIN | (f.so_error ? POLLERR : 0) | POLLHUP; break; }
      if (f.st == kConnected) {
        if (readable(f)) r |= POLLIN;
        if (f.shut_w || f.out->reader_gone || f.out->data.size() < f.out->cap) r |= POLLOUT;
        if (f.in->writer_gone && (f.shut_w || f.out->reader_gone)) r |= POLLHUP;
        if (f.so_error || f.in->reset) r |= POLLERR;
      }
      break;
  }
  return r & (events | POLLERR | POLLHUP | POLLNVAL);
}
void sync_poll(int fd) {   // what made it ready happened before
  auto it = w().fds.find(fd);
  if (it == w().fds.end()) return;
  File& f = *it->second;
  if (f.in) rt::acquire(f.in->vc);
  if (f.out) rt::acquire(f.out->room);
  rt::acquire(f.vc);
}
bool deviates(const File& f) { return !g_cfg.library_sockets_only || (f.type == kSock && (f.flags & O_NONBLOCK)); }
long do_read(const char* name, int fd, void* buf, size_t n, bool peek = false, bool nb_flag = false) {
  rt::Guard g;
  rt::point(name, nullptr);
  FileP f = get(fd, name);
  if (!f) return ret(name, fd, -1, EBADF);
  if (f->type == kPipeW) return ret(name, fd, -1, EBADF);
  if (f->type == kFile) {
    if ((f->flags & O_ACCMODE) == O_WRONLY) return ret(name, fd, -1, EBADF);
    const std::string& c = w().files[f->path];
    size_t k = f->pos < c.size() ? std::min(n, c.size() - f->pos) : 0;
    if (int e = deviate(kRead, {EIO})) return ret(name, fd, -1, e);
    if (k > 1 && (g_cfg.shorten & kRead) && mc::remaining() > 0 && mc::choose_dev(2, "short read")) k = 1;
    memcpy(buf, c.data() + f->pos, k); f->pos += k;
    rt::range(buf, k, true, nullptr);
    return ret(name, fd, k);
  }
  if (f->type == kSock) {
    progress(*f);
    if (f->st == kFailed) { int e = f->so_error; f->so_error = 0; return e ? ret(name, fd, -1, e) : ret(name, fd, 0); }
    if (f->st != kConnected) return ret(name, fd, -1, ENOTCONN);
  }
  if (int e = !deviates(*f) ? 0 : deviate(kRead, {ECONNRESET}, (f->flags & O_NONBLOCK) != 0)) return ret(name, fd, -1, e);
  bool nb = (f->flags & O_NONBLOCK) || nb_flag;
  auto empty = [f] { return f->in->data.empty() && f->in->dgrams.empty(); };
  if (empty() && !f->in->writer_gone && !f->shut_r && !f->in->reset) {
    if (nb) return ret(name, fd, -1, EAGAIN);
    if (n == 0) return ret(name, fd, 0);
    rt::block(name, nullptr, [f, empty] { return !empty() || f->in->writer_gone || f->shut_r || f->in->reset; }, UINT64_MAX);
  }
  rt::acquire(f->in->vc);
  if (empty() && f->in->reset) { f->in->reset = false; f->in->writer_gone = true; return ret(name, fd, -1, ECONNRESET); }
  size_t k = std::min(n, f->in->data.size());
  if (f->type == kSock && f->socktype == SOCK_DGRAM && !f->in->dgrams.empty()) {
    size_t d = f->in->dgrams.front(); k = std::min(n, d);
    memcpy(buf, f->in->data.data(), k); rt::range(buf, k, true, nullptr);
    f->in->data.erase(0, d); f->in->dgrams.pop_front();
    rt::release(f->in->room);
    return ret(name, fd, k);
  }
  if (k > 1 && deviates(*f) && (g_cfg.shorten & kRead) && mc::remaining() > 0) {
    int c = mc::choose_dev(k > 2 ? 3 : 2, "short read");
    if (c == 1) k = 1; else if (c == 2) k = k - 1;
  }
  if (k) { memcpy(buf, f->in->data.data(), k); rt::range(buf, k, true, nullptr); if (!peek) f->in->data.erase(0, k); rt::release(f->in->room); }
  return ret(name, fd, k);
}
long do_write(const char* name, int fd, const void* buf, size_t n) {
  rt::Guard g;
  rt::point(name, nullptr);
  FileP f = get(fd, name);
  if (!f) return ret(name, fd, -1, EBADF);
  if (f->type == kPipeR) return ret(name, fd, -1, EBADF);
  rt::range(buf, n, false, nullptr);
  if (f->type == kFile) {
    if ((f->flags & O_ACCMODE) == O_RDONLY) return ret(name, fd, -1, EBADF);
    if (int e = deviate(kWrite, {ENOSPC})) return ret(name, fd, -1, e);
    std::string& c = w().files[f->path];
    if (f->append) f->pos = c.size();
    size_t k = n;
    if (k > 1 && (g_cfg.shorten & kWrite) && mc::remaining() > 0 && mc::choose_dev(2, "short write")) k = 1;
    if (c.size() < f->pos + k) c.resize(f->pos + k);
    memcpy(&c[f->pos], buf, k); f->pos += k;
    return ret(name, fd, k);
  }
  if (f->type == kSock) {
    progress(*f);
    if (f->st == kFailed) { int e = f->so_error; f->so_error = 0; return ret(name, fd, -1, e ? e : EPIPE); }
    if (f->st == kConnecting) return ret(name, fd, -1, EAGAIN);
    if (f->st != kConnected) return ret(name, fd, -1, ENOTCONN);
    if (f->shut_w) return ret(name, fd, -1, EPIPE);
  }
  if (int e = !deviates(*f) ? 0 : deviate(kWrite, {EPIPE}, (f->flags & O_NONBLOCK) != 0)) return ret(name, fd, -1, e);
  if (n == 0 && f->type == kPipeW) return ret(name, fd, 0);
  if (f->out->reader_gone) return ret(name, fd, -1, EPIPE);
  if (f->type == kSock && f->socktype == SOCK_DGRAM) {
    f->out->data.append((const char*)buf, n); f->out->dgrams.push_back(n); rt::release(f->out->vc); return ret(name, fd, n);
  }
  if (n == 0) return ret(name, fd, 0);
  bool nb = f->flags & O_NONBLOCK;
  size_t done = 0;
  while (done < n) {
    size_t room = f->out->cap > f->out->data.size() ? f->out->cap - f->out->data.size() : 0;
    if (!room) {
      if (nb) { if (done) break; return ret(name, fd, -1, EAGAIN); }
      rt::block(name, nullptr, [f] { return f->out->data.size() < f->out->cap || f->out->reader_gone || f->shut_w; }, UINT64_MAX);
      if (f->out->reader_gone || f->shut_w) { if (done) break; return ret(name, fd, -1, EPIPE); }
      continue;
    }
    rt::acquire(f->out->room);
    size_t k = std::min(room, n - done);
    if (k > 1 && nb && deviates(*f) && (g_cfg.shorten & kWrite) && mc::remaining() > 0) {
      int c = mc::choose_dev(k > 2 ? 3 : 2, "short write");
      if (c) { k = c == 1 ? 1 : k - 1; f->out->data.append((const char*)buf + done, k); done += k; rt::release(f->out->vc); break; }
    }
    f->out->data.append((const char*)buf + done, k);
    done += k;
    rt::release(f->out->vc);
  }
  return ret(name, fd, done);
}
std::string make_key(const Name& n) { return addr_key((const sockaddr*)&n.sa, n.len); }
void put_name(const Name& n, sockaddr* a, socklen_t* l) {
  if (!a || !l) return;
  socklen_t k = std::min<socklen_t>(*l, n.len);
  rt::range(a, k, true, nullptr);
  memcpy(a, &n.sa, k);
  *l = n.len;
}
Name any_name(int domain, int port) {
  Name n;
  if (domain == AF_INET6) { auto* s = (sockaddr_in6*)&n.sa; s->sin6_family = AF_INET6; s->sin6_port = htons(port); s->sin6_addr = in6addr_loopback; n.len = sizeof *s; }
  else if (domain == AF_UNIX) { n.sa.ss_family = AF_UNIX; n.len = sizeof(sa_family_t); }
  else { auto* s = (sockaddr_in*)&n.sa; s->sin_family = AF_INET; s->sin_port = htons(port); s->sin_addr.s_addr = htonl(INADDR_LOOPBACK); n.len = sizeof *s; }
  return n;
}
FileP new_sock(int domain, int type, int proto) {
  FileP f = std::make_shared<File>();
  f->type = kSock; f->domain = domain; f->socktype = type & 0xff; f->proto = proto;
  if (type & SOCK_NONBLOCK) f->flags |= O_NONBLOCK;
  return f;
}
void link(FileP a, FileP b) {
  a->in = std::make_shared<Queue>(); a->out = std::make_shared<Queue>();
  a->in->cap = a->out->cap = g_cfg.socket_capacity;
  b->in = a->out; b->out = a->in;
  b->st = kConnected;
}
}  // namespace

std::string addr_key(const sockaddr* sa, socklen_t len) {
  char b[80];
  if (!sa || len < sizeof(sa_family_t)) return "?";
  if (sa->sa_family == AF_INET && len >= sizeof(sockaddr_in)) {
    auto* s = (const sockaddr_in*)sa; inet_ntop(AF_INET, &s->sin_addr, b, sizeof b);
    return std::string(b) + ":" + std::to_string(ntohs(s->sin_port));
  }
  if (sa->sa_family == AF_INET6 && len >= sizeof(sockaddr_in6)) {
    auto* s = (const sockaddr_in6*)sa; inet_ntop(AF_INET6, &s->sin6_addr, b, sizeof b);
    return "[" + std::string(b) + "]:" + std::to_string(ntohs(s->sin6_port));
  }
  if (sa->sa_family == AF_UNIX) return std::string("unix:") + ((const sockaddr_un*)sa)->sun_path;
  return "family" + std::to_string(sa->sa_family);
}
Config& cfg() { return g_cfg; }
void next_descriptor(int n) { w().next_fd = n; }
int open_count() { return w().fds.size(); }
std::vector<int> open_fds() { std::vector<int> r; for (auto& x : w().fds) r.push_back(x.first); return r; }
bool is_open(int fd) { return w().fds.count(fd); }
int nonblocking(int fd) { auto it = w().fds.find(fd); return it == w().fds.end() ? -1 : !!(it->second->flags & O_NONBLOCK); }
std::string describe(int fd) {
  auto it = w().fds.find(fd);
  if (it == w().fds.end()) return "closed";
  File& f = *it->second;
  static const char* t[] = {"pipe-read", "pipe-write", "socket", "file"};
  std::string s = t[f.type];
  if (f.type == kSock) s += "/" + std::to_string(f.domain) + "/" + std::to_string(f.socktype) + "/" + std::to_string(f.st);
  return s;
}
uint64_t closes() { return w().closes; }
uint64_t opens() { return w().opens; }
int misuse() { return w().misuse; }
void socketpair(int fds[2]) {
  rt::Guard g;
  FileP a = new_sock(AF_UNIX, SOCK_STREAM, 0), b = new_sock(AF_UNIX, SOCK_STREAM, 0);
  link(a, b); a->st = kConnected;
  fds[0] = install(a); fds[1] = install(b);
}
void set_option(int fd, int level, int name, int value) { rt::Guard g; w().fds[fd]->options[{level, name}] = std::string((char*)&value, 4); }
int pushes(int fd) { rt::Guard g; auto it = w().fds.find(fd); return it == w().fds.end() ? -1 : it->second->pushes; }
int backlog(int fd) { rt::Guard g; auto it = w().fds.find(fd); return it == w().fds.end() ? -1 : it->second->backlog_max; }
int get_option(int fd, int level, int name, int dflt) {
  rt::Guard g;
  auto it = w().fds.find(fd);
  if (it == w().fds.end()) return dflt;
  auto o = it->second->options.find({level, name});
  if (o == it->second->options.end() || o->second.size() < 4) return dflt;
  int v; memcpy(&v, o->second.data(), 4); return v;
}
void set_peer(const std::string& addr, ConnectOutcome o, uint64_t delay) { rt::Guard g; w().peers[std::string(addr.c_str())] = Peer{std::string(addr.c_str()), o, delay}; }
int accepted_end(const std::string& addr) {
  rt::Guard g;
  auto& q = w().peer_ends[addr];
  if (q.empty()) return -1;
  FileP f = q.front(); q.pop_front();
  return install(f);
}
void set_resolution(const std::string& host, int err, std::vector<Resolved> r, uint64_t delay, int eno) {
  rt::Guard g;
  std::vector<Resolved> c; for (auto& x : r) c.push_back(Resolved{x.family, std::string(x.ip.c_str()), x.port, x.socktype, x.proto});
  w().names[std::string(host.c_str())] = World::Res{err, c, delay, eno};
}
int addrinfo_live() { return w().addrinfos; }
void set_file(const std::string& p, const std::string& c) { rt::Guard g; w().files[std::string(p.c_str())] = std::string(c.data(), c.size()); }
bool get_file(const std::string& p, std::string* c) {
  auto it = w().files.find(p);
  if (it == w().files.end()) return false;
  c->assign(it->second.data(), it->second.size()); return true;
}
std::vector<CallRec>& calls() { return w().calls; }
void record_calls(bool on) { w().record = on; }
}  // namespace vos

void rt::vos_reset() {
  delete vos::g_w;
  vos::g_w = new vos::World;
  vos::g_cfg = vos::Config();
}
using namespace vos;
using rt::Guard;
#define NEEDS_ACTIVE if (!rt::active()) { errno = ENOSYS; return -1; }
extern "C" {
int __wrap_pipe2(int fds[2], int flags) {
  NEEDS_ACTIVE Guard g; rt::point("pipe", nullptr);
  if (int e = deviate(kPipe, {EMFILE})) return ret("pipe", -1, -1, e);
  FileP r = std::make_shared<File>(), wr = std::make_shared<File>();
  r->type = kPipeR; wr->type = kPipeW; r->in = wr->out = std::make_shared<Queue>(); r->in->cap = g_cfg.pipe_capacity;
  r->flags = wr->flags = flags & O_NONBLOCK; wr->flags |= O_WRONLY;
  fds[0] = install(r); fds[1] = install(wr);
  rt::range(fds, 8, true, nullptr);
  return ret("pipe", fds[0], 0);
}
int __wrap_pipe(int fds[2]) { return __wrap_pipe2(fds, 0); }
ssize_t __wrap_read(int fd, void* b, size_t n) { NEEDS_ACTIVE return do_read("read", fd, b, n); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int fl) { NEEDS_ACTIVE return do_read("recv", fd, b, n, fl & MSG_PEEK, fl & MSG_DONTWAIT); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { NEEDS_ACTIVE return do_write("write", fd, b, n); }
ssize_t __wrap_send(int fd, const void* b, size_t n, int) { NEEDS_ACTIVE return do_write("send", fd, b, n); }
ssize_t __wrap_readv(int fd, const iovec* v, int n) { NEEDS_ACTIVE for (int i = 0; i < n; i++) if (v[i].iov_len) return do_read("readv", fd, v[i].iov_base, v[i].iov_len); return do_read("readv", fd, nullptr, 0); }
ssize_t __wrap_writev(int fd, const iovec* v, int n) { NEEDS_ACTIVE for (int i = 0; i < n; i++) if (v[i].iov_len) return do_write("writev", fd, v[i].iov_base, v[i].iov_len); return do_write("writev", fd, nullptr, 0); }
int __wrap_close(int fd) {
  NEEDS_ACTIVE Guard g; rt::point("close", nullptr);
  FileP f = get(fd, "close");
  if (!f) return ret("close", fd, -1, EBADF);
  w().fds.erase(fd); w().closed[fd] = true; w().closes++;
  drop(f);
  return ret("close", fd, 0);
}
int __wrap_poll(pollfd* p, nfds_t n, int timeout) {
  NEEDS_ACTIVE Guard g; rt::point("poll", nullptr);
  rt::range(p, n * sizeof *p, true, nullptr);
  if (int e = deviate(kPoll, {ENOMEM})) return ret("poll", -1, -1, e);
  int ready = 0;
  auto scan = [&] { ready = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = revents(p[i].fd, p[i].events); if (p[i].revents) ready++; } return ready > 0; };
  uint64_t dl = timeout < 0 ? UINT64_MAX : rt::now() + (uint64_t)timeout * 1000000;
  if (!scan() && timeout != 0) {
    // A signal may also arrive while it waits.
    if ((g_cfg.intr & kPoll) && mc::remaining() > 0 && mc::choose_dev(2, "signal")) {
      uint64_t half = timeout < 0 ? 1300000 : (uint64_t)timeout * 1000000 / 2 + 300000;
      if (rt::block("poll", nullptr, scan, rt::now() + half)) return ret("poll", n ? p[0].fd : -1, -1, EINTR);
    } else rt::block("poll", nullptr, scan, dl);
  }
  scan();
  for (nfds_t i = 0; i < n; i++) if (p[i].revents) sync_poll(p[i].fd);
  return ret("poll", n ? p[0].fd : -1, ready);
}
int __wrap_ppoll(pollfd* p, nfds_t n, const timespec* ts, const sigset_t*) { return __wrap_poll(p, n, ts ? ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000 : -1); }
int __wrap_fcntl(int fd, int cmd, ...) {
  NEEDS_ACTIVE va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  Guard g;
  FileP f = get(fd, "fcntl");
  if (!f) return ret("fcntl", fd, -1, EBADF);
  if (int e = deviate(kFcntl, {EINVAL})) return ret("fcntl", fd, -1, e);
  switch (cmd) {
    case F_GETFL: return f->flags | (f->append ? O_APPEND : 0);
    case F_SETFL: f->flags = (f->flags & O_ACCMODE) | (arg & O_NONBLOCK); f->append = arg & O_APPEND; return ret("fcntl", fd, 0);
    case F_GETFD: case F_SETFD: return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: f->refs++; return ret("dup", fd, install(f));
  }
  return ret("fcntl", fd, -1, EINVAL);
}
int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return __wrap_fcntl(fd, cmd, arg); }
int __wrap_ioctl(int fd, unsigned long req, ...) {
  NEEDS_ACTIVE va_list ap; va_start(ap, req); void* arg = va_arg(ap, void*); va_end(ap);
  Guard g; FileP f = get(fd, "ioctl");
  if (!f) return ret("ioctl", fd, -1, EBADF);
  if (req == FIONBIO) { if (*(int*)arg) f->flags |= O_NONBLOCK; else f->flags &= ~O_NONBLOCK; return 0; }
  if (req == FIONREAD) { *(int*)arg = f->in ? f->in->data.size() : 0; return 0; }
  return ret("ioctl", fd, -1, ENOTTY);
}
int __wrap_dup(int fd) {
  NEEDS_ACTIVE Guard g; rt::point("dup", nullptr);
  FileP f = get(fd, "dup");
  if (!f) return ret("dup", fd, -1, EBADF);
  if (int e = deviate(kDup, {EMFILE})) return ret("dup", fd, -1, e);
  f->refs++;
  return ret("dup", fd, install(f));
}
int __wrap_socket(int domain, int type, int proto) {
  NEEDS_ACTIVE Guard g; rt::point("socket", nullptr);
  if (int e = deviate(kSocket, {EMFILE})) return ret("socket", -1, -1, e);
  return ret("socket", -1, install(new_sock(domain, type, proto)));
}
int __wrap_socketpair(int, int, int, int fds[2]) { NEEDS_ACTIVE vos::socketpair(fds); return 0; }
int __wrap_bind(int fd, const sockaddr* a, socklen_t l) {
  NEEDS_ACTIVE Guard g; rt::point("bind", nullptr);
  FileP f = get(fd, "bind");
  if (!f) return ret("bind", fd, -1, EBADF);
  rt::range(a, l, false, nullptr);
  if (int e = deviate(kBind, {EADDRINUSE})) return ret("bind", fd, -1, e);
  if (f->type != kSock) return ret("bind", fd, -1, ENOTSOCK);
  if (f->st != kNew || l < sizeof(sa_family_t) || a->sa_family != f->domain) return ret("bind", fd, -1, EINVAL);
  if (f->domain == AF_INET || f->domain == AF_INET6) {
    auto port = [](const sockaddr* x) { return x->sa_family == AF_INET ? ((const sockaddr_in*)x)->sin_port : ((const sockaddr_in6*)x)->sin6_port; };
    auto wild = [](const sockaddr* x) { return x->sa_family == AF_INET ? ((const sockaddr_in*)x)->sin_addr.s_addr == 0 : !memcmp(&((const sockaddr_in6*)x)->sin6_addr, &in6addr_any, 16); };
    auto only6 = [](File& x) { auto o = x.options.find({IPPROTO_IPV6, IPV6_V6ONLY}); return o != x.options.end() && o->second.size() >= 4 && *(const int*)o->second.data(); };
    for (auto& [n, g] : w().fds) {
      if (g->type != kSock || !(g->st == kBound || g->st == kListening) || port((sockaddr*)&g->self.sa) != port(a) || !port(a)) continue;
      const sockaddr* b = (const sockaddr*)&g->self.sa;
      bool clash = b->sa_family == a->sa_family ? wild(a) || wild(b) || addr_key(a, l) == addr_key(b, g->self.len)
                 : a->sa_family == AF_INET6 ? wild(a) && !only6(*f) : wild(b) && !only6(*g);
      if (clash) return ret("bind", fd, -1, EADDRINUSE);
    }
  }
  memcpy(&f->self.sa, a, std::min<size_t>(l, sizeof f->self.sa)); f->self.len = l; f->st = kBound;
  if (f->domain == AF_INET && ((sockaddr_in*)&f->self.sa)->sin_port == 0) ((sockaddr_in*)&f->self.sa)->sin_port = htons(w().next_port++);
  if (f->domain == AF_INET6 && ((sockaddr_in6*)&f->self.sa)->sin6_port == 0) ((sockaddr_in6*)&f->self.sa)->sin6_port = htons(w().next_port++);
  return ret("bind", fd, 0);
}
int __wrap_listen(int fd, int backlog) {
  NEEDS_ACTIVE Guard g; rt::point("listen", nullptr);
  FileP f = get(fd, "listen");
  if (!f) return ret("listen", fd, -1, EBADF);
  if (int e = deviate(kListen, {EADDRINUSE})) return ret("listen", fd, -1, e);
  if (f->type != kSock) return ret("listen", fd, -1, ENOTSOCK);
  if (f->st != kBound && f->st != kListening) return ret("listen", fd, -1, EINVAL);
  f->st = kListening; f->backlog_max = backlog;
  w().listeners[make_key(f->self)] = f;
  return ret("listen", fd, 0);
}
int __wrap_connect(int fd, const sockaddr* a, socklen_t l) {
  NEEDS_ACTIVE Guard g; rt::point("connect", nullptr);
  FileP f = get(fd, "connect");
  if (!f) return ret("connect", fd, -1, EBADF);
  rt::range(a, l, false, nullptr);
  // An interrupted attempt goes on in the background.
  int dev = deviate(kConnect, {ENETUNREACH, ECONNREFUSED});
  if (dev && dev != EINTR) return ret("connect", fd, -1, dev);
  if (f->type != kSock) return ret("connect", fd, -1, ENOTSOCK);
  if (f->st == kConnected) return ret("connect", fd, -1, EISCONN);
  if (f->st == kConnecting) return ret("connect", fd, -1, EALREADY);
  if (l < sizeof(sa_family_t) || a->sa_family != f->domain) return ret("connect", fd, -1, EAFNOSUPPORT);
  memcpy(&f->peer.sa, a, std::min<size_t>(l, sizeof f->peer.sa)); f->peer.len = l;
  if (!f->self.len) f->self = any_name(f->domain, w().next_port++);
  std::string key = addr_key(a, l);
  bool nb = f->flags & O_NONBLOCK || dev == EINTR;
  ConnectOutcome o = kListenerDecides; uint64_t delay = 0;
  auto it = w().peers.find(key);
  if (it != w().peers.end()) { o = it->second.outcome; delay = it->second.delay_ms; }
  FileP b = new_sock(f->domain, f->socktype, f->proto);
  link(f, b);
  b->self = f->peer; b->peer = f->self;
  int err = 0; bool now = false;
  if (o == kListenerDecides) {
    auto li = w().listeners.find(key);
    if (li == w().listeners.end() && a->sa_family == AF_INET && l >= sizeof(sockaddr_in)) {
      // Or one that listens on all addresses.
      sockaddr_in any = *(const sockaddr_in*)a;
      any.sin_addr.s_addr = INADDR_ANY;
      li = w().listeners.find(addr_key((const sockaddr*)&any, sizeof any));
    }
    FileP lf = li == w().listeners.end() ? nullptr : li->second.lock();
    if (!lf) { err = ECONNREFUSED; now = !nb; }
    else { b->refs = 1; lf->backlog.push_back(b); rt::release(lf->vc); now = !nb || f->domain == AF_UNIX; }
  } else {
    if (o == kImmediate) now = dev != EINTR;
    if (o == kRefused) { now = dev != EINTR; err = ECONNREFUSED; }
    if (o == kInProgressRefused) err = ECONNREFUSED;
    if (!err && o != kHangs) w().peer_ends[key].push_back(b);
  }
  if (now) {
    if (err) { f->in.reset(); f->out.reset(); return ret("connect", fd, -1, err); }
    f->st = kConnected;
    return ret("connect", fd, 0);
  }
  f->st = kConnecting; f->ready_err = err;
  f->ready_at = o == kHangs ? UINT64_MAX : rt::now() + delay * 1000000;
  if (f->ready_at != UINT64_MAX && delay) rt::add_event(f->ready_at);
  if (!nb) {
    rt::block("connect", nullptr, [f] { return rt::now() >= f->ready_at; }, f->ready_at);
    progress(*f);
    if (f->so_error) { int e = f->so_error; f->so_error = 0; return ret("connect", fd, -1, e); }
    return ret("connect", fd, 0);
  }
  return ret("connect", fd, -1, dev ? dev : EINPROGRESS);
}
int __wrap_accept4(int fd, sockaddr* a, socklen_t* l, int flags) {
  NEEDS_ACTIVE Guard g; rt::point("accept", nullptr);
  FileP f = get(fd, "accept");
  if (!f) return ret("accept", fd, -1, EBADF);
  if (int e = deviate(kAccept, {EMFILE, ECONNABORTED}, f->flags & O_NONBLOCK)) return ret("accept", fd, -1, e);
  if (f->st != kListening) return ret("accept", fd, -1, EINVAL);
  if (f->backlog.empty()) {
    if (f->flags & O_NONBLOCK) return ret("accept", fd, -1, EAGAIN);
    rt::block("accept", nullptr, [f] { return !f->backlog.empty(); }, UINT64_MAX);
  }
  rt::acquire(f->vc);
  FileP s = f->backlog.front(); f->backlog.pop_front();
  if (flags & SOCK_NONBLOCK) s->flags |= O_NONBLOCK;
  put_name(s->peer, a, l);
  return ret("accept", fd, install(s));
}
int __wrap_accept(int fd, sockaddr* a, socklen_t* l) { return __wrap_accept4(fd, a, l, 0); }
int __wrap_setsockopt(int fd, int level, int name, const void* v, socklen_t l) {
  NEEDS_ACTIVE Guard g;
  FileP f = get(fd, "setsockopt");
  if (!f) return ret("setsockopt", fd, -1, EBADF);
  if (f->type != kSock) return ret("setsockopt", fd, -1, ENOTSOCK);
  if (int e = deviate(kSetopt, {EINVAL})) return ret("setsockopt", fd, -1, e);
  if (l < (level == SOL_SOCKET && name == SO_LINGER ? sizeof(linger) : sizeof(int))) return ret("setsockopt", fd, -1, EINVAL);
  rt::range(v, l, false, nullptr);
  f->options[{level, name}] = std::string((const char*)v, l);
  if (level == IPPROTO_TCP && ((name == TCP_NODELAY && *(const int*)v) || (name == TCP_CORK && !*(const int*)v))) f->pushes++;
  return ret("setsockopt", fd, 0);
}
int __wrap_getsockopt(int fd, int level, int name, void* v, socklen_t* l) {
  NEEDS_ACTIVE Guard g;
  FileP f = get(fd, "getsockopt");
  if (!f) return ret("getsockopt", fd, -1, EBADF);
  if (f->type != kSock) return ret("getsockopt", fd, -1, ENOTSOCK);
  if (int e = deviate(kGetopt, {ENOBUFS})) return ret("getsockopt", fd, -1, e);
  int val = 0;
  progress(*f);
  if (level == SOL_SOCKET && name == SO_ERROR) { val = f->so_error; f->so_error = 0; }
  else if (level == SOL_SOCKET && name == SO_TYPE) val = f->socktype;
  else if (level == SOL_SOCKET && name == SO_PROTOCOL) val = f->proto;
  else {
    auto o = f->options.find({level, name});
    if (o != f->options.end()) { socklen_t k = std::min<socklen_t>(*l, o->second.size()); memcpy(v, o->second.data(), k); *l = k; return 0; }
  }
  socklen_t k = std::min<socklen_t>(*l, 4);
  rt::range(v, k, true, nullptr);
  memcpy(v, &val, k); *l = k;
  return ret("getsockopt", fd, 0);
}
int __wrap_getsockname(int fd, sockaddr* a, socklen_t* l) {
  NEEDS_ACTIVE Guard g;
  FileP f = get(fd, "getsockname");
  if (!f) return ret("getsockname", fd, -1, EBADF);
  if (f->type != kSock) return ret("getsockname", fd, -1, ENOTSOCK);
  if (int e = deviate(kNames, {ENOBUFS})) return ret("getsockname", fd, -1, e);
  put_name(f->self.len ? f->self : any_name(f->domain, 0), a, l);
  return ret("getsockname", fd, 0);
}
int __wrap_getpeername(int fd, sockaddr* a, socklen_t* l) {
  NEEDS_ACTIVE Guard g;
  FileP f = get(fd, "getpeername");
  if (!f) return ret("getpeername", fd, -1, EBADF);
  if (f->type != kSock) return ret("getpeername", fd, -1, ENOTSOCK);
  if (int e = deviate(kNames, {ENOBUFS})) return ret("getpeername", fd, -1, e);
  if (f->st != kConnected) return ret("getpeername", fd, -1, ENOTCONN);
  put_name(f->peer.len ? f->peer : any_name(f->domain, 0), a, l);
  return ret("getpeername", fd, 0);
}
int __wrap_shutdown(int fd, int how) {
  NEEDS_ACTIVE Guard g; rt::point("shutdown", nullptr);
  FileP f = get(fd, "shutdown");
  if (!f) return ret("shutdown", fd, -1, EBADF);
  if (f->type != kSock) return ret("shutdown", fd, -1, ENOTSOCK);
  if (int e = deviate(kShutdown, {ENOTCONN})) return ret("shutdown", fd, -1, e);
  progress(*f);
  if (f->st != kConnected) return ret("shutdown", fd, -1, ENOTCONN);
  if (how != SHUT_WR) { f->shut_r = true; rt::release(f->in->vc); }
  if (how != SHUT_RD) { f->shut_w = true; f->out->writer_gone = true; rt::release(f->out->vc); }
  return ret("shutdown", fd, 0);
}
int __wrap_open(const char* path, int flags, ...) {
  NEEDS_ACTIVE
  int mode = -1;
  if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  Guard g; rt::point("open", nullptr);
  if (int e = deviate(kOpen, {EACCES, EMFILE})) return ret("open", -1, -1, e);
  std::string p = path;
  if (!w().files.count(p)) { if (!(flags & O_CREAT)) return ret("open", -1, -1, ENOENT); w().files[p]; w().files["mode:" + p] = std::to_string(mode); }
  else if ((flags & O_CREAT) && (flags & O_EXCL)) return ret("open", -1, -1, EEXIST);
  if (flags & O_TRUNC) w().files[p].clear();
  FileP f = std::make_shared<File>();
  f->type = kFile; f->path = p; f->flags = flags & (O_ACCMODE | O_NONBLOCK); f->append = flags & O_APPEND;
  return ret("open", -1, install(f));
}
off_t __wrap_lseek(int fd, off_t o, int wh) {
  NEEDS_ACTIVE Guard g; FileP f = get(fd, "lseek");
  if (!f) return ret("lseek", fd, -1, EBADF);
  if (f->type != kFile) return ret("lseek", fd, -1, ESPIPE);
  f->pos = wh == SEEK_SET ? o : wh == SEEK_CUR ? f->pos + o : w().files[f->path].size() + o;
  return f->pos;
}
int __wrap_getaddrinfo(const char* node, const char* service, const addrinfo* hints, addrinfo** out) {
  if (!rt::active()) return EAI_FAIL;
  Guard g; rt::point("getaddrinfo", nullptr);
  std::string key = std::string(node ? node : "") + ":" + (service ? service : "");
  World::Res r{EAI_NONAME, {}, 0, 0};
  auto it = w().names.find(key);
  if (it == w().names.end()) it = w().names.find("*");
  if (it != w().names.end()) r = it->second;
  if (r.delay) rt::block("getaddrinfo", nullptr, [] { return false; }, rt::now() + r.delay * 1000000);
  int e = deviate(kResolve, {EAI_AGAIN});
  if (w().record) w().calls.push_back({"getaddrinfo " + key + " family " + std::to_string(hints ? hints->ai_family : -1) + " type " + std::to_string(hints ? hints->ai_socktype : -1) +
                                       " passive " + std::to_string(hints ? !!(hints->ai_flags & AI_PASSIVE) : -1), -1, r.err, 0});
  if (e || r.err) { rt::op_trace("getaddrinfo fails"); if (r.eno) errno = r.eno; return e ? EAI_AGAIN : r.err; }
  addrinfo *head = nullptr, **tail = &head;
  for (auto& x : r.r) {
    addrinfo* a = (addrinfo*)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_storage));
    a->ai_family = x.family; a->ai_socktype = x.socktype; a->ai_protocol = x.proto;
    a->ai_addr = (sockaddr*)(a + 1);
    if (x.family == AF_INET) { auto* s = (sockaddr_in*)a->ai_addr; s->sin_family = AF_INET; s->sin_port = htons(x.port); inet_pton(AF_INET, x.ip.c_str(), &s->sin_addr); a->ai_addrlen = sizeof *s; }
    else { auto* s = (sockaddr_in6*)a->ai_addr; s->sin6_family = AF_INET6; s->sin6_port = htons(x.port); inet_pton(AF_INET6, x.ip.c_str(), &s->sin6_addr); a->ai_addrlen = sizeof *s; }
    w().addrinfos++; w().ai_live[a] = true;
    *tail = a; tail = &a->ai_next;
  }
  *out = head;
  rt::op_trace("getaddrinfo(%s) = %zu addresses", key.c_str(), r.r.size());
  return 0;
}
void __wrap_freeaddrinfo(addrinfo* a) {
  if (!rt::active()) return;
  Guard g;
  while (a) {
    auto it = w().ai_live.find(a);
    if (it == w().ai_live.end() || !it->second) mc::fail("bad-freeaddrinfo", "an address list was freed twice or was never allocated");
    it->second = false; w().addrinfos--;
    a = a->ai_next;   // kept allocated: a later use shows as an error of the list
  }
}
}  // extern "C"
