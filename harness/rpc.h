// Helpers of the harnesses for remote calls: links in memory, and a peer that
// speaks the protocol byte by byte (independently of the encoders).
#pragma once
#include "arpc/client.h"
#include "arpc/interface.h"
#include "arpc/server.h"
#include "ah.h"
#include <cerrno>
#include <deque>
#include <fcntl.h>
#include <map>
#include <set>

ARPC_INTERFACE(Calc, (),
               (((int), add, (((int), a), ((int), b))),
                ((std::string), echo, (((const std::string&), s))),
                ((void), poke, (((int), x)))));

namespace rpc {
using namespace ah;

// What is dialed comes out at accept().
struct Net {
  std::mutex m; std::condition_variable c;
  std::deque<int> fars;
  int dialed = 0, fail_next = 0, hang_next = 0;
  ~Net() { for (int f : fars) ::close(f); }
  arpc::channel dial() {
    bool hang = false;
    {
      std::scoped_lock l(m);
      dialed++;
      if (fail_next > 0) { fail_next--; throw arpc::errors::io_error("no route"); }
      if (hang_next > 0) { hang_next--; hang = true; }
    }
    if (hang) { auto [x] = arpc::select(arpc::never()); (void)x; }
    int f[2];
    vos::socketpair(f);
    std::scoped_lock l(m);
    fars.push_back(f[1]); c.notify_all();
    return arpc::channel(f[0]);
  }
  int accept() { std::unique_lock l(m); c.wait(l, [&] { return !fars.empty(); }); int f = fars.front(); fars.pop_front(); return f; }
  bool waiting() { std::scoped_lock l(m); return !fars.empty(); }
};
struct Link : arpc::channel_connection { explicit Link(Net* n) : arpc::channel_connection(n->dial()) {} };

inline std::string le32(uint32_t v) { std::string s; for (int i = 0; i < 4; i++) s += char(v >> (8 * i)); return s; }
inline std::string num(size_t v) { std::string s; do { s += char((v & 0x7f) | (v >= 128 ? 0x80 : 0)); v >>= 7; } while (v); return s; }
inline std::string str(const std::string& x) { return num(x.size()) + x; }
inline std::string frame(const std::string& payload) { return str(payload); }
inline std::string header(int type, uint32_t id) { return std::string(1, char(type)) + le32(id); }
enum { REQ = 0, RESP = 1, CANCEL = 2 };
inline std::string answer(uint32_t id, const std::string& value) { return header(RESP, id) + '\x01' + value + '\x00'; }
inline std::string answer_error(uint32_t id, const std::string& cls, const std::string& what) { return header(RESP, id) + std::string("\x00\x01", 2) + str(cls) + str(what); }

// Reads what a packet is made of.
struct Cursor {
  std::string s; size_t at = 0; bool bad = false;
  uint8_t u8() { if (at >= s.size()) { bad = true; return 0; } return s[at++]; }
  uint32_t u32() { uint32_t v = 0; for (int i = 0; i < 4; i++) v |= uint32_t(u8()) << (8 * i); return v; }
  uint64_t u64() { uint64_t v = u32(); return v | uint64_t(u32()) << 32; }
  size_t n() { size_t v = 0; int sh = 0; uint8_t o; do { o = u8(); v |= size_t(o & 0x7f) << sh; sh += 7; } while ((o & 0x80) && !bad && sh < 63); return v; }
  std::string str() { size_t k = n(); if (at + k > s.size()) { bad = true; return ""; } auto r = s.substr(at, k); at += k; return r; }
  bool end() { return at == s.size() && !bad; }
};
struct Packet {
  int type = -1; uint32_t id = 0; std::string object, method; uint32_t hash = 0;
  std::optional<int64_t> left; bool cancelled = false; std::string args;   // of requests without context data
  std::string rest;
};
inline Packet parse(const std::string& p) {
  Cursor c{p}; Packet r;
  r.type = c.u8(); r.id = c.u32();
  if (r.type == REQ) {
    r.object = c.str(); r.method = c.str(); r.hash = c.u32();
    if (c.u8()) r.left = int64_t(c.u64());
    MC_CHECK(c.n() == 0, "harness", "context data in a plain request");
    r.cancelled = c.u8();
    r.args = c.s.substr(std::min(c.at, c.s.size()));
  } else r.rest = c.s.substr(std::min(c.at, c.s.size()));
  MC_CHECK(!c.bad, "bad-request", "a request that cannot be decoded: " + mc::hex(p));
  return r;
}
// One end of a link, used with plain system calls.
struct Peer {
  int fd = -1;
  Peer() = default;
  explicit Peer(int f) : fd(f) {}
  Peer(const Peer&) = delete;
  Peer& operator=(Peer&& o) { close(); std::swap(fd, o.fd); return *this; }
  Peer(Peer&& o) { std::swap(fd, o.fd); }
  ~Peer() { close(); }
  void close() { if (fd >= 0) ::close(fd); fd = -1; }
  bool raw(const std::string& s) { size_t at = 0; while (at < s.size()) { ssize_t k = ::write(fd, s.data() + at, s.size() - at); if (k <= 0) return false; at += k; } return true; }
  bool put(const std::string& payload) { return raw(frame(payload)); }
  // The next packet; false at the end of the link.
  bool get(std::string* p) {
    size_t n = 0; int sh = 0; uint8_t o;
    do { if (::read(fd, &o, 1) != 1) return false; n |= size_t(o & 0x7f) << sh; sh += 7; } while (o & 0x80);
    p->clear();
    while (p->size() < n) { char b[256]; ssize_t k = ::read(fd, b, std::min(sizeof b, n - p->size())); if (k <= 0) return false; p->append(b, k); }
    return true;
  }
  bool get(Packet* p) { std::string s; if (!get(&s)) return false; *p = parse(s); return true; }
  bool readable() { pollfd p{fd, POLLIN, 0}; return ::poll(&p, 1, 0) == 1; }
};
inline int arg(const std::string& args, int i) { Cursor c{args}; uint32_t v = 0; for (int k = 0; k <= i; k++) v = c.u32(); return int(v); }
using Client = arpc::client_connection<Link>;
inline std::string timed_how(std::function<void()> f, std::string* what = nullptr) { return how(f, what); }
}  // namespace rpc

namespace rpc {
// Where connections to a server come in.
struct Hall {
  using connection_type = arpc::packet_connection_impl<arpc::channel_connection, arpc::protected_stream_packet_protocol<>>;
  arpc::queue<std::unique_ptr<connection_type>> q;
  int returned = 0, given = 0;
  // Lets the other end of a link in.
  void let_in(int fd) { q.put(std::make_unique<connection_type>(arpc::channel(fd))); sched::Ignore ig; given++; }
  Peer enter() { int f[2]; vos::socketpair(f); let_in(f[0]); return Peer(f[1]); }
};
struct Door {
  using connection_type = Hall::connection_type;
  Hall* hall;
  explicit Door(Hall* h) : hall(h) {}
  ~Door() { while (!hall->q.empty()) hall->q.maybe_get(); }
  void start() {}
  void stop() {}
  arpc::awaitable<std::unique_ptr<connection_type>> get_connection() { return hall->q.async_get(); }
  void return_connection(std::unique_ptr<connection_type> c) { c.reset(); hall->returned++; }
};
using Server = arpc::server<arpc::little_endian_binary_encoder, arpc::little_endian_binary_decoder, arpc::protected_stream_packet_protocol<>,
                            arpc::little_endian_binary_encoder, Door>;

template <auto m> uint32_t hash_of() { return arpc::traits::type_hash_v<typename arpc::method_descriptor<m>::method_type>; }
// A request, written by hand.
struct Req {
  uint32_t id = 0; std::string object = str("calc"), method = "add"; uint32_t hash = hash_of<&Calc::add>();
  std::optional<int64_t> left; std::string data = num(0); bool cancelled = false; std::string args;
  std::string head() const { return header(REQ, id) + str(object) + str(method) + le32(hash); }
  std::string ctx() const { return (left ? std::string(1, '\x01') + le32(uint32_t(*left)) + le32(uint32_t(*left >> 32)) : std::string(1, '\0')) + data + char(cancelled); }
  std::string all() const { return head() + ctx() + args; }
  static Req add(uint32_t id, int a, int b) { Req r; r.id = id; r.args = le32(a) + le32(b); return r; }
  static Req echo(uint32_t id, const std::string& s) { Req r; r.id = id; r.method = "echo"; r.hash = hash_of<&Calc::echo>(); r.args = str(s); return r; }
  static Req poke(uint32_t id, int x) { Req r; r.id = id; r.method = "poke"; r.hash = hash_of<&Calc::poke>(); r.args = le32(x); return r; }
};
// What an answer says: "value:<hex>", "error:<class>:<what>" or "nothing".
inline std::string outcome(const std::string& rest) {
  Cursor c{rest};
  std::string s = "nothing";
  if (c.u8()) return "value:" + mc::hex(rest.substr(1, rest.size() - 2)) + (rest.size() >= 2 && rest.back() == 0 ? "" : "?");
  if (c.u8()) { std::string cls = c.str(), what = c.str(); s = "error:" + cls + ":" + what; }
  return s + (c.end() ? "" : "?");
}
inline std::string value(const std::string& v) { return "value:" + mc::hex(v); }
// The implementation.  Keeps count of what is called.
struct CalcImpl : Calc {
  std::mutex m;
  std::vector<std::string> log;
  std::function<void(int)> on_poke;
  int base = 0;
  void note(const std::string& s) { std::scoped_lock l(m); log.push_back(s); }
  int add(int a, int b) override { note("add " + std::to_string(a) + " " + std::to_string(b)); return base + a + b; }
  std::string echo(const std::string& s) override { note("echo " + s); return s; }
  void poke(int x) override { note("poke " + std::to_string(x)); if (on_poke) on_poke(x); if (x < 0) throw arpc::errors::out_of_range("negative"); if (x == 98) throw std::runtime_error("plain"); if (x == 99) throw 5; }
};
}  // namespace rpc

namespace rpc {
// A client whose links lead into a hall.
struct Wire : arpc::channel_connection {
  explicit Wire(Hall* h) : arpc::channel_connection(dial(h)) {}
  static arpc::channel dial(Hall* h) { int f[2]; vos::socketpair(f); arpc::channel near(f[0]); h->let_in(f[1]); return near; }
};
using WiredClient = arpc::client_connection<Wire>;
}  // namespace rpc
