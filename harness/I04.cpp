// I04: a connection hands each user a live channel or says it is gone.
#include "arpc/connection.h"
#include "arpc/packet_protocols.h"
#include "arpc/file.h"
#include "ah.h"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <set>
using namespace ah;

namespace {
// ---------------------------------------------------------------- a scripted link
struct World {
  std::mutex mu; std::condition_variable cv;
  int made = 0, live = 0, fail_next = 0;
  std::set<int> dead;                 // links that ended by themselves
  std::vector<std::string> in, out;   // what each link delivers, and what was written to it
  void end(int g) { std::scoped_lock l(mu); dead.insert(g); cv.notify_all(); }
  void feed(int g, const std::string& s) { std::scoped_lock l(mu); if (g < (int)in.size()) { in[g] += s; cv.notify_all(); } }
};
class Link : public arpc::connection {
 public:
  explicit Link(World* w) : w_(w) {
    std::scoped_lock l(w->mu);
    if (w->fail_next > 0) { w->fail_next--; throw arpc::errors::io_error("no link"); }
    g_ = w->made++;
    MC_CHECK(++w->live == 1, "two-links", "a new link is made while the last one lives");
    w->in.emplace_back(); w->out.emplace_back();
  }
  ~Link() override {
    std::scoped_lock l(w_->mu);
    MC_CHECK(magic_ == kAlive, "destroyed-twice", "");
    MC_CHECK(users_ == 0, "destroyed-in-use", "the link is destroyed while somebody uses it");
    magic_ = 0; w_->live--;
  }
  bool connected() override { use(); std::scoped_lock l(w_->mu); return !closed_ && !w_->dead.count(g_); }
  void disconnect() override { use(); std::scoped_lock l(w_->mu); closed_ = true; w_->cv.notify_all(); }
  void write(const char* d, std::size_t n) override {
    use(); User u(this); std::scoped_lock l(w_->mu);
    if (gone()) throw arpc::errors::io_error("link gone");
    w_->out[g_].append(d, n);
  }
  void putc(char c) override { write(&c, 1); }
  void flush() override { use(); User u(this); }
  std::size_t read(char* d, std::size_t n) override {
    use(); User u(this); std::unique_lock l(w_->mu);
    w_->cv.wait(l, [&] { return gone() || !w_->in[g_].empty(); });
    if (w_->in[g_].empty() || closed_) throw arpc::errors::io_error("link gone");
    n = std::min(n, w_->in[g_].size());
    memcpy(d, w_->in[g_].data(), n); w_->in[g_].erase(0, n);
    return n;
  }
  char getc() override { char c; read(&c, 1); return c; }
  arpc::awaitable<void> data_available() override { use(); return ready_.async_wait(); }
  arpc::flag ready_;
 private:
  static constexpr int kAlive = 0x600D;
  struct User { Link* k; explicit User(Link* l) : k(l) { std::scoped_lock g(k->w_->mu); k->users_++; } ~User() { std::scoped_lock g(k->w_->mu); k->use(); k->users_--; } };
  void use() { MC_CHECK(magic_ == kAlive, "used-after-end", "a link is used that does not live any more"); }
  bool gone() { return closed_ || w_->dead.count(g_); }
  World* w_; int g_ = 0; volatile int magic_ = kAlive; bool closed_ = false; int users_ = 0;
};
using Re = arpc::reconnectable_connection<Link>;
}  // namespace

MC_SCENARIO("histories", 0, 0) {
  // One user: every sequence of uses, with links that end or cannot be made.
  warm();
  World w;
  {
    Re c(&w);
    int current = -1; bool alive = false;      // the model: which link, and whether it is up
    std::string log;
    int depth = mc::tier_pick(5, 6);
    for (int i = 0; i < depth; i++) {
      int op = mc::choose(9, "op");
      std::string r;
      if (op == 0) break;
      switch (op) {
        case 1: case 2:                            // connect, the second time with a failure
          w.fail_next = op == 2;
          r = how([&] { c.connect(); });
          log += op == 1 ? " connect:" : " connect-failing:";
          if (alive) MC_CHECK(r == "ok", "wrong-end", log + r);
          else if (op == 2) { MC_CHECK(r == "io", "wrong-end", log + r); current = -1; }
          else { MC_CHECK(r == "ok", "wrong-end", log + r); current = w.made - 1; alive = true; }
          w.fail_next = 0;
          break;
        case 3: r = how([&] { c.disconnect(); }); log += " disconnect:"; MC_CHECK(r == "ok", "wrong-end", log + r); current = -1; alive = false; break;
        case 4: if (current < 0 || !alive) return; w.end(current); alive = false; log += " ends"; break;
        case 5: {                                  // write
          r = how([&] { if (mc::choose(2, "putc")) c.putc('w'); else c.write("w", 1); });
          log += " write:";
          MC_CHECK(r == (alive ? "ok" : "io"), "wrong-end", log + r);
          if (alive) { MC_CHECK(w.out[current] == "w", "wrong-link", log); w.out[current].clear(); }
          break;
        }
        case 6: {                                  // read
          if (current >= 0) w.feed(current, std::string(1, char('a' + current)));
          char x = 0;
          r = how([&] { if (mc::choose(2, "getc")) x = c.getc(); else c.read(&x, 1); });
          log += " read:";
          // A link that ended may still give what it had.
          if (alive) MC_CHECK(r == "ok", "wrong-end", log + r); else if (current < 0) MC_CHECK(r == "io", "wrong-end", log + r);
          if (r == "ok") MC_CHECK(x == 'a' + current, "wrong-link", log);
          if (current >= 0) w.in[current].clear();
          break;
        }
        case 7: r = how([&] { c.flush(); }); log += " flush:"; MC_CHECK(r == (current >= 0 ? "ok" : "io"), "wrong-end", log + r); break;
        case 8: {                                  // await data, letting go of it afterwards
          r = how([&] { auto a = c.data_available(); auto [x, t] = arpc::select(std::move(a), arpc::always()); MC_CHECK(!x && t, "wrong-end", "data out of nothing"); });
          log += " data:"; MC_CHECK(r == (current >= 0 ? "ok" : "io"), "wrong-end", log + r); break;
        }
      }
      log += r;
      MC_CHECK(c.connected() == alive, "wrong-state", log);
      MC_CHECK(w.live == (current >= 0 ? 1 : 0), "leak", log + ": " + std::to_string(w.live) + " links");
    }
    mc::outcome(log);
  }
  MC_CHECK(w.live == 0, "leak", "");
  mc::nontrivial();
}

// Users, disconnections and reconnections at the same time, over scripted links.
static void users(int writers) {
  warm();
  sched::opt().timers = false;
  World w;
  std::string r1, r2, r3;
  int kind1 = mc::choose(4, "user");          // read, data, write, flush
  int kind2 = writers ? mc::choose(3, "other") : 3;   // disconnect, reconnect, the link ends
  int kind3 = mc::choose(writers ? 3 : 4, "main");          // disconnect, connect, the link ends, read too
  {
    Re c(&w);
    c.connect();
    char got = 0;
    std::thread a([&] {
      r1 = how([&] {
        switch (kind1) {
          case 0: c.read(&got, 1); break;
          case 1: { auto [x, t] = arpc::select(c.data_available(), arpc::timeout(ms(5))); (void)x; (void)t; break; }
          case 2: c.write("x", 1); break;
          case 3: c.flush(); break;
        }
      });
    });
    std::thread b([&] {
      switch (kind2) {
        case 0: r2 = how([&] { c.disconnect(); }); break;
        case 1: r2 = how([&] { c.connect(); }); break;
        case 2: w.end(0); r2 = how([&] { c.connect(); }); break;
      }
    });
    if (mc::choose(2, "waiting")) sched::wait_quiet();
    char got2 = 0;
    switch (kind3) {
      case 0: r3 = how([&] { c.disconnect(); }); break;
      case 1: r3 = how([&] { c.connect(); }); break;
      case 2: w.end(0); r3 = "ok"; break;
      case 3: w.feed(0, "aa"); r3 = how([&] { c.read(&got2, 1); }); break;
    }
    // Whoever still reads gets something, or learns that the link is gone.
    bool may_block = kind1 == 0;
    if (may_block) {
      sched::wait_quiet();
      if (!sched::done(1)) { std::string s = how([&] { c.disconnect(); }); MC_CHECK(s == "ok", "wrong-end", s); }
    }
    a.join(); b.join();
    if (kind1 == 0) MC_CHECK(r1 == "io" || (r1 == "ok" && got == 'a'), "wrong-end", r1);
    else MC_CHECK(r1 == "ok" || r1 == "io", "wrong-end", r1);
    if (kind2 < 3) MC_CHECK(r2 == "ok", "wrong-end", r2);
    if (kind3 < 3) MC_CHECK(r3 == "ok", "wrong-end", r3);
    // It can be used again.
    std::string s = how([&] { c.connect(); c.write("z", 1); });
    MC_CHECK(s == "ok" && c.connected() && !w.out.back().empty() && w.out.back().back() == 'z', "wrong-end", "afterwards: " + s);
    mc::outcome(r1 + r2 + r3 + std::to_string(w.made));
  }
  MC_CHECK(w.live == 0, "leak", "");
  mc::nontrivial();
}
MC_SCENARIO("users", 3, 4) { users(0); }
MC_SCENARIO("users-and-others", 2, 3) { users(1); }

// ---------------------------------------------------------------- connections over sockets
namespace {
struct Ends { std::vector<int> peers; bool fail = false; arpc::channel make() { if (fail) throw arpc::errors::io_error("no"); int f[2]; vos::socketpair(f); peers.push_back(f[1]); return arpc::channel(f[0]); } };
struct Over : arpc::channel_connection { explicit Over(Ends* e) : arpc::channel_connection(e->make()) {} };
std::string drain(int fd) { std::string s; char c; int fl = fcntl(fd, F_GETFL); fcntl(fd, F_SETFL, fl | O_NONBLOCK); while (::read(fd, &c, 1) == 1) s += c; return s; }
}  // namespace

template <typename C>
static void sockets(C& c, Ends& e, int kinds) {
  int kind = mc::choose(kinds, "user");       // read, write, data, flush, getc, putc
  bool full = kind == 1 || kind == 5;
  int waiting = mc::choose(2, "waiting");
  int action = mc::choose(4, "action");       // disconnect, peer closes, peer acts, two disconnects
  std::string r;
  char b[4] = {0, 0, 0, 0}; size_t n = 0;
  std::thread t([&] {
    r = how([&] {
      switch (kind) {
        case 0: n = c.read(b, 2); break;
        case 1: c.write("wxyz", 4); break;
        // Who awaits data is waited for, not woken.
        case 2: { auto [x, y] = arpc::select(c.data_available(), arpc::timeout(ms(5))); MC_CHECK(bool(x) || action == 0 || action == 3, "wrong-end", "no data, no end"); break; }
        case 3: c.flush(); break;
        case 4: b[0] = c.getc(); break;
        case 5: for (char x : std::string("wxyz")) c.putc(x); break;
      }
    });
  });
  if (waiting) sched::wait_quiet();
  std::thread t2;
  std::string peer_got;
  switch (action) {
    case 0: c.disconnect(); break;
    case 1: ::close(e.peers[0]); break;
    case 2: if (full) { char x[4]; for (int got = 0; got < 4;) { int k = ::read(e.peers[0], x, 4 - got); if (k <= 0) break; peer_got.append(x, k); got += k; } } else if (::write(e.peers[0], "ab", 2) != 2) mc::fail("harness", "peer"); break;
    case 3: t2 = std::thread([&] { c.disconnect(); }); c.disconnect(); break;
  }
  t.join();
  if (t2.joinable()) t2.join();
  bool gone = action == 0 || action == 3;
  if (gone) {
    MC_CHECK(!c.connected(), "wrong-state", "");
    if (full || kind == 3 || kind == 2) MC_CHECK(r == "ok" || r == "io", "wrong-end", r);
    else MC_CHECK(r == "io" || r == "eof", "wrong-end", r);
    if (waiting && full) MC_CHECK(r == "io", "wrong-end", r);
    MC_CHECK(how([&] { c.write("q", 1); }) == "io" && how([&] { c.read(b, 1); }) == "io", "wrong-end", "used after it was disconnected");
    // Everything of the link is closed.
    std::string got = drain(e.peers[0]); char z;
    MC_CHECK(::read(e.peers[0], &z, 1) == 0, "leak", "the link is still open");
    MC_CHECK(std::string("wxyz").rfind(got, 0) == 0, "wrong-data", got);
  } else if (action == 1) {
    if (full) MC_CHECK(r == "ok" || r == "io", "wrong-end", r);
    else if (kind == 2 || kind == 3) MC_CHECK(r == "ok", "wrong-end", r);
    else MC_CHECK(r == "eof" || r == "io", "wrong-end", r);
  } else {
    MC_CHECK(r == "ok", "wrong-end", r);
    if (kind == 0) MC_CHECK(n == 2 && !memcmp(b, "ab", 2), "wrong-data", "");
    if (kind == 4) MC_CHECK(b[0] == 'a', "wrong-data", "");
    if (full) MC_CHECK(peer_got == "wxyz", "wrong-data", peer_got);
  }
  mc::outcome(std::to_string(kind) + std::to_string(action) + r);
}

MC_SCENARIO("over-a-socket", 3, 4) {
  warm();
  sched::opt().timers = false;
  vos::cfg().socket_capacity = 3;
  Ends e;
  int open0;
  {
    sched::NoPreempt np;
    open0 = vos::open_count();
  }
  {
    std::unique_ptr<arpc::channel_connection> c;
    { sched::NoPreempt np; c = std::make_unique<arpc::channel_connection>(e.make()); }
    MC_CHECK(c->connected(), "wrong-state", "");
    sockets(*c, e, 6);
    MC_CHECK(how([&] { c->connect(); }) != "ok", "wrong-end", "connected again without knowing how");
  }
  for (int p : e.peers) if (vos::is_open(p)) ::close(p);
  MC_CHECK(vos::open_count() == open0, "leak", std::to_string(vos::open_count() - open0));
  mc::nontrivial();
}
MC_SCENARIO("reconnecting-over-sockets", 3, 4) {
  warm();
  sched::opt().timers = false;
  vos::cfg().socket_capacity = 3;
  Ends e;
  int open0 = vos::open_count();
  {
    arpc::reconnectable_connection<Over> c(&e);
    MC_CHECK(!c.connected() && how([&] { c.write("x", 1); }) == "io", "wrong-state", "before it was connected");
    { sched::NoPreempt np; c.connect(); }
    MC_CHECK(c.connected() && e.peers.size() == 1, "wrong-state", "");
    { sched::NoPreempt np; c.connect(); }
    MC_CHECK(e.peers.size() == 1, "two-links", "connected twice");
    sockets(c, e, 5);
    // Next use: a fresh link if that one is gone.
    {
      sched::NoPreempt np;
      bool up = c.connected();
      e.fail = mc::choose(2, "cannot reconnect");
      std::string s = how([&] { c.connect(); });
      if (!up && e.fail) { MC_CHECK(s == "io" && !c.connected(), "wrong-end", s); e.fail = false; s = how([&] { c.connect(); }); }
      MC_CHECK(s == "ok" && e.peers.size() == (up ? 1 : 2), "wrong-end", s);
      if (!up) {
        c.write("n", 1);
        MC_CHECK(drain(e.peers[1]) == "n", "wrong-link", "");
        if (::write(e.peers[1], "m", 1) != 1) mc::fail("harness", "");
        MC_CHECK(c.getc() == 'm', "wrong-link", "");
      }
    }
  }
  for (int p : e.peers) if (vos::is_open(p)) ::close(p);
  MC_CHECK(vos::open_count() == open0, "leak", std::to_string(vos::open_count() - open0));
  mc::nontrivial();
}

MC_SCENARIO("contexts", 2, 3) {
  // A use that ends with its context leaves the connection usable, and disconnecting works in a context that is over.
  warm();
  sched::opt().timers = false;
  vos::cfg().socket_capacity = 3;
  Ends e;
  int open0 = vos::open_count();
  {
    arpc::reconnectable_connection<Over> c(&e);
    { sched::NoPreempt np; c.connect(); }
    int kind = mc::choose(3, "user"), limit = mc::choose(2, "limit");
    bool disconnects = mc::choose(2, "then disconnects");
    arpc::context group(arpc::context::current(), false);
    std::string r, r2 = "ok"; char b[4];
    std::thread t([&] {
      arpc::context mine(group);
      if (limit) mine.set_timeout(ms(3));
      r = how([&] {
        if (kind == 0) c.read(b, 2); else if (kind == 1) c.write("wxyz", 4);
        else { auto [x] = arpc::select(c.data_available()); (void)x; }
      });
      if (disconnects) r2 = how([&] { c.disconnect(); });
    });
    if (mc::choose(2, "waiting")) sched::wait_quiet();
    if (!limit) group.cancel();
    t.join();
    MC_CHECK(r == (limit ? "deadline" : "cancelled"), "wrong-end", r);
    MC_CHECK(r2 == "ok", "wrong-end", r2);
    MC_CHECK(c.connected() == !disconnects, "wrong-state", "");
    if (!disconnects) {
      sched::NoPreempt np;
      drain(e.peers[0]);
      if (::write(e.peers[0], "m", 1) != 1) mc::fail("harness", "");
      c.write("n", 1);
      MC_CHECK(c.getc() == 'm' && drain(e.peers[0]) == "n", "wrong-data", "");
    }
  }
  for (int p : e.peers) ::close(p);
  MC_CHECK(vos::open_count() == open0, "leak", std::to_string(vos::open_count() - open0));
  mc::nontrivial();
}

MC_SCENARIO("one-reads-one-writes", 1, 2) {
  // A reader and a writer do not disturb each other, whatever a disconnection does meanwhile.
  warm();
  sched::opt().timers = false;
  vos::cfg().socket_capacity = 2;
  Ends e;
  {
    arpc::reconnectable_connection<Over> c(&e);
    { sched::NoPreempt np; c.connect(); }
    int p = e.peers[0];
    std::string rr, rw, got, echoed; char b[3];
    std::thread reader([&] { rr = how([&] { size_t n = c.read(b, 3); got.assign(b, n); }); });
    std::thread writer([&] { rw = how([&] { c.write("abc", 3); }); });
    bool drop = mc::choose(2, "disconnect");
    std::thread third;
    if (drop) third = std::thread([&] { c.disconnect(); });
    // The peer sends back what comes.
    char x;
    while (echoed.size() < 3) { if (::read(p, &x, 1) != 1) break; echoed += x; if (::write(p, &x, 1) != 1) break; }
    reader.join(); writer.join();
    if (third.joinable()) third.join();
    MC_CHECK(std::string("abc").rfind(echoed, 0) == 0, "wrong-data", echoed);
    if (!drop) MC_CHECK(rr == "ok" && rw == "ok" && got == "abc", "wrong-end", rr + rw + got);
    else { MC_CHECK(rw == "ok" || rw == "io", "wrong-end", rw); MC_CHECK((rr == "ok" && got == "abc") || rr == "io" || rr == "eof", "wrong-end", rr); }
    mc::outcome(rr + rw);
  }
  ::close(e.peers[0]);
  mc::nontrivial();
}

MC_SCENARIO("packets", 2, 3) {
  // Packets over a reconnecting connection: each is received whole or not at all, and by the link it was sent on.
  warm();
  sched::opt().timers = false;
  vos::cfg().socket_capacity = 4;
  Ends e;
  {
    using P = arpc::packet_connection_impl<arpc::reconnectable_connection<Over>, arpc::protected_stream_packet_protocol<>>;
    P c(&e);
    { sched::NoPreempt np; c.connect(); }
    MC_CHECK(c.connected(), "wrong-state", "");
    arpc::channel_connection other((arpc::channel(::dup(e.peers[0]))));
    arpc::protected_stream_packet_protocol<> proto;
    std::string got, r, s, sent = "0123456";
    bool receives = mc::choose(2, "direction");
    std::thread t([&] { r = how([&] { if (receives) got = c.receive(); else c.send(sent); }); });
    bool drop = mc::choose(2, "disconnect");
    std::thread t2;
    if (drop) t2 = std::thread([&] { c.disconnect(); ::close(e.peers[0]); });
    s = how([&] { if (receives) proto.send(other, sent); else got = proto.receive(other); });
    if (drop) { t2.join(); }
    t.join();
    if (!drop) MC_CHECK(r == "ok" && s == "ok", "wrong-end", r + s);
    else MC_CHECK((r == "ok" || r == "io" || r == "eof") && (s == "ok" || s == "io" || s == "eof"), "wrong-end", r + s);
    if (!receives && s == "ok") MC_CHECK(got == sent, "wrong-data", got);
    if (receives && r == "ok") MC_CHECK(got == sent, "wrong-data", got);
    if (!drop) {
      auto a = c.data_available();
      auto [x, y] = arpc::select(std::move(a), arpc::always());
      MC_CHECK(!x && y, "wrong-end", "data out of nothing");
    }
    mc::outcome(r + s);
  }
  for (int p : e.peers) if (vos::is_open(p)) ::close(p);
  mc::nontrivial();
}

MC_SCENARIO("devices", 1, 2) {
  // Character devices and dialed sockets as connections; what cannot be opened is reported, and made good later.
  warm();
  sched::opt().timers = false;
  sched::opt().left_ok = true;
  int open0;
  if (mc::choose(2, "kind")) {
    open0 = vos::open_count();
    bool there = mc::choose(2, "there");
    if (there) vos::set_file("/dev/tty9", "hello");
    arpc::reconnectable_connection<arpc::char_dev_connection> c("/dev/tty9");
    std::string r = how([&] { c.connect(); });
    MC_CHECK(r == (there ? "ok" : "io") && c.connected() == there, "wrong-end", r);
    if (!there) { vos::set_file("/dev/tty9", "hello"); c.connect(); }
    char b[5];
    MC_CHECK(c.read(b, 5) == 5 && !memcmp(b, "hello", 5), "wrong-data", "");
    c.write("x", 1);
    std::string now; vos::get_file("/dev/tty9", &now);
    MC_CHECK(now == "hellox", "wrong-data", now);
    c.disconnect();
    MC_CHECK(!c.connected() && vos::open_count() == open0, "leak", "");
  } else {
    vos::set_resolution("h:80", 0, {{AF_INET, "10.0.0.1", 80, SOCK_STREAM, 6}});
    vos::set_peer("10.0.0.1:80", vos::kImmediate);
    arpc::reconnectable_connection<arpc::client_socket_connection> c(arpc::endpoint().name("h").port(80));
    { sched::NoPreempt np; c.connect(); c.disconnect(); ::close(vos::accepted_end("10.0.0.1:80")); }
    open0 = vos::open_count();
    for (int i = 0; i < 2; i++) {
      bool refused = mc::choose(2, "refused");
      vos::set_peer("10.0.0.1:80", refused ? vos::kInProgressRefused : vos::kInProgressOk, 1);
      std::string r = how([&] { c.connect(); });
      MC_CHECK(r == (refused ? "io" : "ok") && c.connected() == !refused, "wrong-end", r);
      if (refused) continue;
      int p = vos::accepted_end("10.0.0.1:80");
      c.write("abc", 3);
      MC_CHECK(drain(p) == "abc", "wrong-data", "");
      ::close(p);
      char x; r = how([&] { c.read(&x, 1); });
      MC_CHECK(r == "eof", "wrong-end", r);
      c.disconnect();
    }
    sched::sleep_ms(1);
    MC_CHECK(vos::open_count() == open0, "leak", "");
  }
  mc::nontrivial();
}

MC_SCENARIO("scale", 0, 0) {
  // Many links one after the other, with packets of several sizes on each.
  warm(); sched::opt().timers = false; sched::NoPreempt np; sched::opt().max_steps = 4000000;
  vos::cfg().socket_capacity = 1 << 18;
  int n = 1 + amount(mc::tier_pick(12, 24), mc::tier_pick(257, 1025), "links"), size = amount(3, mc::tier_pick(1 << 16, 1 << 17) + 1, "size"), ends = mc::choose(2, "ended by the peer");
  if (n > 20 && size > 300) mc::prune();
  Ends e;
  {
    using P = arpc::packet_connection_impl<arpc::reconnectable_connection<Over>, arpc::protected_stream_packet_protocol<>>;
    P c(&e);
    std::string sent(size, 'x');
    for (int i = 0; i < size; i++) sent[i] = char(i * 5 + i / 253);
    for (int i = 0; i < n; i++) {
      MC_CHECK(!c.connected(), "wrong-state", "");
      c.connect();
      MC_CHECK(c.connected() && int(e.peers.size()) == i + 1, "wrong-state", "");
      arpc::channel_connection other((arpc::channel(::dup(e.peers[i]))));
      arpc::protected_stream_packet_protocol<> proto;
      for (int k = 0; k < 2; k++) {
        c.send(sent);
        MC_CHECK(proto.receive(other) == sent, "wrong-data", "");
        proto.send(other, sent);
        MC_CHECK(c.receive() == sent, "wrong-data", "");
      }
      other.disconnect();
      ::close(e.peers[i]);
      if (ends) { std::string r = how([&] { c.receive(); }); MC_CHECK(r == "eof" || r == "io", "wrong-end", r); }
      c.disconnect();
    }
  }
  for (int p : e.peers) if (vos::is_open(p)) ::close(p);
  mc::nontrivial();
}
