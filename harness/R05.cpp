// R05: stopping a server is orderly.
#include "rpc.h"
#include "arpc/address_resolver.h"
using namespace rpc;

namespace {
arpc::server_options options(int workers, int queue = -1) {
  arpc::server_options o;
  o.num_worker_threads = workers;
  o.queue_size = queue;
  return o;
}
// An implementation whose poke() can take its time.
struct Slow : CalcImpl {
  int running = 0, cancelled = 0, finished = 0;
  bool gone = false;
  Gate gate;
  Slow() {
    on_poke = [this](int x) {
      { std::scoped_lock l(m); running++; MC_CHECK(!gone, "called-late", "a method runs although the server is gone"); }
      if (x == 1) {            // until cancelled
        std::string e = how([&] { auto [n] = arpc::select(arpc::never()); (void)n; });
        std::scoped_lock l(m);
        running--; if (e == "cancelled") cancelled++;
      } else {                 // until it likes
        if (x == 2) sleep_us(5000);
        if (x == 3) gate.wait();
        std::scoped_lock l(m);
        running--; finished++;
      }
    };
  }
};
void count(int base) {
  sched::wait_quiet();
  MC_CHECK(vos::open_count() == base, "leak", std::to_string(vos::open_count()) + " descriptors, " + std::to_string(base) + " before");
  mc::nontrivial();
}
// Reads whatever was sent before the end of the link; every answer at most once.
void drain(Peer& p, std::set<uint32_t> may) {
  std::string s;
  while (p.get(&s)) { Packet a = parse(s); MC_CHECK(a.type == RESP && may.erase(a.id), "stray-answer", std::to_string(a.id)); }
}
void works(Peer& p) {
  p.put(Req::add(900, 40, 2).all());
  Packet a;
  MC_CHECK(p.get(&a) && a.id == 900 && outcome(a.rest) == value(le32(42)), "not-served", "");
}
}  // namespace

MC_SCENARIO("stop", 1, 2) {
  // A server is stopped or destroyed with requests in every state.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  vos::cfg().socket_capacity = 64;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<Slow> obj;
    auto server = std::make_unique<Server>(options(1 + mc::choose(2, "workers"), -mc::choose(2, "queue")), &hall);
    server->register_object(std::string("calc"), static_cast<arpc::server_object<Slow>&>(obj));
    server->start();
    int what = mc::choose(9, "what"), how_ = mc::choose(3, "how"), quiet = mc::choose(2, "quiet");
    Peer p = hall.enter();
    std::set<uint32_t> may;
    auto ask = [&](const Req& r) { may.insert(r.id); p.put(r.all()); };
    switch (what) {
      case 0: break;                                                   // nothing
      case 1: p.raw(frame(Req::add(1, 1, 1).all()).substr(0, 9)); break;   // half a request
      case 2: ask(Req::poke(1, 1)); break;                             // until cancelled
      case 3: ask(Req::poke(1, 2)); break;                             // for a while
      case 4: ask(Req::add(1, 1, 1)); break;
      case 5: ask(Req::poke(1, 1)); ask(Req::add(2, 1, 1)); break;     // and another one behind
      case 6: ask(Req::poke(1, 1)); ask(Req::poke(2, 1)); break;
      case 7: ask(Req::echo(1, std::string(100, 'x'))); break;         // an answer that nobody reads
      case 8: ask(Req::poke(1, 1)); p.close(); break;                  // of a connection that is lost
    }
    if (quiet) sched::wait_quiet();
    if (how_ < 2) {
      server->stop();
      MC_CHECK(us() < 1000 || what == 3, "not-promptly", std::to_string(us()));
      if (p.fd >= 0) drain(p, may);
    }
    if (how_ == 1) {
      server->stop();                  // once more
      server->start();
      Peer q = hall.enter();
      works(q);
      server->stop();
      drain(q, {});
    }
    server.reset();
    MC_CHECK(us() < (what == 3 ? 6000 : 1000), "not-promptly", std::to_string(us()));
    { sched::Ignore ig; obj.gone = true; MC_CHECK(obj.running == 0, "still-running", ""); }
    if (how_ == 2 && p.fd >= 0) drain(p, may);
    if (quiet && (what == 2 || what == 8)) MC_CHECK(obj.cancelled == 1, "not-cancelled", "");
    if (quiet && what == 3) MC_CHECK(obj.finished == 1, "not-finished", "");
    sched::wait_quiet();
  }
  count(base);
}

MC_SCENARIO("meanwhile", 1, 2) {
  // Connections and requests arrive, end and are answered while the server is stopped.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<Slow> obj;
    Server server(options(1), &hall);
    server.register_object(std::string("calc"), obj);
    server.start();
    int what = mc::choose(6, "what");
    Peer p = hall.enter(), q;
    if (mc::choose(2, "quiet")) sched::wait_quiet();
    arpc::context group(arpc::context::current(), false);
    std::thread t([&] { arpc::context mine(group); server.stop(); if (what == 5) server.start(); });
    std::set<uint32_t> may;
    switch (what) {
      case 0: p.put(Req::add(1, 1, 1).all()); may.insert(1); break;
      case 1: p.close(); break;
      case 2: q = hall.enter(); break;
      case 3: server.stop(); break;
      case 4: p.put(Req::poke(1, 1).all()); p.put(header(CANCEL, 1)); may.insert(1); break;
      case 5: server.start(); break;
    }
    t.join();
    if (what == 5) {
      Peer r = hall.enter();
      works(r);
      server.stop();
      drain(r, {});
    }
    if (p.fd >= 0 && what != 5) drain(p, may);
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  }
  { Hall::connection_type* c = nullptr; (void)c; while (!hall.q.empty()) hall.q.maybe_get(); }
  count(base);
}

MC_SCENARIO("lost-busy", 1, 2) {
  // A connection is lost, or found bad, while its requests are received, executed and answered.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<Slow> obj;
    Server server(options(2), &hall);
    server.register_object(std::string("calc"), obj);
    server.start();
    Peer p = hall.enter(), q = hall.enter();
    int what = mc::choose(3, "what"), way = mc::choose(3, "way");
    p.put((what == 0 ? Req::add(1, 1, 1) : Req::poke(1, 3)).all());
    if (what == 2) sched::wait_quiet();
    if (way == 0) p.close(); else if (way == 1) p.raw(frame("")); else { p.put(Req::add(2, 1, 1).all()); p.close(); }
    works(q);
    if (what) obj.gate.open();
    sched::wait_quiet();
    MC_CHECK(hall.returned == 1, "kept", std::to_string(hall.returned) + " connections given back");
    MC_CHECK(obj.running == 0, "still-running", "");
    q.close();
    sched::wait_quiet();
    MC_CHECK(hall.returned == 2, "kept", std::to_string(hall.returned) + " connections given back");
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
    if (p.fd >= 0) drain(p, {1});
  }
  count(base);
}

MC_SCENARIO("restart-busy", 1, 2) {
  // A method that is still running when its server is stopped and started again is nothing to the new connections.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<Slow> obj;
    Server server(options(2), &hall);
    server.register_object(std::string("calc"), obj);
    server.start();
    int links = 1 + mc::choose(2, "links"), stops = 1 + mc::choose(2, "stops");
    std::vector<Peer> old;
    for (int i = 0; i < links; i++) old.push_back(hall.enter());
    old.back().put(Req::poke(1, 3).all());
    sched::wait_quiet();
    for (int i = 0; i < stops; i++) { server.stop(); server.start(); }
    std::vector<Peer> fresh;
    for (int i = 0; i < links; i++) fresh.push_back(hall.enter());
    // The same number, on what may be the place of the old connection.
    for (auto& p : fresh) {
      p.put(Req::add(1, 40, 2).all());
      Packet a;
      MC_CHECK(p.get(&a) && a.id == 1 && outcome(a.rest) == value(le32(42)), "not-served", "");
    }
    fresh[0].put(Req::poke(1, 1).all());
    sched::wait_quiet();
    obj.gate.open();                 // the old one ends
    sched::wait_quiet();
    MC_CHECK(!fresh[0].readable(), "stray-answer", "");
    // And the new one is still known.
    fresh[0].put(header(CANCEL, 1));
    Packet a;
    MC_CHECK(fresh[0].get(&a) && a.id == 1, "not-answered", "");
    std::string s;
    for (auto& p : old) MC_CHECK(!p.get(&s), "stray-answer", "");
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  }
  count(base);
}

namespace {
using Protocol = arpc::protected_stream_packet_protocol<>;
using Listening = arpc::server<arpc::little_endian_binary_encoder, arpc::little_endian_binary_decoder, Protocol, arpc::little_endian_binary_encoder,
                               arpc::listener_connection_producer<Protocol>>;
}
MC_SCENARIO("listening", 1, 2) {
  // The same with a server that accepts its connections itself.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  sched::opt().left_ok = true;
  vos::set_resolution(":80", 0, {{AF_INET, "0.0.0.0", 80, SOCK_STREAM, 6}});
  {
    sched::NoPreempt np;
    how([] { arpc::address_resolver::get().resolve(arpc::endpoint().port(80)); });
  }
  int base = vos::open_count();
  {
    arpc::server_object<Slow> obj;
    Listening server(options(1), arpc::endpoint().port(80));
    server.register_object(std::string("calc"), obj);
    server.start();
    int what = mc::choose(3, "what"), again = mc::choose(2, "again");
    auto knock = [] {
      int fd = ::socket(AF_INET, SOCK_STREAM, 0);
      sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(80);
      if (::connect(fd, (sockaddr*)&a, sizeof a)) mc::fail("harness", "connect");
      return fd;
    };
    Peer p(knock());
    if (what == 1) p.put(Req::poke(1, 1).all());
    if (what == 2) works(p);
    if (mc::choose(2, "quiet")) sched::wait_quiet();
    if (again) {
      server.stop();
      drain(p, {1});
      server.start();
      Peer q(knock());
      works(q);
    }
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  }
  MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  count(base);
}

MC_SCENARIO("scale", 0, 0) {
  // Many connections and many requests under way when the server is stopped, and again after a restart.
  warm(); sched::opt().timers = false; sched::NoPreempt np; sched::opt().max_steps = 4000000;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<Slow> obj;
    int n = amount(mc::tier_pick(8, 16), mc::tier_pick(129, 257), "connections"), m = 1 + mc::choose(3, "requests on each"), way = mc::choose(3, "way"), rounds = 1 + mc::choose(2, "rounds");
    auto server = std::make_unique<Server>(options(2), &hall);
    server->register_object(std::string("calc"), static_cast<arpc::server_object<Slow>&>(obj));
    for (int r = 0; r < rounds; r++) {
      if (r && way == 2) break;
      server->start();
      std::vector<Peer> p;
      for (int i = 0; i < n; i++) { p.push_back(hall.enter()); for (int k = 0; k < m; k++) p[i].put((way ? Req::poke(k, 1) : Req::add(k, i, 1)).all()); }
      sched::wait_quiet();
      if (way == 2) server.reset(); else server->stop();
      MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
      for (int i = 0; i < n; i++) { std::set<uint32_t> may; for (int k = 0; k < m; k++) may.insert(k); drain(p[i], may); }
    }
    server.reset();
    { sched::Ignore ig; obj.gone = true; MC_CHECK(obj.running == 0, "still-running", ""); }
    sched::wait_quiet();
  }
  count(base);
}
