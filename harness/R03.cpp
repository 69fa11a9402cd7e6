// R03: the server answers every request once and survives bad ones.
#include "rpc.h"
#include "arpc/address_resolver.h"
using namespace rpc;

ARPC_INTERFACE(Other, (), (((int), twice, (((int), x)))));

namespace {
// Cannot be written if negative.
struct Moody {
  int32_t x = 0;
  static constexpr std::uint32_t custom_serialization_version = 1;
  template <typename S> void save(S& s) const { s(x); if (x < 0) throw arpc::errors::invalid_argument("moody"); }
  template <typename S> void load(S& s) { s(x); }
};
}  // namespace
ARPC_INTERFACE(Odd, (), (((Moody), mood, (((int), x)))));

namespace {
struct OddImpl : Odd { Moody mood(int x) override { Moody m; m.x = x; return m; } };
struct OtherImpl : Other { int twice(int x) override { return 2 * x; } };
arpc::server_options options(int workers, int queue = -1) {
  arpc::server_options o;
  o.num_worker_threads = workers;
  o.queue_size = queue;
  return o;
}
// What may be sent, and what has to come back.
struct Case {
  std::string packet, want; std::vector<std::string> wants, log;
  bool none = false, kills = false, some_error = false;
};
const int kCases = 20;
Case make(int k, uint32_t id) {
  Case c;
  Req r = Req::add(id, 2, 3);
  switch (k) {
    case 18: r = Req::poke(id, 98); c.want = "error::plain"; c.log = {"poke 98"}; break;   // what the library does not know
    case 19: r = Req::poke(id, 99); c.want = "error::"; c.log = {"poke 99"}; break;        // what is not even an exception
    case 0: c.want = value(le32(5)); c.log = {"add 2 3"}; break;
    case 1: r = Req::echo(id, "hi"); c.want = value(str("hi")); c.log = {"echo hi"}; break;
    case 2: r = Req::poke(id, 1); c.want = value(""); c.log = {"poke 1"}; break;
    case 3: r = Req::poke(id, -1); c.want = "error:out_of_range:negative"; c.log = {"poke -1"}; break;
    case 4: r.object = str("nobody"); c.want = "error:not_found:Object not found"; break;
    case 5: r.method = "sub"; c.want = "error:not_found:Method not found in object"; break;
    case 6: r.hash ^= 1; c.want = "error:not_found:Method not found in object"; break;
    case 7: r.method = "echo"; c.want = "error:not_found:Method not found in object"; break;   // of another type
    case 8: r.args.pop_back(); c.some_error = true; break;                       // arguments cut off
    case 9: r.args = ""; c.some_error = true; break;
    case 10: r = Req::echo(id, "hi"); r.args = num(1u << 16) + "hi"; c.some_error = true; break;   // a string longer than the packet
    case 11: r.data = num(1) + std::string(3, '\x7f'); c.some_error = true; break;   // context cut off
    case 12: c.packet = header(REQ, id) + r.object; c.some_error = true; break;   // names cut off
    case 13: c.packet = header(REQ, id); c.some_error = true; break;
    case 14: c.packet = header(CANCEL, id + 1000); c.none = true; break;         // of a request not in progress
    case 15: c.packet = header(RESP, id) + std::string("\x01\x00", 2); c.none = c.kills = true; break;   // not for a server
    case 16: c.packet = header(9, id); c.none = c.kills = true; break;           // no such message
    case 17: c.packet = header(REQ, id).substr(0, 3); c.none = c.kills = true; break;   // cut off before the id
  }
  if (c.packet.empty() && k != 17) c.packet = r.all();
  return c;
}
void judge(const Case& c, const std::string& got) {
  if (c.some_error) MC_CHECK(got.substr(0, 6) == "error:" && got.back() != '?', "wrong-answer", got + " to " + mc::hex(c.packet));
  else MC_CHECK(got == c.want, "wrong-answer", got + " instead of " + c.want);
}
void count(int base) {
  sched::wait_quiet();
  MC_CHECK(vos::open_count() == base, "leak", std::to_string(vos::open_count()) + " descriptors, " + std::to_string(base) + " before");
  mc::nontrivial();
}
std::string ask(Peer& p, const Req& r) {
  MC_CHECK(p.put(r.all()), "link-ends", "");
  Packet a;
  MC_CHECK(p.get(&a), "link-ends", "no answer");
  MC_CHECK(a.type == RESP && a.id == r.id, "wrong-answer", "type " + std::to_string(a.type) + " id " + std::to_string(a.id));
  return outcome(a.rest);
}
void works(Peer& p, uint32_t id = 500) { std::string s = ask(p, Req::add(id, 40, 2)); MC_CHECK(s == value(le32(42)), "wrong-answer", s); }

void packets(int n, int kinds, const int* pick, int workers = 0) {
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<CalcImpl> obj;
    Server server(options(workers ? workers : 1 + mc::choose(2, "workers")), &hall);
    server.register_object(std::string("calc"), obj);
    server.start();
    Peer p = hall.enter(), q = hall.enter();
    std::map<uint32_t, Case> open;
    std::vector<std::string> log;
    bool together = n > 1 && mc::choose(2, "together"), dead = false;
    auto answers = [&](size_t down_to) {
      while (open.size() > down_to) {
        Packet a;
        MC_CHECK(p.get(&a), "no-answer", std::to_string(open.size()) + " requests were not answered");
        MC_CHECK(a.type == RESP && open.count(a.id), "stray-answer", "type " + std::to_string(a.type) + " id " + std::to_string(a.id));
        judge(open[a.id], outcome(a.rest));
        open.erase(a.id);
      }
    };
    for (int i = 0; i < n && !dead; i++) {
      int k = mc::choose(kinds, "packet");
      Case c = make(pick ? pick[k] : k, 100 + i);
      p.put(c.packet);
      if (!c.none) open[100 + i] = c;
      log.insert(log.end(), c.log.begin(), c.log.end());
      dead = c.kills;
      if (!together && !dead) answers(0);
    }
    if (!dead) { answers(0); works(p); log.push_back("add 40 2"); sched::wait_quiet(); MC_CHECK(!p.readable(), "stray-answer", "more answers than requests"); }
    works(q); log.push_back("add 40 2");
    std::string s;
    if (dead) {
      // Requests before the bad packet may be answered or not, but at most once.
      while (p.get(&s)) { Packet a = parse(s); MC_CHECK(a.type == RESP && open.count(a.id), "stray-answer", ""); judge(open[a.id], outcome(a.rest)); open.erase(a.id); }
      sched::wait_quiet();
      MC_CHECK(hall.returned == 1, "kept", "the connection is not given back");
    }
    server.stop();
    std::scoped_lock l(obj.m);
    auto got = obj.log;
    std::sort(got.begin(), got.end()); std::sort(log.begin(), log.end());
    if (dead) MC_CHECK(std::includes(log.begin(), log.end(), got.begin(), got.end()), "wrong-calls", "");
    else MC_CHECK(got == log, "wrong-calls", std::to_string(got.size()) + " calls instead of " + std::to_string(log.size()));
  }
  count(base);
}
}  // namespace

MC_SCENARIO("one-packet", 1, 2) { packets(1, kCases, nullptr); }
MC_SCENARIO("packets", 0, 0) { packets(mc::thorough() ? 3 : 2, kCases, nullptr); }
MC_SCENARIO("two-packets", 1, 1) { static const int pick[] = {0, 4, 9, 14, 15}; packets(2, mc::thorough() ? 5 : 3, pick, 2); }

MC_SCENARIO("busy", 1, 2) {
  // Several requests at once, over one or two connections, with few workers and a short queue.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<CalcImpl> obj;
    Server server(options(1 + mc::choose(2, "workers"), mc::choose(2, "queue") - 1), &hall);
    server.register_object(std::string("calc"), obj);
    server.start();
    Peer p = hall.enter(), q;
    bool two = mc::choose(2, "connections");
    if (two) q = hall.enter();
    for (int i = 0; i < 2; i++) { p.put(Req::add(i, i, 1).all()); if (two) q.put(Req::add(i, i, 2).all()); }
    for (Peer* x : {&p, &q}) {
      if (x->fd < 0) continue;
      std::set<uint32_t> seen;
      for (int i = 0; i < 2; i++) {
        Packet a;
        MC_CHECK(x->get(&a) && a.type == RESP && a.id < 2 && seen.insert(a.id).second, "wrong-answer", "");
        MC_CHECK(outcome(a.rest) == value(le32(a.id + (x == &p ? 1 : 2))), "wrong-answer", outcome(a.rest));
      }
    }
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
    sched::wait_quiet();
    MC_CHECK(!p.readable() && (!two || !q.readable()), "stray-answer", "");
    std::scoped_lock l(obj.m);
    MC_CHECK(obj.log.size() == (two ? 4u : 2u), "wrong-calls", std::to_string(obj.log.size()));
  }
  count(base);
}

MC_SCENARIO("connection-lost", 1, 2) {
  // A connection ends in any way; others are served, and new ones.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<CalcImpl> obj;
    Server server(options(2), &hall);
    server.register_object(std::string("calc"), obj);
    server.start();
    Peer p = hall.enter(), q = hall.enter();
    int way = mc::choose(7, "way");
    std::string a = frame(Req::add(1, 1, 1).all());
    switch (way) {
      case 0: p.close(); break;
      case 1: p.raw(a.substr(0, 1)); p.close(); break;
      case 2: p.raw(a.substr(0, a.size() - 1)); p.close(); break;
      case 3: p.raw(a); p.close(); break;                    // nobody waits for the answer
      case 4: p.raw(a + a.substr(0, 7)); p.close(); break;
      case 5: p.raw(std::string(11, '\xff')); break;         // no packet
      case 6: p.raw(frame("")); break;
    }
    works(q);
    sched::wait_quiet();
    MC_CHECK(hall.returned == 1, "kept", std::to_string(hall.returned) + " connections given back");
    Peer r = hall.enter();
    works(r);
    if (way >= 5) { std::string s; MC_CHECK(!p.get(&s), "stray-answer", ""); }
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  }
  count(base);
}

MC_SCENARIO("not-read", 1, 2) {
  // A peer that does not read its answers does not keep the server from noticing the end of the link.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  vos::cfg().socket_capacity = 64;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<CalcImpl> obj;
    Server server(options(2), &hall);
    server.register_object(std::string("calc"), obj);
    server.start();
    Peer p = hall.enter(), q = hall.enter();
    p.put(Req::echo(1, std::string(200, 'x')).all());
    sched::wait_quiet();
    int way = mc::choose(4, "way");
    switch (way) {
      case 0: p.close(); break;
      case 1: p.raw(frame("")); break;
      case 2: p.put(header(9, 1)); break;
      case 3: p.put(Req::add(2, 1, 2).all()); break;         // the other direction works
    }
    works(q);
    sched::wait_quiet();
    if (way == 3) {
      MC_CHECK(hall.returned == 0, "link-ends", "");
      Packet a;
      MC_CHECK(p.get(&a) && a.id == 1 && outcome(a.rest) == value(str(std::string(200, 'x'))), "wrong-answer", "");
      MC_CHECK(p.get(&a) && a.id == 2 && outcome(a.rest) == value(le32(3)), "wrong-answer", "");
    } else {
      MC_CHECK(hall.returned == 1, "kept", std::to_string(hall.returned) + " connections given back");
    }
    works(q, 501);
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  }
  count(base);
}

MC_SCENARIO("registering", 1, 2) {
  // Objects come and go while they are called.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  int base = vos::open_count();
  {
    auto first = std::make_unique<arpc::server_object<CalcImpl>>();
    arpc::server_object<CalcImpl> second;
    second.base = 1000;
    arpc::server_object<OtherImpl> other;
    Server server(options(2), &hall);
    server.register_object(std::string("calc"), *first);
    server.start();
    Peer p = hall.enter();
    int way = mc::choose(6, "way"), busy = mc::choose(3, "busy");
    if (busy == 1) p.put(Req::poke(1, 7).all());            // possibly under way
    if (busy == 2) { p.put(Req::poke(1, 7).all()); sched::wait_quiet(); }
    switch (way) {
      case 0: server.unregister_object(*first); break;
      case 1: server.unregister_object(std::string("calc")); break;
      case 2: server.register_object(std::string("calc"), second); break;
      case 3: server.unregister_object(*first); server.register_object(std::string("calc"), second); break;
      case 4: server.register_object(std::string("calc2"), second); break;
      case 5: server.register_object(std::string("calc"), other); break;      // has other methods
    }
    if (way != 4) first.reset();        // waits for whoever still uses it
    std::string want = way < 2 ? "error:not_found:Object not found" : way == 5 ? "error:not_found:Method not found in object" : value(le32(way == 4 ? 5 : 1005));
    p.put(Req::add(2, 2, 3).all());
    std::set<uint32_t> seen;
    for (int i = busy ? 0 : 1; i < 2; i++) {
      Packet a;
      MC_CHECK(p.get(&a) && a.type == RESP && seen.insert(a.id).second, "wrong-answer", "");
      if (a.id == 2) MC_CHECK(outcome(a.rest) == want, "wrong-answer", outcome(a.rest));
      else MC_CHECK(outcome(a.rest) == value("") || ((way < 2 || way == 5) && busy == 1 && outcome(a.rest) == want)
                    || (way == 3 && busy == 1 && outcome(a.rest) == "error:not_found:Object not found"), "wrong-answer", outcome(a.rest));
    }
    if (way == 4) {
      Req r = Req::add(3, 1, 1);
      r.object = str("calc2");
      MC_CHECK(ask(p, r) == value(le32(1002)), "wrong-answer", "");
      server.unregister_object(std::string("calc"));
      MC_CHECK(ask(p, r) == value(le32(1002)), "wrong-answer", "");
      r.object = str("calc"); r.id = 4;
      std::string s = ask(p, r);
      MC_CHECK(s == "error:not_found:Object not found", "wrong-answer", s);
      first.reset();
    }
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
    server.stop();
  }
  count(base);
}

namespace {
using Protocol = arpc::protected_stream_packet_protocol<>;
template <size_t n>
using Listening = arpc::server<arpc::little_endian_binary_encoder, arpc::little_endian_binary_decoder, Protocol, arpc::little_endian_binary_encoder,
                               arpc::connection_producer<arpc::listener_connection_factory<Protocol>, n>>;
int knock() {
  int fd = ::socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(80);
  if (::connect(fd, (sockaddr*)&a, sizeof a)) mc::fail("harness", "connect");
  return fd;
}
template <size_t n>
void accepting(bool faults) {
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  sched::opt().left_ok = true;
  vos::set_resolution(":80", 0, {{AF_INET, "0.0.0.0", 80, SOCK_STREAM, 6}});
  {
    // The resolver and its thread are made outside of the exploration.
    sched::NoPreempt np;
    how([] { arpc::address_resolver::get().resolve(arpc::endpoint().port(80)); });
  }
  int base = vos::open_count();
  {
    arpc::server_object<CalcImpl> obj;
    Listening<n> server(options(1), arpc::endpoint().port(80));
    server.register_object(std::string("calc"), obj);
    server.start();
    if (faults) { vos::cfg().fail = vos::kAccept; vos::cfg().again = vos::kAccept; vos::cfg().intr = vos::kAccept; }
    std::vector<Peer> p;
    int clients = 1 + mc::choose(2, "clients"), again = mc::choose(2, "stop");
    for (int i = 0; i < clients; i++) p.push_back(Peer(knock()));
    if (n == 1 && clients == 2) {
      // Only one is let in at a time.
      p[1].put(Req::add(1, 1, 2).all());
      works(p[0]);
      sched::wait_quiet();
      MC_CHECK(!p[1].readable(), "too-many", "a second connection is served");
      p[0].close();
      Packet a;
      MC_CHECK(p[1].get(&a) && outcome(a.rest) == value(le32(3)), "wrong-answer", "");
    } else {
      for (auto& x : p) works(x);
    }
    MC_CHECK(us() < 2000000, "not-promptly", std::to_string(us()));
    vos::cfg().fail = vos::cfg().again = vos::cfg().intr = 0;
    if (again) {
      server.stop();
      std::string s;
      for (auto& x : p) if (x.fd >= 0) MC_CHECK(!x.get(&s), "stray-answer", "");
      server.start();
      Peer x(knock());
      works(x);
    }
  }
  count(base);
}
}  // namespace
MC_SCENARIO("accepting", 1, 2) { mc::choose(2, "limit") ? accepting<1>(true) : accepting<size_t(-1)>(true); }

MC_SCENARIO("unanswerable", 1, 2) {
  // A result that cannot be written: its call ends, with an error or with its connection, and others are served.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<CalcImpl> obj;
    arpc::server_object<OddImpl> odd;
    Server server(options(1 + mc::choose(2, "workers")), &hall);
    server.register_object(std::string("calc"), obj);
    server.register_object(std::string("odd"), odd);
    server.start();
    Peer p = hall.enter(), q = hall.enter();
    int before = mc::choose(2, "another before"), after = mc::choose(2, "another behind");
    Req r;
    r.id = 7; r.object = str("odd"); r.method = "mood"; r.hash = hash_of<&Odd::mood>();
    r.args = le32(5);
    std::string s = ask(p, r);
    MC_CHECK(s == value(le32(5)), "wrong-answer", s);
    if (before) p.put(Req::add(1, 1, 1).all());
    r.id = 8; r.args = le32(-5);
    p.put(r.all());
    if (after) p.put(Req::add(2, 1, 1).all());
    std::set<uint32_t> open{8};
    if (before) open.insert(1);
    if (after) open.insert(2);
    bool alive = true;
    while (!open.empty()) {
      if (!p.get(&s)) { alive = false; break; }
      Packet a = parse(s);
      MC_CHECK(a.type == RESP && open.erase(a.id), "stray-answer", std::to_string(a.id));
      std::string got = outcome(a.rest);
      if (a.id == 8) MC_CHECK(got.substr(0, 6) == "error:" && got.back() != '?', "wrong-answer", got); else MC_CHECK(got == value(le32(2)), "wrong-answer", got);
    }
    works(q);
    sched::wait_quiet();
    if (!alive) MC_CHECK(hall.returned == 1, "kept", std::to_string(hall.returned)); else works(p, 501);
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
    server.stop();
  }
  count(base);
}

MC_SCENARIO("names", 0, 1) {
  // Several objects under several names: taking one away, by itself or by name, leaves the others.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<CalcImpl> obj[2];
    obj[0].base = 100; obj[1].base = 200;
    Server server(options(1), &hall);
    server.start();
    Peer p = hall.enter();
    static const std::string kNames[] = {"a", "ab", "b"};
    int owner[3] = {-1, -1, -1};
    uint32_t id = 0;
    int n = mc::tier_pick(4, 5);
    for (int step = 0; step < n; step++) {
      int k = mc::choose(step + 1 == n ? 1 + 6 + 2 + 3 : 6 + 2 + 3, "what");
      if (k < 6) { int o = k / 3, x = k % 3; server.register_object(kNames[x], obj[o]); owner[x] = o; }
      else if (k < 8) { int o = k - 6; server.unregister_object(obj[o]); for (int& x : owner) if (x == o) x = -1; }
      else if (k < 11) { server.unregister_object(kNames[k - 8]); owner[k - 8] = -1; }
    }
    for (int x = 0; x < 3; x++) {
      Req r = Req::add(id++, 1, 1);
      r.object = str(kNames[x]);
      std::string s = ask(p, r), want = owner[x] < 0 ? "error:not_found:Object not found" : value(le32(2 + obj[owner[x]].base));
      MC_CHECK(s == want, "wrong-answer", kNames[x] + ": " + s + " instead of " + want);
    }
    server.stop();
  }
  count(base);
}

MC_SCENARIO("number-again", 1, 2) {
  // Once it has been answered, a request's number can be used for another one.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<CalcImpl> obj;
    Server server(options(2), &hall);
    server.register_object(std::string("calc"), obj);
    server.start();
    Peer p = hall.enter();
    bool failing = mc::choose(2, "the first one fails");
    Req r = Req::add(1, 1, 1);
    if (failing) r.method = "nothing";
    MC_CHECK((ask(p, r) == value(le32(2))) == !failing, "wrong-answer", "");
    works(p, 1);
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  }
  count(base);
}

MC_SCENARIO("scale", 0, 0) {
  // Many objects, connections and requests at a time.
  warm(); sched::opt().timers = false; sched::NoPreempt np; sched::opt().max_steps = 4000000;
  Hall hall;
  int base = vos::open_count();
  {
    int kind = mc::choose(3, "kind"), n = 1 + amount(mc::tier_pick(12, 24), mc::tier_pick(kind == 1 ? 129 : 257, kind == 1 ? 257 : 1025), "many");
    std::vector<arpc::server_object<CalcImpl>> obj(kind == 0 ? n : 1);
    Server server(options(2), &hall);
    server.start();
    for (size_t i = 0; i < obj.size(); i++) { obj[i].base = int(i) * 100; server.register_object(std::string("calc") + (kind ? "" : std::to_string(i)), obj[i]); }
    std::vector<Peer> p;
    for (int i = 0; i < (kind == 1 ? n : 1); i++) p.push_back(hall.enter());
    std::vector<int> order(n);
    for (int i = 0; i < n; i++) order[i] = i;
    if (mc::choose(2, "order")) std::reverse(order.begin(), order.end());
    // One of the objects or connections has gone.
    int gone = kind == 2 ? -1 : n <= 8 ? mc::choose(n, "gone") : std::vector<int>{0, 1, n / 2, n - 2, n - 1}[mc::choose(5, "gone")];
    if (kind == 0) server.unregister_object(std::string("calc") + std::to_string(gone));
    if (kind == 1) p[gone].close();
    auto req = [&](int i) { Req r = Req::add(kind == 1 ? 7 : i, i, 1); if (kind == 0) r.object = str("calc" + std::to_string(i)); return r.all(); };
    for (int i : order) if (kind != 1 || i != gone) p[kind == 1 ? i : 0].put(req(i));
    if (kind == 1) for (int i = 0; i < n; i++) {
      if (i == gone) continue;
      Packet a;
      MC_CHECK(p[i].get(&a) && a.id == 7 && outcome(a.rest) == value(le32(i + 1)), "wrong-answer", std::to_string(i));
    } else {
      std::set<uint32_t> seen;
      for (int k = 0; k < n; k++) {
        Packet a;
        MC_CHECK(p[0].get(&a) && a.type == RESP && seen.insert(a.id).second && int(a.id) < n, "wrong-answer", "");
        MC_CHECK(outcome(a.rest) == (int(a.id) == gone ? "error:not_found:Object not found" : value(le32(int(a.id) * (kind == 0 ? 101 : 1) + 1))), "wrong-answer", outcome(a.rest));
      }
    }
    for (auto& x : p) if (x.fd >= 0) MC_CHECK(!x.readable(), "stray-answer", "");
    server.stop();
  }
  count(base);
}

MC_SCENARIO("number-in-use", 1, 2) {
  // While a request is under way, another one of its number on its connection is not executed, and the first is answered once; those of other connections are others.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<CalcImpl> obj;
    arpc::flag go, started;
    obj.on_poke = [&](int x) { if (x == 1) { started.set(); go.wait(); } };
    Server server(options(3), &hall);
    server.register_object(std::string("calc"), obj);
    server.start();
    Peer p = hall.enter(), q = hall.enter();
    p.put(Req::poke(1, 1).all());
    started.wait();
    int again = 1 + mc::choose(2, "again"), what = mc::choose(3, "what");
    for (int i = 0; i < again; i++) {
      if (what == 0) p.put(Req::poke(1, 2).all());
      if (what == 1) p.put(Req::add(1, 1, 1).all());
      if (what == 2) { Req r = Req::poke(1, 2); r.method = "nothing"; p.put(r.all()); }
    }
    q.put(Req::poke(1, 3).all());
    Packet a;
    MC_CHECK(q.get(&a) && a.id == 1 && outcome(a.rest) == value(""), "wrong-answer", "to the other one");
    works(p, 2);
    go.set();
    MC_CHECK(p.get(&a) && a.id == 1 && outcome(a.rest) == value(""), "wrong-answer", outcome(a.rest));
    works(p, 1);
    std::scoped_lock l(obj.m);
    MC_CHECK(std::count(obj.log.begin(), obj.log.end(), "poke 1") == 1 && std::count(obj.log.begin(), obj.log.end(), "poke 3") == 1 && std::count(obj.log.begin(), obj.log.end(), "poke 2") == 0 && obj.log.size() == 4, "called", "a request of a number in use");
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  }
  count(base);
  mc::nontrivial();
}
