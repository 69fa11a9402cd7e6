// R02: no remote call waits for an answer that cannot come.
#include "rpc.h"
using namespace rpc;

namespace {
const std::string kCalc = "calc";
struct Caller {
  arpc::context group{arpc::context::current(), false};
  std::string end, what; int got = 0; uint64_t at = 0;
  std::thread t;
  template <typename F>
  void run(F f) {
    t = std::thread([this, f] {
      end = how([&] { arpc::context mine(group); got = f(); }, &what);
      at = us();
    });
  }
  template <typename P>
  void start(P& proxy, int a, int b) { run([&proxy, a, b] { return proxy.add(a, b); }); }
  bool failed() const { return end != "ok" && end != "cancelled" && end != "deadline"; }
};
// The link answers from now on as it should; false if it is over.
bool serve_one(Peer& p, int a, int b) {
  Packet r;
  do { if (!p.get(&r)) return false; } while (r.type != REQ);
  MC_CHECK(r.object == str("calc") && r.method == "add" && arg(r.args, 0) == a && arg(r.args, 1) == b, "wrong-request", r.object + "." + r.method);
  p.put(answer(r.id, le32(a + b)));
  return true;
}
void another_call(Client& client, Net& net, Peer* old) {
  Caller c;
  auto proxy = client.get_proxy<Calc>(kCalc);
  c.start(proxy, 20, 22);
  Peer fresh;
  bool served;
  if (old) served = serve_one(*old, 20, 22); else { fresh = Peer(net.accept()); served = serve_one(fresh, 20, 22); }
  MC_CHECK(served, "no-request", "the link ended");
  c.t.join();
  MC_CHECK(c.end == "ok" && c.got == 42, "later-call-fails", c.end + " " + c.what);
  if (!old) fresh.close();
}
void count(int base, Net& net) {
  while (net.waiting()) Peer(net.accept());
  MC_CHECK(vos::open_count() == base, "leak", std::to_string(vos::open_count()) + " descriptors, " + std::to_string(base) + " before");
  mc::nontrivial();
}
// Serves whatever links there are, one at a time.
struct Serving {
  Net& net; bool stop = false; std::thread t;
  explicit Serving(Net& n) : net(n), t([this] {
    for (;;) {
      Peer p(net.accept());
      if (stop) return;
      std::string s;
      while (p.get(&s)) { Packet r = parse(s); if (r.type == REQ) p.put(answer(r.id, le32(arg(r.args, 0) + arg(r.args, 1)))); }
    }
  }) {}
  // Once the clients are gone.
  void end() {
    int f[2];
    vos::socketpair(f);
    { std::scoped_lock l(net.m); stop = true; net.fars.push_back(f[1]); net.c.notify_all(); }
    t.join();
    ::close(f[0]);
  }
};
template <typename F>
std::string get(F& f, int* v = nullptr, std::string* what = nullptr) { return how([&] { int x = f.get(); if (v) *v = x; }, what); }
bool ready(arpc::future<int>& f) { return how([&] { auto [r, t] = arpc::select(f.can_get(), arpc::timeout(ms(0))); (void)t; if (!r) throw arpc::errors::cancelled("no"); }) == "ok"; }
}  // namespace

MC_SCENARIO("link-ends", 1, 2) {
  // Every way in which the link can break while one or two calls are pending.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Net net;
  int base = vos::open_count();
  {
    Client client(&net);
    auto proxy = client.get_proxy<Calc>(kCalc);
    int callers = 1 + mc::choose(2, "callers");
    int way = mc::choose(10, "way");
    std::deque<Caller> c(callers);
    for (int i = 0; i < callers; i++) c[i].start(proxy, 1, i);
    Peer p(net.accept());
    std::vector<Packet> r(callers);
    for (auto& x : r) MC_CHECK(p.get(&x) && x.type == REQ, "no-request", "");
    std::string a = frame(answer(r[0].id, le32(1)));
    switch (way) {
      case 0: p.close(); break;                                             // ends
      case 1: case 2: case 3: p.raw(a.substr(0, way == 1 ? 1 : way == 2 ? 4 : a.size() - 1)); p.close(); break;   // ends inside a packet
      case 4: p.put(header(7, r[0].id)); break;                             // no such message
      case 5: p.put(header(RESP, r[0].id).substr(0, 3)); break;             // cut off
      case 6: p.put(""); break;
      case 7: p.put(header(REQ, r[0].id)); break;                           // not for a client
      case 8: p.raw(num(size_t(-1) >> 1) + "x"); break;                     // too long
      case 9: p.raw(std::string(11, '\xff')); break;                        // no number
    }
    for (auto& x : c) x.t.join();
    for (auto& x : c) MC_CHECK(x.failed(), "wrong-end", x.end + " " + x.what);
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
    p.close();
    another_call(client, net, nullptr);
  }
  count(base, net);
}

MC_SCENARIO("answer-is-bad", 1, 2) {
  // Answers which do not hold what they should end their call with an error, and no other call.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Net net;
  int base = vos::open_count();
  {
    Client client(&net);
    auto proxy = client.get_proxy<Calc>(kCalc);
    int way = mc::choose(5, "way");
    Caller x, y;
    x.start(proxy, 3, 4);
    Peer p(net.accept());
    Packet rx, ry;
    MC_CHECK(p.get(&rx), "no-request", "");
    y.start(proxy, 5, 6);
    MC_CHECK(p.get(&ry), "no-request", "");
    p.put(answer(rx.id + 77, le32(1)));                     // nobody asked for it
    switch (way) {
      case 0: p.put(header(RESP, rx.id)); break;            // no result at all
      case 1: p.put(answer(rx.id, "ab").substr(0, 8)); break;   // cut off
      case 2: p.put(header(RESP, rx.id) + std::string("\x00\x00", 2)); break;   // neither a value nor an error
      case 3: p.put(answer_error(rx.id, "no::such::class", "oops")); break;
      case 4: p.put(answer_error(rx.id, "arpc::errors::not_found", "oops").substr(0, 20)); break;
    }
    x.t.join();
    if (way != 2) MC_CHECK(x.end != "ok" && x.end != "cancelled" && x.end != "deadline", "wrong-end", x.end + " " + x.what);
    if (way == 3) MC_CHECK(x.what.find("oops") != std::string::npos, "error-lost", x.end + " " + x.what);
    p.put(answer(rx.id, le32(1)));                          // once more
    p.put(answer(ry.id, le32(11)));
    y.t.join();
    MC_CHECK(y.end == "ok" && y.got == 11, "other-call-fails", y.end + " " + y.what);
    another_call(client, net, &p);
    p.close();
  }
  count(base, net);
}

MC_SCENARIO("one-gives-up", 1, 2) {
  // One call is cancelled or runs out of time; the other one, and later ones, do not notice.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Net net;
  int base = vos::open_count();
  {
    Client client(&net);
    arpc::client_options o;
    int way = mc::choose(3, "way");          // cancelled, its deadline, the client's limit
    int when = mc::choose(2, "when");        // at any time; while waiting
    int late = mc::choose(2, "late");        // whether it is answered nevertheless
    if (way == 2) o.request_timeout = ms(20);
    auto proxy = client.get_proxy<Calc>(kCalc);
    auto limited = client.get_proxy<Calc>(kCalc, o);
    Caller x, y;
    if (way == 1) x.group.set_timeout(ms(20));
    y.start(proxy, 5, 6);
    Peer p(net.accept());
    Packet ry, rx;
    MC_CHECK(p.get(&ry), "no-request", "");
    sched::wait_quiet();
    int before = vos::open_count();
    x.start(limited, 3, 4);
    if (when == 1) sched::wait_quiet();
    if (way == 0) x.group.cancel();
    x.t.join();
    uint64_t limit = way == 0 ? 1000 : 22000;
    MC_CHECK(us() <= limit, "not-promptly", std::to_string(us()));
    if (way) MC_CHECK(us() >= 20000, "too-early", std::to_string(us()));
    MC_CHECK(x.end == (way == 0 ? "cancelled" : "deadline"), "wrong-end", x.end + " " + x.what);
    sched::wait_quiet();
    // A write cut off by the end of the context takes the link along, and the other call then fails.
    bool linked;
    { sched::Ignore ig; linked = y.end.empty(); }
    if (linked) {
      bool sent = p.readable() && p.get(&rx) && rx.type == REQ;
      MC_CHECK(sent || when == 0, "no-request", "");
      if (sent && way == 0) {
        Packet q;
        MC_CHECK(p.readable() && p.get(&q) && q.type == CANCEL && q.id == rx.id, "peer-not-told", "the peer is not told about the cancellation");
      }
      if (sent && late) p.put(answer(rx.id, le32(99)));
      sched::wait_quiet();
      MC_CHECK(vos::open_count() == before, "kept", "bookkeeping of the call is kept: " + std::to_string(vos::open_count()) + " descriptors, " + std::to_string(before) + " before");
      if (p.readable()) { Packet q; MC_CHECK(p.get(&q) && q.type == CANCEL, "talks", std::to_string(q.type)); }
      p.put(answer(ry.id, le32(11)));
      y.t.join();
      MC_CHECK(y.end == "ok" && y.got == 11, "other-call-fails", y.end + " " + y.what);
      another_call(client, net, &p);
    } else {
      y.t.join();
      MC_CHECK(when == 0 && y.failed(), "other-call-fails", y.end + " " + y.what);
    }
    p.close();
  }
  count(base, net);
}

MC_SCENARIO("destroyed", 1, 2) {
  // The client goes away while calls are pending or it is busy with something else.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Net net;
  int base = vos::open_count();
  {
    auto client = std::make_unique<Client>(&net);
    auto proxy = client->get_proxy<Calc::async>(kCalc);
    int way = mc::choose(5, "way");
    auto [f, id] = proxy.add(1, 2);
    std::optional<std::pair<arpc::future<int>, uint32_t>> other;
    Peer p(net.accept());
    Packet r;
    MC_CHECK(p.get(&r), "no-request", "");
    switch (way) {
      case 1: other.emplace(proxy.add(3, 4)); break;
      case 2: p.put(answer(r.id, le32(3))); break;           // the answer may still make it
      case 3: client->cancel_request(id); break;             // the cancellation may still be under way
      case 4: p.close(); { sched::Ignore ig; net.hang_next = 1; } client->cancel_request(id); break;   // and hang
    }
    client.reset();
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
    int v = 0;
    MC_CHECK(ready(f), "waits", "a call of a client that is gone is still waiting");
    std::string e = get(f, &v);
    if (way == 2) MC_CHECK(e != "ok" || v == 3, "wrong-end", std::to_string(v));
    else if (way == 3 || way == 4) MC_CHECK(e != "ok", "wrong-end", e);
    else MC_CHECK(e != "ok" && e != "cancelled" && e != "deadline", "wrong-end", e);
    if (other) { MC_CHECK(ready(other->first), "waits", ""); e = get(other->first); MC_CHECK(e != "ok" && e != "cancelled" && e != "deadline", "wrong-end", e); }
    std::string s;
    if (way != 4) { while (p.get(&s)) {} }
  }
  count(base, net);
}

MC_SCENARIO("dialing", 1, 2) {
  // The peer cannot be reached, or not in time.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Net net;
  int base = vos::open_count();
  {
    Client client(&net);
    int way = mc::choose(4, "way");
    auto proxy = client.get_proxy<Calc>(kCalc);
    arpc::client_options o;
    if (way == 2) o.request_timeout = ms(20);
    auto limited = client.get_proxy<Calc>(kCalc, o);
    { sched::Ignore ig; if (way == 0) net.fail_next = 1; else net.hang_next = 1; }
    Caller x, y;
    if (way == 1) x.group.set_timeout(ms(20));
    x.start(limited, 1, 2);
    sched::wait_quiet();
    y.start(proxy, 3, 4);
    if (way == 3) { sched::wait_quiet(); x.group.cancel(); }
    Peer p(net.accept());
    MC_CHECK(serve_one(p, 3, 4), "no-request", "");
    x.t.join(); y.t.join();
    MC_CHECK(x.end == (way == 0 ? "io" : way == 3 ? "cancelled" : "deadline"), "wrong-end", x.end + " " + x.what);
    MC_CHECK(y.end == "ok" && y.got == 7, "other-call-fails", y.end + " " + y.what);
    MC_CHECK(us() <= (way == 1 || way == 2 ? 22000 : 1000), "not-promptly", std::to_string(us()));
    another_call(client, net, &p);
    p.close();
  }
  count(base, net);
}

MC_SCENARIO("not-read", 1, 2) {
  // The peer does not read, so that a call is stuck sending, while another waits for its answer.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  vos::cfg().socket_capacity = 64;
  Net net;
  int base = vos::open_count();
  {
    Client client(&net);
    int way = mc::choose(6, "way");
    auto proxy = client.get_proxy<Calc>(kCalc);
    arpc::client_options o, none;
    none.request_timeout.reset();
    if (way == 4 || way == 5) o.request_timeout = ms(20);
    auto async = client.get_proxy<Calc::async>(kCalc, o);
    auto unlimited = client.get_proxy<Calc>(kCalc, none);
    auto unlimited_async = client.get_proxy<Calc::async>(kCalc, none);
    auto [f, id] = async.add(1, 2);
    (void)id;
    Peer p(net.accept());
    Packet r;
    MC_CHECK(p.get(&r), "no-request", "");
    auto [g, gid] = unlimited_async.add(7, 8);
    MC_CHECK(p.get(&r), "no-request", "");
    Caller x;
    if (way != 5) x.run([&] { return int(unlimited.echo(std::string(200, 'x')).size()); });
    else {
      // Instead, what is stuck is the cancellation of others.
      uint32_t hid = 0;
      for (int i = 0; i < 2; i++) hid = unlimited_async.add(0, 0).second;
      client.cancel_request(hid);
      sched::wait_quiet();
    }
    if (way != 5) sched::wait_quiet();
    switch (way) {
      case 0: p.put(header(7, 0)); break;
      case 1: p.close(); break;
      case 2: x.group.cancel(); break;
      case 3: p.put(answer(r.id, le32(15))); p.put(header(7, 0)); break;
      case 4: client.cancel_request(gid); break;
    }
    int v = 0;
    std::string e;
    e = get(f);
    uint64_t at = us();
    // What is cut off (5) takes the link along.
    if (way >= 4) MC_CHECK((e == "deadline" || (way == 5 && e != "ok" && e != "cancelled")) && at >= 20000 && at < 22000, "not-in-time", e + " " + std::to_string(at));
    else MC_CHECK(e != "ok" && e != "cancelled" && e != "deadline" && at < 1000, "wrong-end", e + " " + std::to_string(at));
    if (way == 3) { MC_CHECK(get(g, &v) == "ok" && v == 15, "answer-lost", std::to_string(v)); }
    else if (way < 3) { e = get(g); MC_CHECK(e != "ok" && e != "cancelled" && e != "deadline", "wrong-end", e); }
    p.close();
    if (way != 5) {
      x.t.join();
      MC_CHECK(way == 2 ? x.end == "cancelled" : x.failed(), "wrong-end", x.end + " " + x.what);
    }
    sched::wait_quiet();
    while (net.waiting()) Peer q(net.accept());
    sched::wait_quiet();
    another_call(client, net, nullptr);
  }
  count(base, net);
}

MC_SCENARIO("link-replaced", 1, 2) {
  // The link ends while its receiver is busy, and a sender is the first to notice and dials again.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Net net;
  int base = vos::open_count();
  {
    auto client = std::make_unique<Client>(&net);
    auto async = client->get_proxy<Calc::async>(kCalc);
    auto [f, id] = async.add(1, 2);
    (void)id;
    Peer p(net.accept());
    Packet r;
    MC_CHECK(p.get(&r), "no-request", "");
    int stray = mc::choose(2, "stray");
    if (stray) p.put(answer(r.id + 77, le32(0)));
    p.close();
    // Calls until one makes it.
    Serving server(net);
    auto proxy = client->get_proxy<Calc>(kCalc);
    int v = 0, tries = 0;
    std::string what, e;
    do { tries++; e = how([&] { v = proxy.add(20, 22); }, &what); MC_CHECK(e != "cancelled" && e != "deadline", "wrong-end", e + " " + what); } while (e != "ok" && tries < 4);
    MC_CHECK(e == "ok" && v == 42, "later-call-fails", e + " " + what);
    sched::wait_quiet();
    MC_CHECK(ready(f), "waits", "a call keeps waiting for its answer although the link it was sent over is gone");
    e = get(f);
    MC_CHECK(e != "ok" && e != "cancelled" && e != "deadline", "wrong-end", e);
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
    client.reset();
    server.end();
  }
  count(base, net);
}

MC_SCENARIO("io-fails", 1, 2) {
  // Any read or write of the client's fails or is short, at any point of two calls.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  vos::cfg().fail = vos::kRead | vos::kWrite;
  vos::cfg().shorten = vos::kRead | vos::kWrite;
  vos::cfg().library_sockets_only = true;
  Net net;
  int base = vos::open_count();
  {
    auto client = std::make_unique<Client>(&net);
    auto proxy = client->get_proxy<Calc>(kCalc);
    Caller x, y;
    Serving server(net);
    x.start(proxy, 1, 2);
    y.start(proxy, 3, 4);
    x.t.join(); y.t.join();
    for (auto* c : {&x, &y}) {
      MC_CHECK(c->end == "ok" || c->failed(), "wrong-end", c->end + " " + c->what);
      if (c->end == "ok") MC_CHECK(c->got == (c == &x ? 3 : 7), "wrong-answer", std::to_string(c->got));
    }
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
    sched::wait_quiet();
    vos::cfg().fail = vos::cfg().shorten = 0;
    int v = 0;
    std::string what, e = how([&] { v = proxy.add(5, 6); }, &what);
    MC_CHECK(e == "ok" && v == 11, "later-call-fails", e + " " + what);
    client.reset();
    server.end();
  }
  count(base, net);
}

MC_SCENARIO("several-expire", 0, 1) {
  // Calls that are not waited for run out of time, each at its own, whatever the order they were made in.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Net net;
  int base = vos::open_count();
  {
    Client client(&net);
    static const int kLimits[] = {10, 20, 30, 0};
    int n = 2 + mc::choose(mc::tier_pick(2, 3), "calls");
    std::vector<int> limit;
    std::deque<arpc::future<int>> f;
    Peer p;
    int answered = mc::choose(n + 1, "answered") - 1;
    uint32_t its = 0;
    for (int i = 0; i < n; i++) {
      limit.push_back(mc::pick(kLimits, "limit"));
      arpc::client_options o;
      o.request_timeout.reset();
      if (limit[i]) o.request_timeout = ms(limit[i]);
      auto [x, id] = client.get_proxy<Calc::async>(kCalc, o).add(1, i);
      f.push_back(std::move(x));
      if (i == 0) p = Peer(net.accept());
      Packet r;
      MC_CHECK(p.get(&r) && r.type == REQ && r.id == id, "no-request", "");
      if (i == answered) its = id;
    }
    MC_CHECK(us() < 1000, "harness", "took too long");
    if (answered >= 0) p.put(answer(its, le32(77)));
    for (int at = 5; at <= 45; at += 10) {
      sleep_us(at * 1000 - us());
      sched::wait_quiet();
      for (int i = 0; i < n; i++) {
        bool over = i == answered || (limit[i] && limit[i] < at);
        MC_CHECK(ready(f[i]) == over, over ? "waits" : "too-early", "a call limited to " + std::to_string(limit[i]) + " ms after " + std::to_string(at));
      }
    }
    for (int i = 0; i < n; i++) {
      if (i != answered && !limit[i]) continue;
      int v = 0;
      std::string e = get(f[i], &v);
      if (i == answered) MC_CHECK(e == "ok" && v == 77, "wrong-end", e); else MC_CHECK(e == "deadline", "wrong-end", e);
    }
    another_call(client, net, &p);
  }
  count(base, net);
}

MC_SCENARIO("scale", 0, 0) {
  // Many pending calls: when the link or the client ends each of them does, and each when its time is up.
  warm(); sched::opt().timers = false; sched::NoPreempt np; sched::opt().max_steps = 4000000;
  Net net;
  int base = vos::open_count();
  {
    auto client = std::make_unique<Client>(&net);
    int n = 1 + amount(mc::tier_pick(12, 24), mc::tier_pick(257, 1025), "calls"), way = mc::choose(5, "way"), from = n <= 8 ? mc::choose(n, "which") : std::vector<int>{0, 1, n / 2, n - 2, n - 1}[mc::choose(5, "which")];
    std::deque<arpc::future<int>> f;
    Peer p;
    std::vector<uint32_t> ids;
    for (int i = 0; i < n; i++) {
      arpc::client_options o;
      o.request_timeout.reset();
      if (way == 3) o.request_timeout = ms(10 + (i + n - from) % n);      // from the chosen one on
      if (way == 4 && i == from) o.request_timeout = ms(10);
      auto [x, id] = client->get_proxy<Calc::async>(kCalc, o).add(1, i);
      f.push_back(std::move(x)); ids.push_back(id);
      if (i == 0) p = Peer(net.accept());
    }
    for (int i = 0; i < n; i++) { Packet r; MC_CHECK(p.get(&r) && r.type == REQ && r.id == ids[i], "no-request", ""); }
    MC_CHECK(us() < 1000, "harness", "took too long");
    auto failed = [&](int i, const char* want) { std::string e = get(f[i]); MC_CHECK(want ? e == want : e != "ok" && e != "cancelled" && e != "deadline", "wrong-end", std::to_string(i) + " " + e); };
    switch (way) {
      case 0: p.close(); for (int i = 0; i < n; i++) failed(i, nullptr); break;
      case 1: p.put(answer(ids[from], le32(8))); p.put(""); for (int i = 0; i < n; i++) if (i == from) MC_CHECK(get(f[i]) == "ok", "wrong-end", ""); else failed(i, nullptr); break;
      case 2: client.reset(); for (int i = 0; i < n; i++) { std::string e = get(f[i]); MC_CHECK(e != "ok" && e != "deadline", "wrong-end", e); } break;
      case 3:
        for (int k = 0; k < n; k++) {
          int i = (from + k) % n;
          MC_CHECK(!ready(f[i]), "too-early", std::to_string(i));
          failed(i, "deadline");
          MC_CHECK(us() >= uint64_t(10 + k) * 1000 && us() < uint64_t(12 + k) * 1000 + 1000, "not-in-time", std::to_string(us()));
        }
        break;
      case 4:
        failed(from, "deadline");
        MC_CHECK(us() < 13000, "not-in-time", "");
        for (int i = 0; i < n; i++) if (i != from) { MC_CHECK(!ready(f[i]), "wrong-end", ""); p.put(answer(ids[i], le32(i))); int v = 0; MC_CHECK(get(f[i], &v) == "ok" && v == i, "wrong-end", ""); }
        break;
    }
    if (way < 3) MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
    if (way < 2) { p.close(); another_call(*client, net, nullptr); }
    if (way > 2) another_call(*client, net, &p);
  }
  count(base, net);
}

MC_SCENARIO("long-lived", 0, 0) {
  // A call that is answered after a great many others are still gets its own answer.
  warm(); sched::opt().timers = false; sched::NoPreempt np; sched::opt().max_steps = 400000000;
  Net net;
  int base = vos::open_count();
  {
    Client client(&net);
    const int many[] = {255, 256, 257, 1025, 66000};
    int n = many[mc::choose(5, "calls")], way = n < 10000 || mc::thorough() ? mc::choose(3, "way") : 0;
    arpc::client_options o;
    o.request_timeout.reset();
    auto proxy = client.get_proxy<Calc::async>(kCalc, o);
    auto [f, id] = proxy.add(1, 1);
    Peer p(net.accept());
    Packet r;
    MC_CHECK(p.get(&r) && r.type == REQ && r.id == id, "no-request", "");
    for (int i = 0; i < n; i++) {
      auto [g, other] = proxy.add(1, i);
      MC_CHECK(p.get(&r) && r.type == REQ && r.id == other && other != id, "same-number", std::to_string(i));
      p.put(answer(other, le32(i)));
      int v = -1;
      MC_CHECK(get(g, &v) == "ok" && v == i, "wrong-answer", std::to_string(i));
      MC_CHECK(!ready(f), "wrong-end", std::to_string(i));
    }
    int v = -1;
    if (way == 0) { p.put(answer(id, le32(77))); MC_CHECK(get(f, &v) == "ok" && v == 77, "wrong-answer", ""); }
    if (way == 1) { client.cancel_request(id); MC_CHECK(get(f) == "cancelled", "wrong-end", ""); MC_CHECK(p.get(&r) && r.type == CANCEL && r.id == id, "no-cancellation", ""); }
    if (way == 2) { p.close(); MC_CHECK(get(f) != "ok", "wrong-end", ""); another_call(client, net, nullptr); }
    else another_call(client, net, &p);
  }
  count(base, net);
}
