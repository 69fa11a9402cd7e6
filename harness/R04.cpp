// R04: the context of a call travels with it, and so does its cancellation.
#include "rpc.h"
#include "arpc/serializable.h"
using namespace rpc;

namespace {
struct User : arpc::dynamic<User> { int id = 0; ARPC_FIELDS(id); User() = default; explicit User(int i) : id(i) {} };
struct Trace : arpc::dynamic<Trace> { std::string hops; ARPC_FIELDS(hops); Trace() = default; explicit Trace(std::string h) : hops(std::move(h)) {} };
}  // namespace
ARPC_REGISTER_WITH_NAME("r04.user", User);
ARPC_REGISTER_WITH_NAME("r04.trace", Trace);

namespace {
const std::string kCalc = "calc";
arpc::server_options options(int workers) {
  arpc::server_options o;
  o.num_worker_threads = workers;
  return o;
}
// The contexts in which its methods run.
struct Seen { bool cancelled = false; std::optional<int64_t> deadline; int user = 0; std::string hops, end; uint64_t ended = 0; };
struct Watcher : CalcImpl {
  std::map<int, Seen> seen;
  Gate gate;
  int64_t start = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
  // 0..9 ends at once, 10..19 when its context ends, 20..29 once the gate is opened
  Watcher() {
    on_poke = [this](int x) {
      arpc::context& c = arpc::context::current();
      Seen s;
      s.cancelled = c.is_cancelled();
      if (auto d = c.deadline()) s.deadline = std::chrono::duration_cast<std::chrono::microseconds>(d->time_since_epoch()).count() - start + int64_t(us0);
      s.user = c.get<User>().id;
      s.hops = c.get<Trace>().hops;
      c.set(User(99), Trace("server"));          // nobody else's business
      { std::scoped_lock l(m); seen[x] = s; }
      std::exception_ptr e;
      try {
        if (x / 10 == 1) { auto [n] = arpc::select(arpc::never()); (void)n; }
        if (x / 10 == 2) gate.wait();
      } catch (...) { e = std::current_exception(); }
      s.end = !e ? "ok" : how([&] { std::rethrow_exception(e); });
      s.ended = us();
      s.cancelled = c.is_cancelled();
      { std::scoped_lock l(m); seen[x] = s; }
      if (e) std::rethrow_exception(e);
    };
  }
  uint64_t us0 = us();
  Seen get(int x) { std::scoped_lock l(m); MC_CHECK(seen.count(x), "not-called", std::to_string(x)); return seen[x]; }
};
struct Caller {
  arpc::context group{arpc::context::current(), false};
  std::string end; uint64_t at = 0;
  std::thread t;
  template <typename F>
  void run(F f) {
    t = std::thread([this, f] { end = how([&] { arpc::context mine(group); f(); }); at = us(); });
  }
};
std::string show(const std::optional<int64_t>& d) { return d ? std::to_string(*d) : "none"; }
}  // namespace

MC_SCENARIO("deadlines", 1, 2) {
  // The earliest of what the caller, the client's options and the server's options allow.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  int of_caller = mc::choose(3, "caller"), of_client = mc::choose(3, "client"), of_server = mc::choose(3, "server");
  arpc::server_options o = options(1);
  arpc::client_options c;
  std::optional<int64_t> want;
  auto limit = [&](int64_t us) { want = want ? std::min(*want, us) : us; };
  Watcher impl_time;   // (fixes the zero of time)
  o.request_timeout.reset(); c.request_timeout.reset();
  if (of_client == 1) { c.request_timeout = ms(30); limit(30000); }
  if (of_client == 2) { c.request_timeout = ms(5); limit(5000); }
  if (of_server == 1) { o.request_timeout = ms(20); limit(20000); }
  if (of_server == 2) { o.request_timeout = ms(7); limit(7000); }
  int64_t of_both = want.value_or(INT64_MAX);
  (void)of_both;
  arpc::server_object<Watcher> obj;
  Server server(o, &hall);
  server.register_object(kCalc, obj);
  server.start();
  {
    WiredClient client(&hall);
    auto proxy = client.get_proxy<Calc>(kCalc, c);
    Caller x;
    if (of_caller == 1) { x.group.set_timeout(ms(25)); limit(25000); }
    if (of_caller == 2) { x.group.set_timeout(ms(6)); limit(6000); }
    int n = want ? 11 : 1;
    bool limited = false;
    x.run([&proxy, &limited, n] {
      arpc::context mine;
      auto before = mine.deadline();
      std::exception_ptr e;
      try { proxy.poke(n); } catch (...) { e = std::current_exception(); }
      limited = mine.deadline() != before;
      if (e) std::rethrow_exception(e);
    });
    x.t.join();
    MC_CHECK(!limited, "caller-limited", "what limits a call stays with its caller");
    sched::wait_quiet();
    // Where only the server has a limit, its error is the outcome.
    MC_CHECK(x.end == (want ? "deadline" : "ok"), "wrong-end", x.end);
    if (want) sched::sleep_ms(3);
    Seen s = obj.get(n);
    if (want) {
      MC_CHECK(s.deadline && *s.deadline >= *want - 1000 && *s.deadline <= *want + 1000, "wrong-deadline", show(s.deadline) + " instead of " + show(want));
      MC_CHECK(x.at + 1000 >= uint64_t(*want) && x.at <= uint64_t(*want) + 2000, "not-in-time", std::to_string(x.at));
      MC_CHECK(s.end == "deadline" && s.ended <= uint64_t(*want) + 2000, "wrong-end", s.end + " at " + std::to_string(s.ended));
    } else {
      MC_CHECK(!s.deadline, "wrong-deadline", show(s.deadline));
    }
    MC_CHECK(!s.cancelled, "wrong-cancel", "");
  }
  mc::nontrivial();
}

MC_SCENARIO("data", 1, 2) {
  // Each method sees the data of its caller's context, and nothing else.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  arpc::server_object<Watcher> obj;
  Server server(options(2), &hall);
  server.register_object(kCalc, obj);
  server.start();
  {
    WiredClient client(&hall);
    auto proxy = client.get_proxy<Calc>(kCalc);
    int data[2] = {mc::choose(4, "data"), mc::choose(4, "data")};
    bool together = mc::choose(2, "together");
    Caller x[2];
    for (int i = 0; i < 2; i++) {
      if (data[i] & 1) x[i].group.set(User(10 + i));
      if (data[i] & 2) x[i].group.set(Trace("t" + std::to_string(i)));
      x[i].run([&proxy, i, &x, &data] {
        proxy.poke(i);
        MC_CHECK(arpc::context::current().get<User>().id == (data[i] & 1 ? 10 + i : 0), "comes-back", "");
      });
      if (!together) x[i].t.join();
    }
    if (together) for (auto& c : x) c.t.join();
    for (int i = 0; i < 2; i++) {
      MC_CHECK(x[i].end == "ok", "wrong-end", x[i].end);
      Seen s = obj.get(i);
      MC_CHECK(s.user == (data[i] & 1 ? 10 + i : 0) && s.hops == (data[i] & 2 ? "t" + std::to_string(i) : ""), "wrong-data", std::to_string(s.user) + " " + s.hops);
    }
  }
  server.stop();
  MC_CHECK(arpc::context::top().get<User>().id == 0, "leaks", "");
  mc::nontrivial();
}

MC_SCENARIO("cancel", 1, 2) {
  // One of two calls is cancelled at any time.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  arpc::server_object<Watcher> obj;
  Server server(options(3), &hall);
  server.register_object(kCalc, obj);
  server.start();
  {
    WiredClient client(&hall);
    auto proxy = client.get_proxy<Calc>(kCalc);
    auto async = client.get_proxy<Calc::async>(kCalc);
    int way = mc::choose(2, "way"), when = mc::choose(2, "when");
    proxy.poke(0);                          // connected
    sched::wait_quiet();
    Caller x;
    int before = vos::open_count();
    std::optional<std::pair<arpc::future<void>, uint32_t>> f, g;
    int other = 20;
    if (way == 0) {
      g.emplace(async.poke(other));
      x.run([&] { proxy.poke(11); });
      if (when) sched::wait_quiet();
      x.group.cancel();
      x.t.join();
      MC_CHECK(x.end == "cancelled", "wrong-end", x.end);
    } else {
      f.emplace(async.poke(11));
      g.emplace(async.poke(other));
      if (when) sched::wait_quiet();
      client.cancel_request(f->second);
      std::string e = how([&] { f->first.get(); });
      MC_CHECK(e == "cancelled", "wrong-end", e);
    }
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
    sched::wait_quiet();
    // A call cut off while it is sent takes the link along, and never gets to the server.
    bool called; { std::scoped_lock l(obj.m); called = obj.seen.count(11); }
    MC_CHECK(called || (way == 0 && !when), "not-called", "");
    bool linked = hall.returned == 0;
    MC_CHECK(linked || !when, "link-ends", "");
    if (called && linked) {
      Seen s = obj.get(11);
      MC_CHECK(s.end == "cancelled" && s.cancelled, "not-cancelled", "the method is not told that its call was cancelled: " + s.end);
    }
    if (linked) {
      std::string e;
      { std::scoped_lock l(obj.m); MC_CHECK(obj.seen.count(other) && obj.seen[other].end.empty() && !obj.seen[other].cancelled, "other-cancelled", obj.seen[other].end); }
      obj.gate.open();
      e = how([&] { g->first.get(); });
      MC_CHECK(e == "ok", "other-cancelled", e);
      MC_CHECK(!obj.get(other).cancelled, "other-cancelled", "");
      // Nothing is kept of either.
      f.reset(); g.reset();
      sched::wait_quiet();
      MC_CHECK(vos::open_count() == before, "kept", std::to_string(vos::open_count()) + " descriptors, " + std::to_string(before) + " before");
    }
    obj.gate.open();
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  }
  mc::nontrivial();
}

MC_SCENARIO("cancel-packets", 1, 2) {
  // Cancellations reach the request in progress that they name, on their own connection, only.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  arpc::server_object<Watcher> obj;
  Server server(options(3), &hall);
  server.register_object(kCalc, obj);
  server.start();
  Peer p = hall.enter(), q = hall.enter();
  sched::wait_quiet();
  int before = vos::open_count();
  int way = mc::choose(7, "way");
  bool quiet = mc::choose(2, "quiet");
  Packet a;
  auto got = [&](Peer& x, uint32_t id, const std::string& want) {
    MC_CHECK(x.get(&a) && a.type == RESP && a.id == id, "wrong-answer", std::to_string(a.id));
    std::string s = outcome(a.rest);
    MC_CHECK(s.substr(0, want.size()) == want, "wrong-answer", s + " instead of " + want);
  };
  auto pause = [&] { if (quiet) sched::wait_quiet(); };
  switch (way) {
    case 0:   // right behind the request
      p.put(Req::poke(1, 10).all()); pause(); p.put(header(CANCEL, 1));
      got(p, 1, "error:cancelled");
      break;
    case 1:   // of the same number on another connection
      p.put(Req::poke(1, 20).all()); q.put(Req::poke(1, 10).all()); pause(); q.put(header(CANCEL, 1));
      got(q, 1, "error:cancelled");
      sched::wait_quiet();
      MC_CHECK(!obj.get(20).cancelled && !p.readable(), "other-cancelled", "");
      obj.gate.open();
      got(p, 1, value(""));
      MC_CHECK(!obj.get(20).cancelled, "other-cancelled", "");
      break;
    case 2:   // before the request
      p.put(header(CANCEL, 1)); pause(); p.put(Req::poke(1, 1).all());
      got(p, 1, value(""));
      MC_CHECK(!obj.get(1).cancelled, "wrong-cancel", "");
      break;
    case 3:   // of another number
      p.put(Req::poke(1, 20).all()); pause(); p.put(header(CANCEL, 2)); p.put(header(CANCEL, 0));
      sched::wait_quiet();
      MC_CHECK(!obj.get(20).cancelled && !p.readable(), "other-cancelled", "");
      obj.gate.open();
      got(p, 1, value(""));
      break;
    case 4:   // too late; the number is then used again
      p.put(Req::poke(1, 1).all());
      got(p, 1, value(""));
      p.put(header(CANCEL, 1)); pause(); p.put(Req::poke(1, 2).all());
      got(p, 1, value(""));
      MC_CHECK(!obj.get(2).cancelled, "wrong-cancel", "");
      break;
    case 5: { // comes with the request
      Req r = Req::poke(1, 10);
      r.cancelled = true;
      p.put(r.all());
      got(p, 1, "error:cancelled");
      break;
    }
    case 6: { // twice, next to another one
      p.put(Req::poke(1, 10).all()); p.put(Req::poke(2, 20).all()); pause(); p.put(header(CANCEL, 1)); p.put(header(CANCEL, 1));
      got(p, 1, "error:cancelled");
      sched::wait_quiet();
      MC_CHECK(!obj.get(20).cancelled && !p.readable(), "other-cancelled", "");
      obj.gate.open();
      got(p, 2, value(""));
      break;
    }
  }
  sched::wait_quiet();
  MC_CHECK(!p.readable() && !q.readable(), "stray-answer", "");
  MC_CHECK(vos::open_count() == before, "kept", std::to_string(vos::open_count()) + " descriptors, " + std::to_string(before) + " before");
  MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  mc::nontrivial();
}

MC_SCENARIO("scale", 0, 0) {
  // Many requests, under way or waiting their turn, of which some are cancelled: those and no others.
  // (Reading takes a worker too: one is left for it, or else those waiting may run before their cancellation is read.)
  warm(); sched::opt().timers = false; sched::NoPreempt np; sched::opt().max_steps = 4000000;
  Hall hall;
  arpc::server_object<Watcher> obj;
  bool waiting = mc::choose(2, "waiting");
  int n = 1 + (waiting ? amount(mc::tier_pick(8, 16), mc::tier_pick(257, 1025), "requests") : mc::choose(6, "requests"));
  int from = n <= 8 ? mc::choose(n, "first") : std::vector<int>{0, 1, n / 2, n - 2, n - 1}[mc::choose(5, "first")], step = 1 + mc::choose(3, "every"), gap = 1 + mc::choose(2, "numbers") * 255;
  std::vector<int> cancelled(n + 1);
  std::vector<bool> was(n + 1);
  std::mutex m;
  arpc::flag go;
  obj.on_poke = [&](int x) {
    x -= 1000;
    if (x == n) { go.wait(); return; }
    if (!waiting) { try { go.wait(); } catch (const arpc::errors::cancelled&) { std::scoped_lock l(m); cancelled[x]++; throw; } }
    std::scoped_lock l(m);
    if (arpc::context::current().is_cancelled()) cancelled[x]++;
  };
  Server server(options(waiting ? 1 : 7), &hall);
  server.register_object(kCalc, obj);
  server.start();
  Peer p = hall.enter(), q = hall.enter();
  if (waiting) { q.put(Req::poke(5, n + 1000).all()); sched::wait_quiet(); }
  for (int i = 0; i < n; i++) p.put(Req::poke(i * gap, i + 1000).all());
  if (!waiting) sched::wait_quiet();
  for (int i = from; i < n; i += step) { was[i] = true; p.put(header(CANCEL, i * gap)); }
  q.put(header(CANCEL, 0));
  sched::wait_quiet();
  go.set();
  std::set<uint32_t> seen;
  for (int i = 0; i < n; i++) {
    Packet a;
    MC_CHECK(p.get(&a) && a.type == RESP && a.id % gap == 0 && int(a.id / gap) < n && seen.insert(a.id).second, "wrong-answer", std::to_string(a.id));
    bool c = was[a.id / gap];
    std::string s = outcome(a.rest);
    MC_CHECK(s == value("") ? waiting || !c : c && s.rfind("error:cancelled", 0) == 0, "wrong-answer", s);
  }
  if (waiting) { Packet a; MC_CHECK(q.get(&a) && outcome(a.rest) == value(""), "other-cancelled", ""); }
  { std::scoped_lock l(obj.m, m);
    for (int i = 0; i < n; i++) {
      bool ran = std::count(obj.log.begin(), obj.log.end(), "poke " + std::to_string(i + 1000));
      MC_CHECK(ran || was[i], "not-called", std::to_string(i));
      MC_CHECK(!cancelled[i] || was[i], "other-cancelled", std::to_string(i));
      MC_CHECK(waiting || cancelled[i] || !was[i] || !ran, "not-cancelled", std::to_string(i) + " of " + std::to_string(n));
    } }
  mc::nontrivial();
}

MC_SCENARIO("client-scale", 0, 0) {
  // Many pending calls, of which some are given up: the server is told about those and no others, once.
  warm(); sched::opt().timers = false; sched::NoPreempt np; sched::opt().max_steps = 4000000;
  Net net;
  {
    Client client(&net);
    int n = 1 + amount(mc::tier_pick(12, 24), 257, "calls"), way = mc::choose(3, "way");
    int from = n <= 12 ? mc::choose(n, "first") : std::vector<int>{0, 1, n / 2, n - 2, n - 1}[mc::choose(5, "first")], step = 1 + mc::choose(3, "every"), late = mc::choose(2, "order");
    if ((n - from + step - 1) / step > 256) mc::prune();      // more would not be kept
    arpc::client_options o;
    o.request_timeout.reset();
    std::deque<arpc::future<int>> f;
    std::vector<uint32_t> ids;
    Peer p;
    Packet r;
    for (int i = 0; i < n; i++) {
      auto [x, id] = client.get_proxy<Calc::async>(kCalc, o).add(1, i);
      f.push_back(std::move(x)); ids.push_back(id);
      if (i == 0) p = Peer(net.accept());
      MC_CHECK(p.get(&r) && r.type == REQ && r.id == id, "no-request", "");
    }
    std::vector<int> which;
    for (int i = from; i < n; i += step) which.push_back(i);
    if (late) std::reverse(which.begin(), which.end());
    std::set<uint32_t> told;
    for (int i : which) {
      client.cancel_request(ids[i]);
      if (way == 1) { MC_CHECK(p.get(&r) && r.type == CANCEL && r.id == ids[i], "not-told", std::to_string(i)); }
      if (way == 2) client.cancel_request(ids[n - 1] + 1 + i);      // of no call: tells the server, which takes no notice, or not
      if (way == 2 && which.size() > 100) mc::prune();
    }
    if (way != 1) for (size_t k = 0; k < which.size();) { MC_CHECK(p.get(&r) && r.type == CANCEL, "not-told", std::to_string(k)); if (r.id > ids[n - 1]) continue; MC_CHECK(told.insert(r.id).second && r.id == ids[which[k]], "wrong-call", std::to_string(r.id)); k++; }
    for (int i = 0; i < n; i++) {
      std::string e = std::find(which.begin(), which.end(), i) != which.end() ? "cancelled" : "ok";
      if (e == "ok") p.put(answer(ids[i], le32(i)));
      int v = -1;
      std::string s = how([&] { v = f[i].get(); });
      MC_CHECK(s == e && (e != "ok" || v == i), "wrong-end", s);
    }
    sched::wait_quiet();
    while (p.readable()) { MC_CHECK(p.get(&r) && r.type == CANCEL && r.id > ids[n - 1], "told-twice", std::to_string(r.id)); }
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  }
  mc::nontrivial();
}
