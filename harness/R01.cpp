// R01: each remote call gets exactly its own outcome.
#include "rpc.h"
#include "R01_wide.h"
#include "arpc/address_resolver.h"
#include "arpc/connection.h"
using namespace rpc;

// Every kind of method: arguments and results of many types, overloads, inheritance.
ARPC_INTERFACE(Root, (), (((std::string), who, ()), ((int), twice, (((int), x)))));
ARPC_INTERFACE(Left, (), (((int), left, (((int), x))), ((std::string), same, (((int), x)))));
ARPC_INTERFACE(Right, (), (((int), right, (((int), x))), ((std::string), same, (((const std::string&), x)))));
ARPC_INTERFACE(Both, ((Root), (Left), (Right)),
               (((void), nothing, ()), ((std::vector<std::string>), split, (((std::string), s), ((char), at))),
                ((std::unique_ptr<int>), owned, (((std::unique_ptr<int>), p), ((bool), keep))), ((std::optional<double>), maybe, (((std::optional<double>), d))),
                ((std::pair<int64_t, bool>), pair, (((uint8_t), a), ((int64_t), b), ((bool), c))), ((std::map<std::string, std::vector<int>>), maps, (((const std::map<std::string, std::vector<int>>&), m)))));
ARPC_INTERFACE(Odd, (), (((int), fail, (((int), how_)))));

namespace {
struct BothImpl : Both {
  std::mutex m; std::map<std::string, int> calls;
  int base = 0;
  void note(const char* n) { std::scoped_lock l(m); calls[n]++; }
  std::string who() override { note("who"); return "both" + std::to_string(base); }
  int twice(int x) override { note("twice"); return 2 * x; }
  int left(int x) override { note("left"); return x - 1; }
  int right(int x) override { note("right"); return x + 1; }
  std::string same(int x) override { note("same int"); return "int " + std::to_string(x); }
  std::string same(const std::string& x) override { note("same string"); return "string " + x; }
  void nothing() override { note("nothing"); }
  std::vector<std::string> split(std::string s, char at) override {
    note("split");
    std::vector<std::string> r(1);
    for (char c : s) if (c == at) r.emplace_back(); else r.back() += c;
    return r;
  }
  std::unique_ptr<int> owned(std::unique_ptr<int> p, bool keep) override { note("owned"); if (!keep) p.reset(); else if (p) ++*p; return p; }
  std::optional<double> maybe(std::optional<double> d) override { note("maybe"); if (d) *d /= 2; return d; }
  std::pair<int64_t, bool> pair(uint8_t a, int64_t b, bool c) override { note("pair"); return {a + b, !c}; }
  std::map<std::string, std::vector<int>> maps(const std::map<std::string, std::vector<int>>& x) override { note("maps"); auto r = x; for (auto& e : r) e.second.push_back(int(e.second.size())); return r; }
};
// Throws everything.
struct OddImpl : Odd {
  int fail(int k) override {
    switch (k) {
      case 0: throw arpc::errors::not_found("not here");
      case 1: throw arpc::errors::cancelled("not now");
      case 2: throw arpc::errors::deadline_exceeded("too late");
      case 3: throw arpc::errors::io_error("");
      case 4: throw arpc::errors::eof("over");
      case 5: throw arpc::errors::data_mismatch(std::string("a\0b", 3));
      case 6: throw arpc::errors::try_again("again");
      case 7: throw arpc::errors::invalid_state(std::string(300, 'y'));
      case 8: throw std::runtime_error("standard");
      case 9: throw std::logic_error("logical");
      case 10: throw 7;
      case 11: throw std::bad_alloc();
      default: return k;
    }
  }
};
const char* const kHows[] = {"error:not_found", "cancelled", "deadline", "io", "eof", "error:data_mismatch", "again", "error:invalid_state"};
const std::string kWhats[] = {"not here", "not now", "too late", "", "over", "a", "again", std::string(300, 'y'), "standard", "logical"};
arpc::server_options options(int workers, int queue = -1) {
  arpc::server_options o;
  o.num_worker_threads = workers;
  o.queue_size = queue;
  return o;
}
void count(int base) {
  sched::wait_quiet();
  MC_CHECK(vos::open_count() == base, "leak", std::to_string(vos::open_count()) + " descriptors, " + std::to_string(base) + " before");
  mc::nontrivial();
}
const std::string kCalc = "calc";
const std::pair<int, bool> kPair(7, true);

// One call of the i-th kind, through whatever kind of proxy; what came of it.
const int kMany = 12;
template <typename P>
void call_one(P& p, int k, int round) {
  auto check = [&](bool ok, const char* n) { MC_CHECK(ok, "wrong-result", n); };
  switch (k) {
    case 0: check(p.who() == "both0", "who"); break;
    case 1: for (int x : {0, -1, 1 << 30, 7 + round}) check(p.twice(x) == int(2u * unsigned(x)), "twice"); break;
    case 2: check(p.left(round) == round - 1, "left"); break;
    case 3: check(p.right(round) == round + 1, "right"); break;
    case 4: check(static_cast<Left&>(p).same(-5) == "int -5", "same int"); break;
    case 5: check(static_cast<Right&>(p).same("x") == "string x", "same string"); break;
    case 6: p.nothing(); break;
    case 7:
      check(p.split("a,b,,", ',') == std::vector<std::string>({"a", "b", "", ""}), "split");
      check(p.split(std::string(200, 'z'), ',') == std::vector<std::string>(1, std::string(200, 'z')), "split long");
      check(p.split("", ',') == std::vector<std::string>(1), "split empty");
      break;
    case 8: {
      auto r = p.owned(std::make_unique<int>(4), true);
      check(r && *r == 5, "owned");
      check(!p.owned(std::make_unique<int>(4), false) && !p.owned(nullptr, true), "owned null");
      break;
    }
    case 9: check(p.maybe(3.0) == std::optional<double>(1.5) && !p.maybe(std::nullopt), "maybe"); break;
    case 10: check(p.pair(255, -1, true) == std::pair<int64_t, bool>(254, false) && p.pair(0, INT64_MIN, false) == std::pair<int64_t, bool>(INT64_MIN, true), "pair"); break;
    case 11: {
      std::map<std::string, std::vector<int>> m{{"", {}}, {"a", {1, 2}}}, w{{"", {0}}, {"a", {1, 2, 2}}};
      check(p.maps(m) == w && p.maps({}).empty(), "maps");
      break;
    }
  }
}
}  // namespace

MC_SCENARIO("answers", 1, 2) {
  // Three calls whose answers come in any order, in one go or in pieces, values and errors.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Net net;
  int base = vos::open_count();
  {
    Client client(&net);
    auto proxy = client.get_proxy<Calc::async>(kCalc);
    auto f = proxy.add(1, 2);
    auto g = proxy.echo("hi");
    auto h = proxy.poke(5);
    Peer p(net.accept());
    Packet r[3];
    for (auto& x : r) MC_CHECK(p.get(&x) && x.type == REQ, "no-request", "");
    MC_CHECK(r[0].id != r[1].id && r[1].id != r[2].id && r[0].id != r[2].id, "same-id", "");
    MC_CHECK(r[0].id == f.second && r[1].id == g.second && r[2].id == h.second, "wrong-id", "");
    MC_CHECK(r[0].object == str("calc") && r[1].object == str("calc") && r[2].object == str("calc"), "wrong-request", "");
    MC_CHECK(r[0].method == "add" && r[0].hash == hash_of<&Calc::add>() && r[0].args == le32(1) + le32(2), "wrong-request", "add");
    MC_CHECK(r[1].method == "echo" && r[1].hash == hash_of<&Calc::echo>() && r[1].args == str("hi"), "wrong-request", "echo");
    MC_CHECK(r[2].method == "poke" && r[2].hash == hash_of<&Calc::poke>() && r[2].args == le32(5), "wrong-request", "poke");
    int perm = mc::choose(6, "order");
    static const int kPerm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    int errors = mc::choose(mc::thorough() ? 8 : 4, "errors"), pieces = mc::choose(3, "pieces");
    std::string all;
    for (int i : kPerm[perm]) {
      std::string a = (errors >> i & 1) ? answer_error(r[i].id, "not_found", "e" + std::to_string(i)) : answer(r[i].id, i == 0 ? le32(3) : i == 1 ? str("ho") : "");
      if (pieces == 1) p.put(a); else all += frame(a);
    }
    if (pieces == 0) p.raw(all);
    if (pieces == 2) { size_t cut = all.size() / 2; p.raw(all.substr(0, cut)); p.raw(all.substr(cut)); }
    int v = 0; std::string s;
    auto judge = [&](int i, const std::string& e, const std::string& what, bool value) {
      if (errors >> i & 1) MC_CHECK(e == "error:not_found" && what == "e" + std::to_string(i), "wrong-outcome", e + " " + what);
      else MC_CHECK(e == "ok" && value, "wrong-outcome", e + " " + what);
    };
    std::string what, e;
    e = how([&] { h.first.get(); }, &what); judge(2, e, what, true);
    what.clear(); e = how([&] { s = g.first.get(); }, &what); judge(1, e, what, s == "ho");
    what.clear(); e = how([&] { v = f.first.get(); }, &what); judge(0, e, what, v == 3);
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  }
  while (net.waiting()) Peer(net.accept());
  count(base);
}

MC_SCENARIO("kinds", 0, 0) {
  // All kinds of methods, one after the other, in two byte orders, synchronously or not.
  warm();
  sched::opt().timers = false;
  sched::NoPreempt np;
  Hall hall;
  int base = vos::open_count();
  int k = mc::choose(kMany, "method"), then = mc::choose(kMany, "then"), way = mc::choose(4, "way");
  {
    arpc::server_object<BothImpl> obj;
    arpc::server<arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder, arpc::protected_stream_packet_protocol<>, arpc::big_endian_binary_encoder, Door> big(options(1), &hall);
    Server little(options(1), &hall);
    auto serve = [&](auto& server, auto& client) {
      // Names of objects are any values.
      if (way == 3) server.register_object(kPair, obj); else server.register_object("both", obj);
      server.start();
      std::string e, what;
      if (way == 3) {
        auto p = client.template get_proxy<Both>(kPair);
        e = how([&] { call_one(p, k, 1); call_one(p, then, 2); }, &what);
      } else {
        auto p = client.template get_proxy<Both>("both");
        e = how([&] { call_one(p, k, 1); call_one(p, then, 2); }, &what);
      }
      MC_CHECK(e == "ok", "wrong-outcome", e + " " + what);
      if (way == 2) {
        // The same methods, not waiting for them.
        auto p = client.template get_proxy<Both::async>("both");
        auto a = p.who(); auto b = p.left(1); auto c = static_cast<Right::async&>(p).same("q"); auto d = p.owned(std::make_unique<int>(1), true); auto n = p.nothing();
        n.first.get();
        MC_CHECK(*d.first.get() == 2 && c.first.get() == "string q" && b.first.get() == 0 && a.first.get() == "both0", "wrong-result", "async");
        // Where only a part of the interface is asked for.
        auto l = client.template get_proxy<Left>("both");
        auto r = client.template get_proxy<Right>("both");
        auto o = client.template get_proxy<Root>("both");
        MC_CHECK(l.same(1) == "int 1" && r.same("1") == "string 1" && o.who() == "both0" && o.twice(4) == 8, "wrong-result", "part");
      }
    };
    if (way == 1) {
      arpc::client_connection<Wire, arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder, arpc::protected_stream_packet_protocol<>> client(&hall);
      serve(big, client);
    } else {
      WiredClient client(&hall);
      serve(little, client);
    }
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  }
  count(base);
}

MC_SCENARIO("wide", 0, 0) {
  // Every method of a large interface and every number of arguments.
  warm();
  sched::opt().timers = false;
  sched::NoPreempt np;
  Hall hall;
  int base = vos::open_count();
  int k = mc::choose(kWide, "method"), then = mc::choose(kWide, "then");
  {
    arpc::server_object<WideImpl> obj;
    Server server(options(1), &hall);
    server.register_object("wide", obj);
    server.start();
    WiredClient client(&hall);
    auto p = client.get_proxy<Wide>("wide");
    std::string what;
    std::string e = how([&] { call_wide(p, k, 0); call_wide(p, then, 1); }, &what);
    MC_CHECK(e == "ok", "wrong-outcome", e + " " + what);
  }
  count(base);
}

MC_SCENARIO("errors", 0, 0) {
  // Whatever a method throws ends its call, with its message, and of its class if the library knows it.
  warm();
  sched::opt().timers = false;
  sched::NoPreempt np;
  Hall hall;
  int base = vos::open_count();
  int k = mc::choose(13, "error"), async = mc::choose(2, "async");
  {
    arpc::server_object<OddImpl> obj;
    Server server(options(1), &hall);
    server.register_object(std::string("odd"), obj);
    server.start();
    WiredClient client(&hall);
    auto p = client.get_proxy<Odd>(std::string("odd"));
    auto q = client.get_proxy<Odd::async>(std::string("odd"));
    for (int round = 0; round < 2; round++) {
      int v = 0; std::string what;
      std::string e = how([&] { v = async ? q.fail(k).first.get() : p.fail(k); }, &what);
      if (k < 8) MC_CHECK(e == kHows[k], "wrong-class", e + " instead of " + kHows[k]);
      if (k < 10) MC_CHECK(what == kWhats[k], "wrong-message", what);
      MC_CHECK(k == 12 ? e == "ok" && v == 12 : e != "ok", "wrong-outcome", e);
      MC_CHECK(p.fail(50) == 50, "later-call-fails", "");
    }
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  }
  count(base);
}

namespace {
// Calls by several threads, each of which knows what it has to get.
struct Callers {
  arpc::context group{arpc::context::current(), false};
  std::vector<std::string> want;      // of the log
  std::deque<std::thread> t;
  template <typename P>
  void start(P& proxy, int who, int kind, int times) {
    for (int j = 0; j < times; j++) {
      int n = 10 * who + j;
      switch ((kind + j) % 4) {
        case 0: want.push_back("add " + std::to_string(n) + " 1"); break;
        case 1: want.push_back("echo s" + std::to_string(n)); break;
        case 2: want.push_back("poke " + std::to_string(n)); break;
        case 3: want.push_back("poke " + std::to_string(-1 - n)); break;
      }
    }
    t.emplace_back([this, &proxy, who, kind, times] {
      arpc::context mine(group);
      for (int j = 0; j < times; j++) {
        int n = 10 * who + j, v = 0; std::string s, what;
        std::string e = how([&] {
          switch ((kind + j) % 4) {
            case 0: v = proxy.add(n, 1); break;
            case 1: s = proxy.echo("s" + std::to_string(n)); break;
            case 2: proxy.poke(n); break;
            case 3: proxy.poke(-1 - n); break;
          }
        }, &what);
        switch ((kind + j) % 4) {
          case 0: MC_CHECK(e == "ok" && v == n + 1, "wrong-outcome", e + " " + what + " " + std::to_string(v)); break;
          case 1: MC_CHECK(e == "ok" && s == "s" + std::to_string(n), "wrong-outcome", e + " " + what + " " + s); break;
          case 2: MC_CHECK(e == "ok", "wrong-outcome", e + " " + what); break;
          case 3: MC_CHECK(e == "error:out_of_range" && what == "negative", "wrong-outcome", e + " " + what); break;
        }
      }
    });
  }
  void join() { for (auto& x : t) x.join(); t.clear(); }
  void judge(CalcImpl& obj) {
    std::scoped_lock l(obj.m);
    auto got = obj.log, w = want;
    std::sort(got.begin(), got.end()); std::sort(w.begin(), w.end());
    MC_CHECK(got == w, "wrong-calls", std::to_string(got.size()) + " executed instead of " + std::to_string(w.size()));
  }
};
}  // namespace

MC_SCENARIO("concurrent", 1, 2) {
  // Two or three threads call over one connection, which is made by whoever comes first.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<CalcImpl> obj;
    int threads = 2 + mc::choose(2, "threads"), first = mc::choose(4, "first"), second = mc::choose(mc::thorough() ? 4 : 2, "second"), workers = mc::thorough() ? 1 + mc::choose(2, "workers") : 3 - threads + 1;
    int times = threads == 2 ? 2 : 1;
    Server server(options(workers), &hall);
    server.register_object(kCalc, obj);
    server.start();
    WiredClient client(&hall);
    auto proxy = client.get_proxy<Calc>(kCalc);
    Callers c;
    for (int i = 0; i < threads; i++) c.start(proxy, i, i == 0 ? first : second, times);
    c.join();
    c.judge(obj);
    MC_CHECK(hall.given == 1 && hall.returned == 0, "reconnects", std::to_string(hall.given));
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  }
  count(base);
}

MC_SCENARIO("two-clients", 1, 2) {
  // Two clients use the same numbers for their calls of the same object, or of two objects.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<CalcImpl> obj, other;
    int kind = mc::choose(4, "kind"), two = mc::choose(2, "objects");
    Server server(options(2), &hall);
    server.register_object(kCalc, obj);
    server.register_object(std::string("other"), other);
    server.start();
    WiredClient a(&hall), b(&hall);
    auto pa = a.get_proxy<Calc>(kCalc);
    auto pb = b.get_proxy<Calc>(two ? std::string("other") : kCalc);
    Callers c, d;
    c.start(pa, 0, kind, 2);
    (two ? d : c).start(pb, 1, 0, 2);
    c.join(); d.join();
    c.judge(obj); d.judge(other);
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  }
  count(base);
}

MC_SCENARIO("nested", 1, 2) {
  // Methods that themselves call: the server itself, over a client of its own.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<CalcImpl> obj;
    int depth = 1 + mc::choose(2, "depth");
    WiredClient inner(&hall);
    auto again = inner.get_proxy<Calc>(kCalc);
    obj.on_poke = [&](int x) { if (x > 0) again.poke(x - 1); else throw arpc::errors::out_of_range("bottom"); };
    Server server(options(3), &hall);
    server.register_object(kCalc, obj);
    server.start();
    WiredClient client(&hall);
    auto proxy = client.get_proxy<Calc>(kCalc);
    std::string what, e = how([&] { proxy.poke(depth); }, &what);
    MC_CHECK(e == "error:out_of_range" && what == "bottom", "wrong-outcome", e + " " + what);
    std::scoped_lock l(obj.m);
    MC_CHECK(int(obj.log.size()) == depth + 1, "wrong-calls", std::to_string(obj.log.size()));
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  }
  count(base);
}

MC_SCENARIO("broken", 1, 1) {
  // Links that fail anywhere, at either end: a call is executed once, or at most once if it fails.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<CalcImpl> obj;
    Server server(options(1), &hall);
    server.register_object(kCalc, obj);
    server.start();
    WiredClient client(&hall);
    auto proxy = client.get_proxy<Calc>(kCalc);
    int threads = 1 + mc::choose(2, "threads");
    vos::cfg().library_sockets_only = true;
    vos::cfg().fail = vos::kRead | vos::kWrite;
    vos::cfg().shorten = vos::kRead | vos::kWrite;
    vos::cfg().again = vos::kRead | vos::kWrite;
    vos::cfg().intr = vos::kRead | vos::kWrite;
    arpc::context group(arpc::context::current(), false);
    std::vector<std::string> ends(threads);
    std::vector<std::thread> t;
    for (int i = 0; i < threads; i++)
      t.emplace_back([&, i] {
        arpc::context mine(group);
        int v = 0;
        ends[i] = how([&] { v = proxy.add(i, 1); });
        MC_CHECK(ends[i] != "ok" || v == i + 1, "wrong-outcome", std::to_string(v));
        MC_CHECK(ends[i] != "cancelled" && ends[i] != "deadline", "wrong-outcome", ends[i]);
      });
    for (auto& x : t) x.join();
    vos::cfg().fail = vos::cfg().shorten = vos::cfg().again = vos::cfg().intr = 0;
    sched::wait_quiet();
    bool any = false;
    {
      std::scoped_lock l(obj.m);
      for (int i = 0; i < threads; i++) {
        int n = std::count(obj.log.begin(), obj.log.end(), "add " + std::to_string(i) + " 1");
        MC_CHECK(n <= 1, "wrong-calls", "executed " + std::to_string(n) + " times");
        MC_CHECK(n == 1 || ends[i] != "ok", "wrong-calls", "never executed");
        any = any || ends[i] != "ok";
      }
    }
    (void)any;
    int v = 0;
    std::string e = how([&] { v = proxy.add(70, 7); });
    MC_CHECK(e == "ok" && v == 77, "later-call-fails", e);
    MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  }
  count(base);
}

MC_SCENARIO("sockets", 1, 2) {
  // As in the documentation: over TCP, with all defaults but the number of threads.
  warm();
  sched::opt().free_switch = false;
  sched::opt().timers = false;
  sched::opt().left_ok = true;
  vos::set_resolution(":80", 0, {{AF_INET, "0.0.0.0", 80, SOCK_STREAM, 6}});
  vos::set_resolution("here:80", 0, {{AF_INET, "127.0.0.1", 80, SOCK_STREAM, 6}});
  {
    sched::NoPreempt np;
    how([] { arpc::address_resolver::get().resolve(arpc::endpoint().port(80)); });
  }
  int base = vos::open_count();
  {
    arpc::server_object<CalcImpl> obj;
    arpc::server server(options(1), arpc::endpoint().port(80));
    server.register_object("calc", obj);
    server.start();
    // Wait until it listens.
    sched::wait_quiet();
    arpc::client_connection client(arpc::endpoint().name("here").port(80));
    auto proxy = client.get_proxy<Calc>("calc");
    int way = mc::choose(3, "way");
    Callers c;
    c.start(proxy, 0, 0, 1);
    if (way == 1) c.start(proxy, 1, 3, 1);
    c.join();
    c.judge(obj);
    if (way == 2) {
      // The server restarts.
      server.stop();
      server.start();
      sched::wait_quiet();
      int v = 0;
      std::string e = how([&] { v = proxy.add(1, 1); });
      if (e != "ok") { sched::wait_quiet(); e = how([&] { v = proxy.add(1, 1); }); }
      MC_CHECK(e == "ok" && v == 2, "later-call-fails", e);
    }
  }
  count(base);
}

MC_SCENARIO("scale-calls", 0, 0) {
  // Many calls: one after the other, or all under way at once and answered in several orders.
  warm(); sched::opt().timers = false; sched::NoPreempt np; sched::opt().max_steps = 4000000;
  Hall hall; Net net;
  int base = vos::open_count();
  int way = mc::choose(6, "way"), n = 1 + amount(mc::tier_pick(12, 24), mc::tier_pick(way < 2 ? 1025 : 257, 1025), "calls");
  if (way < 2) {
    arpc::server_object<CalcImpl> obj;
    Server server(options(2), &hall);
    server.register_object(kCalc, obj);
    server.start();
    WiredClient client(&hall);
    auto proxy = client.get_proxy<Calc>(kCalc);
    auto later = client.get_proxy<Calc::async>(kCalc);
    using F = decltype(later.add(0, 0));
    std::vector<F> f;
    for (int i = 0; i < n; i++) { if (way == 0) MC_CHECK(proxy.add(i, 5) == i + 5, "wrong-result", std::to_string(i)); else f.push_back(later.add(i, 5)); }
    for (int i = 0; i < int(f.size()); i++) MC_CHECK(f[i].first.get() == i + 5, "wrong-result", std::to_string(i));
    std::scoped_lock l(obj.m);
    MC_CHECK(int(obj.log.size()) == n && hall.given == 1, "wrong-calls", std::to_string(obj.log.size()));
  } else {
    Client client(&net);
    auto later = client.get_proxy<Calc::async>(kCalc);
    std::vector<decltype(later.add(0, 0))> f;
    for (int i = 0; i < n; i++) f.push_back(later.add(i, 5));
    Peer p(net.accept());
    std::vector<Packet> r(n);
    std::set<uint32_t> ids;
    for (int i = 0; i < n; i++) MC_CHECK(p.get(&r[i]) && r[i].type == REQ && arg(r[i].args, 0) == i && ids.insert(r[i].id).second, "wrong-request", std::to_string(i));
    for (int i = 0; i < n; i++) {
      int k = way == 2 ? i : way == 3 ? n - 1 - i : way == 4 ? (i * 2 < n ? i * 2 : (i - (n + 1) / 2) * 2 + 1) : i ^ (i < (n & ~1) ? 1 : 0);
      p.put(k % 5 == 3 ? answer_error(r[k].id, "not_found", std::to_string(k)) : answer(r[k].id, le32(k * 3)));
    }
    for (int i = 0; i < n; i++) {
      std::string what; int v = 0;
      std::string e = how([&] { v = f[i].first.get(); }, &what);
      if (i % 5 == 3) MC_CHECK(e == "error:not_found" && what == std::to_string(i), "wrong-outcome", e + " " + what);
      else MC_CHECK(e == "ok" && v == i * 3, "wrong-outcome", e + " " + std::to_string(v));
    }
  }
  MC_CHECK(us() < 1000, "not-promptly", std::to_string(us()));
  { sched::Ignore ig; }
  count(base);
}
MC_SCENARIO("scale-sizes", 0, 0) {
  // Arguments and results of every size.
  warm(); sched::opt().timers = false; sched::NoPreempt np; sched::opt().max_steps = 4000000;
  Hall hall;
  int base = vos::open_count();
  {
    arpc::server_object<CalcImpl> obj;
    int n = amount(mc::tier_pick(300, 1000), mc::tier_pick(1 << 17, 1 << 20) + 1, "size"), twice = mc::choose(2, "twice"), late = mc::choose(2, "at once");
    Server server(options(1), &hall);
    server.register_object(kCalc, obj);
    server.start();
    WiredClient client(&hall);
    auto proxy = client.get_proxy<Calc>(kCalc);
    auto later = client.get_proxy<Calc::async>(kCalc);
    std::string s(n, 'q');
    for (int i = 0; i < n; i++) s[i] = char(i * 7 + i / 251);
    std::string got;
    for (int i = 0; i <= twice; i++) {
      if (late) { auto f = later.echo(s); auto g = later.add(1, 2); MC_CHECK(g.first.get() == 3, "wrong-result", "add"); got = f.first.get(); }
      else got = proxy.echo(s);
      MC_CHECK(got == s, "wrong-result", std::to_string(n));
    }
    MC_CHECK(proxy.add(1, 2) == 3, "wrong-result", "add");
    MC_CHECK(hall.given == 1, "reconnects", "");
  }
  count(base);
}
