// I03: dialing and listening return a usable connection or the right error.
#include "arpc/address_resolver.h"
#include "arpc/socket.h"
#include "ah.h"
#include <algorithm>
#include <cerrno>
#include <netinet/tcp.h>
using namespace ah;

namespace {
using vos::Resolved;
enum Peer { kNow, kSoon, kLate, kRefuses, kRefusesLate, kSilent, kPeers };   // what an address does
const char* kPeerName[] = {"now", "soon", "late", "refuses", "refuses-late", "silent"};
std::string ip(int i, int fam) { return fam == AF_INET ? "10.0.0." + std::to_string(i + 1) : "fd00::" + std::to_string(i + 1); }
std::string key(int i, int fam) { return fam == AF_INET ? ip(i, fam) + ":80" : "[" + ip(i, fam) + "]:80"; }
void set_peer(int i, int fam, int p) {
  vos::ConnectOutcome o[] = {vos::kImmediate, vos::kInProgressOk, vos::kInProgressOk, vos::kRefused, vos::kInProgressRefused, vos::kHangs};
  uint64_t delay[] = {0, 0, 4, 0, 4, 0};
  vos::set_peer(key(i, fam), o[p], delay[p]);
}
// The resolver and its thread are made outside of the exploration.
void resolver() {
  sched::opt().left_ok = true;
  sched::NoPreempt np;
  vos::set_resolution("warm:1", EAI_NONAME, {});
  how([] { arpc::address_resolver::get().resolve(arpc::endpoint().name("warm").service("1")); });
}
std::vector<Resolved> addresses(int n, std::vector<int>& fam, int mix) {
  std::vector<Resolved> r;
  for (int i = 0; i < n; i++) {
    fam.push_back(mix == 0 ? AF_INET : (i % 2) == (mix == 1) ? AF_INET : AF_INET6);
    r.push_back({fam[i], ip(i, fam[i]), 80, SOCK_STREAM, IPPROTO_TCP});
  }
  return r;
}
// One end writes, the other reads.
void usable(arpc::channel& c, int peer) {
  char b[2] = {0, 0};
  MC_CHECK(::write(*c, "p", 1) == 1, "unusable", "write");
  MC_CHECK(::read(peer, b, 1) == 1 && b[0] == 'p', "unusable", "the peer has not got what was written");
  if (::write(peer, "q", 1) != 1) mc::fail("harness", "peer");
  MC_CHECK(::read(*c, b, 1) == 1 && b[0] == 'q', "unusable", "what the peer wrote has not come");
}
}  // namespace

// Every combination of what up to three addresses do, without and with a deadline, cancelled or not.
static void dial(int max, bool faults) {
  warm();
  sched::opt().timers = false;
  resolver();
  int n = 1 + mc::choose(max, "addresses");
  std::vector<int> fam, peer;
  auto res = addresses(n, fam, faults ? 0 : mc::choose(3, "families"));
  vos::set_resolution("host:80", 0, res, 0);
  for (int i = 0; i < n; i++) { peer.push_back(mc::choose(kPeers, "peer")); set_peer(i, fam[i], peer[i]); }
  bool nb = faults ? true : mc::choose(2, "non-blocking");
  bool hangs = std::count(peer.begin(), peer.end(), int(kSilent));
  // Blocking sockets connect in the system call, which nothing of the library could end.
  if (!nb) if (!(!hangs)) return;
  int limit = hangs ? 1 + mc::choose(2, "limit") : faults ? 0 : mc::choose(3, "limit");   // none, deadline, cancelled
  if (limit == 2 && !nb) return;
  arpc::context group(arpc::context::current(), false);
  int open0 = vos::open_count();
  vos::record_calls(true);
  size_t mark = vos::calls().size();
  uint64_t start = us(), ended = 0;
  std::string r, what;
  arpc::channel c;
  const int kDeadline = 30;
  std::thread th([&] {
    arpc::context mine(group);
    if (limit == 1) mine.set_timeout(ms(kDeadline));
    if (faults) vos::cfg().fail = vos::kSocket | vos::kConnect | vos::kGetopt, vos::cfg().intr = vos::kConnect;
    r = how([&] { c = arpc::dial(arpc::endpoint().name("host").service("80"), nb); }, &what);
    vos::cfg().fail = vos::cfg().intr = 0;
    ended = us();
  });
  uint64_t cancelled_at = 0;
  if (limit == 2) {
    uint64_t at = mc::choose(4, "cancel at") * 2;     // while the first, second, ... is tried
    sched::sleep_ms(at);
    if (at == 0 && mc::choose(2, "waiting")) sched::wait_quiet();
    cancelled_at = us();
    group.cancel();
  }
  th.join();
  sched::wait_quiet();      // the resolver lets go of the request, too
  vos::record_calls(false);
  // Which attempts met a failing system call?  Attempts begin with socket().
  std::vector<bool> broken; int attempts = 0;
  std::vector<int> socks;
  for (size_t i = mark; i < vos::calls().size(); i++) {
    auto& k = vos::calls()[i];
    if (k.name == "socket") { broken.push_back(k.result < 0); attempts++; if (k.result >= 0) socks.push_back(k.result); }
    if (k.name == "connect" && k.result < 0 && (k.err == ENETUNREACH || k.err == ECONNREFUSED)) broken.back() = true;
    if (k.name == "getsockopt" && k.result < 0) broken.back() = true;
  }
  // The model.
  int winner = -1; uint64_t t = 0;
  hangs = false;
  for (int i = 0; i < n; i++) if (peer[i] == kSilent && !(i < (int)broken.size() && broken[i])) hangs = true;
  auto good = [&](int i) { return (peer[i] <= kLate) && !(i < (int)broken.size() && broken[i]); };
  uint64_t share = kDeadline * 1000 / n;
  for (int i = 0; i < n && winner < 0; i++) {
    if (good(i)) { winner = i; t += peer[i] == kLate ? 4000 : 0; break; }
    if (!(i < (int)broken.size() && broken[i])) t += peer[i] == kSilent ? share : peer[i] == kRefusesLate ? 4000 : 0;
  }
  std::string id = r;
  for (int p : peer) id += std::string(" ") + kPeerName[p];
  if (limit == 2 && r == "cancelled") {
    MC_CHECK(ended <= cancelled_at, "late", "cancelled at " + std::to_string(cancelled_at) + ", reported at " + std::to_string(ended));
    MC_CHECK(!(winner >= 0 && !hangs && start + t < cancelled_at), "wrong-end", "cancelled although connected long before: " + id);
  } else if (winner >= 0 && !(limit == 2 && hangs)) {
    MC_CHECK(r == "ok", "wrong-end", id + " " + what);
  } else if (limit == 2) {
    // Not finished when it was cancelled, so it can only report that; or it was over before.
    bool over = winner < 0 && !hangs;
    if (winner >= 0) { bool before = true; for (int i = 0; i < winner; i++) if (peer[i] == kSilent && !broken[i]) before = false; over = before; }
    MC_CHECK(over, "wrong-end", "neither connected nor cancelled: " + id);
    MC_CHECK(r == (winner >= 0 ? "ok" : "io"), "wrong-end", id);
  } else {
    MC_CHECK(r == "io" || (r == "deadline" && hangs), "wrong-end", id);
    if (peer[n - 1] != kSilent || broken.back()) MC_CHECK(r == "io", "wrong-end", id);
  }
  if (limit == 1) MC_CHECK(ended <= start + kDeadline * 1000, "late", "dialing went on after its deadline: " + id);
  if (r != "ok") {
    MC_CHECK(!c && vos::open_count() == open0, "leak", "sockets of failed attempts are open: " + id);
  } else {
    MC_CHECK(vos::open_count() == open0 + 1, "leak", "sockets of failed attempts are open: " + id);
    MC_CHECK(bool(c), "unusable", "no channel");
    arpc::address a = c.peer_addr();
    MC_CHECK(vos::addr_key(a.address_data(), a.address_size()) == key(winner, fam[winner]), "wrong-peer", vos::addr_key(a.address_data(), a.address_size()) + " instead of " + key(winner, fam[winner]));
    MC_CHECK(vos::nonblocking(*c) == int(nb), "wrong-mode", "");
    int p = vos::accepted_end(key(winner, fam[winner]));
    MC_CHECK(p >= 0, "unusable", "");
    usable(c, p);
    ::close(p);
    // Earlier attempts are over, later ones never were.
    MC_CHECK(attempts == winner + 1, "wrong-attempts", std::to_string(attempts) + " attempts: " + id);
  }
  MC_CHECK(vos::addrinfo_live() == 0, "leak", "address lists");
  mc::outcome(id + (limit == 2 ? " c" : ""));
  mc::nontrivial();
}
MC_SCENARIO("dial", 0, 1) { dial(3, false); }
MC_SCENARIO("dial-interleaved", 2, 3) { dial(1, false); }
MC_SCENARIO("dial-with-failures", 2, 3) { dial(2, true); }

MC_SCENARIO("names", 1, 2) {
  // Errors of the resolver, empty answers, and everything asked of it.
  warm();
  sched::opt().timers = false;
  resolver();
  int how_asked = mc::choose(6, "endpoint");
  int answer = mc::choose(4, "answer");          // error, nothing, one address, late
  arpc::endpoint e; std::string asked;
  e.name("host");
  bool listen = mc::choose(2, "listen");
  std::string want;
  switch (how_asked) {
    case 0: e.service("80"); want = "host:80 family 0 type 1"; break;
    case 1: e.port(80); want = "host:80 family 0 type 1"; break;
    case 2: e.port(80).ipv4(); want = "host:80 family 2 type 1"; break;
    case 3: e.port(80).ipv6(); want = "host:80 family 10 type 1"; break;
    case 4: e.port(80).ipv6().ip().datagram().stream(); want = "host:80 family 0 type 1"; break;
    case 5: e.port(80).passive().active(); want = "host:80 family 0 type 1"; break;
  }
  want = "getaddrinfo " + want + " passive " + (listen ? "1" : "0");
  int fam = how_asked == 3 ? AF_INET6 : AF_INET;
  vos::set_resolution("host:80", answer == 0 ? EAI_NONAME : 0, answer >= 2 ? std::vector<Resolved>{{fam, ip(0, fam), 80, SOCK_STREAM, 6}} : std::vector<Resolved>{}, answer == 3 ? 5 : 0);
  set_peer(0, fam, kNow);
  bool cancel = mc::choose(2, "cancel");
  vos::record_calls(true);
  arpc::context group(arpc::context::current(), false);
  int open0 = vos::open_count();
  std::string r; uint64_t ended = 0;
  {
  arpc::channel c; std::unique_ptr<arpc::listener> l;
  std::thread th([&] { arpc::context mine(group); r = how([&] { if (listen) l = std::make_unique<arpc::listener>(e); else c = arpc::dial(e); }); ended = us(); });
  if (cancel) { if (mc::choose(2, "waiting")) sched::wait_quiet(); group.cancel(); }
  th.join();
  sched::sleep_ms(10);
  if (cancel && r == "cancelled") MC_CHECK(ended == 0, "late", "");
  else if (answer == 3 && cancel) MC_CHECK(false, "wrong-end", r + " when cancelled while the name was resolved");
  else if (answer == 0) MC_CHECK(r == "io", "wrong-end", r);
  else if (answer == 1) MC_CHECK(listen || r == "error:invalid_argument", "wrong-end", r);
  else MC_CHECK(r == "ok" && (listen || c), "wrong-end", r);
  int n = 0;
  for (auto& k : vos::calls()) if (k.name.rfind("getaddrinfo host", 0) == 0) { n++; MC_CHECK(k.name == want, "wrong-question", k.name + " instead of " + want); }
  MC_CHECK(n <= 1 && (n == 1 || r == "cancelled"), "wrong-question", std::to_string(n));
  if (r != "ok" || (listen && answer == 1)) MC_CHECK(vos::open_count() == open0, "leak", "");
  }
  // A request that was given up does not get in the way of the next.
  vos::record_calls(false);
  vos::set_resolution("later:80", 0, {{AF_INET, ip(1, AF_INET), 80, SOCK_STREAM, 6}});
  set_peer(1, AF_INET, kNow);
  arpc::channel c2;
  std::string r2 = how([&] { c2 = arpc::dial(arpc::endpoint().name("later").port(80)); });
  MC_CHECK(r2 == "ok" && bool(c2), "wrong-end", "the next dial: " + r2);
  MC_CHECK(vos::addrinfo_live() == 0, "leak", "address lists");
  mc::outcome(r);
  mc::nontrivial();
}

MC_SCENARIO("connect", 1, 2) {
  // One socket: the form that waits, the one that does not, refusals and failing calls.
  warm();
  sched::opt().timers = false;
  resolver();
  int p = mc::choose(kPeers, "peer");
  if (!(p != kSilent)) return;
  set_peer(0, AF_INET, p);
  vos::set_resolution("h:80", 0, {{AF_INET, ip(0, AF_INET), 80, SOCK_STREAM, 6}});
  auto list = arpc::address_resolver::get().resolve(arpc::endpoint().name("h").service("80"));
  bool nb = mc::choose(2, "non-blocking");
  bool with_flag = nb && mc::choose(2, "next to a flag");
  arpc::channel c = arpc::socket(*list.begin());
  if (nb) c.make_non_blocking();
  arpc::flag f;
  vos::record_calls(true);
  size_t mark = vos::calls().size();
  vos::cfg().fail = vos::kConnect | vos::kGetopt; vos::cfg().intr = vos::kConnect;
  int seen_flag = 0;
  std::string r = how([&] {
    if (with_flag) {
      auto a = c.async_connect(*list.begin());
      bool done = false;
      f.set();
      for (int i = 0; i < 4 && !done; i++) {
        auto [x, y] = arpc::select(a, f.async_wait());
        if (y) { seen_flag++; f.reset(); sched::sleep_ms(5); f.set(); }
        if (x) { done = true; *x; }
      }
      MC_CHECK(done, "wrong-end", "the attempt never ended");
    } else c.connect(*list.begin());
  });
  vos::cfg() = vos::Config();
  bool broken = false;
  for (size_t i = mark; i < vos::calls().size(); i++) { auto& k = vos::calls()[i]; if (k.result < 0 && (k.name == "getsockopt" || (k.name == "connect" && k.err != EINPROGRESS && k.err != EINTR))) broken = true; }
  MC_CHECK(r == (p <= kLate && !broken ? "ok" : "io"), "wrong-end", r + " " + kPeerName[p]);
  if (r == "ok") {
    int e = vos::accepted_end(key(0, AF_INET));
    usable(c, e);
    auto other = c.peer_addr();
    MC_CHECK(vos::addr_key(other.address_data(), other.address_size()) == key(0, AF_INET), "wrong-peer", "");
  }
  mc::outcome(r);
  mc::nontrivial();
}

namespace {
int dial_raw(int i, int fam) {   // a client of the listener, as the harness' own descriptor
  vos::Resolved x{fam, fam == AF_INET ? "127.0.0.1" : "::1", 0, 0, 0};
  (void)i;
  int fd = ::socket(fam, SOCK_STREAM, 0);
  sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(80); a.sin_addr.s_addr = 0;
  sockaddr_in6 b{}; b.sin6_family = AF_INET6; b.sin6_port = htons(80);
  int r = fam == AF_INET ? ::connect(fd, (sockaddr*)&a, sizeof a) : ::connect(fd, (sockaddr*)&b, sizeof b);
  if (r) mc::fail("harness", "raw connect");
  return fd;
}
std::vector<Resolved> any(int which) {   // 0: v4, 1: v6, 2: v6 and v4, 3: v4 and v6
  Resolved a{AF_INET, "0.0.0.0", 80, SOCK_STREAM, 6}, b{AF_INET6, "::", 80, SOCK_STREAM, 6};
  return which == 0 ? std::vector<Resolved>{a} : which == 1 ? std::vector<Resolved>{b} : which == 2 ? std::vector<Resolved>{b, a} : std::vector<Resolved>{a, b};
}
}  // namespace

MC_SCENARIO("set-up", 1, 2) {
  // Making a listener: options, and each system call failing.
  warm();
  resolver();
  int which = mc::choose(4, "addresses");
  bool reuse = mc::choose(2, "reuse"), nb = mc::choose(2, "non-blocking");
  int backlog = 3 + mc::choose(2, "backlog");
  vos::set_resolution(":80", 0, any(which));
  int open0 = vos::open_count();
  vos::record_calls(true);
  size_t mark = vos::calls().size();
  vos::cfg().fail = vos::kSocket | vos::kFcntl | vos::kBind | vos::kListen | vos::kSetopt;
  std::unique_ptr<arpc::listener> l;
  {
    sched::NoPreempt np;
    std::string r = how([&] { l = std::make_unique<arpc::listener>(arpc::endpoint().port(80), reuse, nb, backlog); });
    vos::cfg() = vos::Config();
    bool broken = false;
    for (size_t i = mark; i < vos::calls().size(); i++) if (vos::calls()[i].result < 0) broken = true;
    MC_CHECK(r == (broken ? "io" : "ok"), "wrong-end", r);
    mc::outcome(r);
  }
  if (!l) { MC_CHECK(vos::open_count() == open0, "leak", "sockets of a listener that could not be made"); mc::nontrivial(); return; }
  int n = 0;
  for (int fd : vos::open_fds()) {
    if (vos::backlog(fd) <= 0) continue;
    n++;
    MC_CHECK(vos::backlog(fd) == backlog, "wrong-option", "backlog " + std::to_string(vos::backlog(fd)));
    MC_CHECK(vos::nonblocking(fd) == int(nb), "wrong-option", "blocking mode");
    MC_CHECK(vos::get_option(fd, SOL_SOCKET, SO_REUSEADDR, 0) == int(reuse), "wrong-option", "reuse_addr");
  }
  MC_CHECK(n == (which < 2 ? 1 : 2), "wrong-option", std::to_string(n) + " sockets listening");
  // It works on each address.
  for (int fam : {AF_INET, AF_INET6}) {
    if ((fam == AF_INET && which == 1) || (fam == AF_INET6 && which == 0)) continue;
    int p = dial_raw(0, fam);
    arpc::channel c = l->accept();
    usable(c, p);
    ::close(p);
  }
  l.reset();
  MC_CHECK(vos::open_count() == open0, "leak", "");
  mc::nontrivial();
}

// Clients on one or two sockets of a listener; every one is accepted once, whatever else fails.
static void accept(bool faults) {
  warm();
  sched::opt().timers = false;
  resolver();
  int which = mc::choose(4, "addresses");
  bool nb = mc::choose(2, "non-blocking");
  vos::set_resolution(":80", 0, any(which));
  std::unique_ptr<arpc::listener> l;
  { sched::NoPreempt np; l = std::make_unique<arpc::listener>(arpc::endpoint().port(80), true, nb); }
  int n = 1 + mc::choose(3, "clients");
  std::vector<int> fam, fd;
  for (int i = 0; i < n; i++) fam.push_back(which == 0 ? AF_INET : which == 1 ? AF_INET6 : mc::choose(2, "family") ? AF_INET6 : AF_INET);
  int before = mc::choose(n + 1, "already there");
  for (int i = 0; i < before; i++) fd.push_back(dial_raw(i, fam[i]));
  arpc::context group(arpc::context::current(), false);
  bool cancel = mc::choose(2, "cancel");
  std::vector<arpc::channel> got; int errors = 0; std::string end;
  std::vector<char> from;
  size_t mark = 0;
  std::thread th([&] {
    arpc::context mine(group);
    if (faults) { vos::cfg().fail = vos::kAccept; if (nb) vos::cfg().again = vos::kAccept; vos::cfg().intr = vos::kAccept; vos::record_calls(true); mark = vos::calls().size(); }
    while ((int)got.size() < n + (cancel ? 1 : 0)) {
      end = how([&] { got.push_back(l->accept()); });
      if (end == "io" || end == "again") errors++;
      else if (end != "ok") break;
    }
    vos::cfg().fail = vos::cfg().again = vos::cfg().intr = 0;
  });
  for (int i = before; i < n; i++) fd.push_back(dial_raw(i, fam[i]));
  if (cancel) { sched::wait_quiet(); sched::sleep_ms(1); group.cancel(); }
  th.join();
  vos::record_calls(false);
  int failed = 0;
  for (size_t i = mark; i < vos::calls().size(); i++) { auto& k = vos::calls()[i]; if (k.name == "accept" && k.result < 0 && k.err != EINTR && k.err != EAGAIN) failed++; }
  MC_CHECK(errors <= failed && (failed == 0 || errors > 0), "wrong-end", std::to_string(errors) + " errors for " + std::to_string(failed) + " failures");
  MC_CHECK(end == (cancel ? "cancelled" : "ok"), "wrong-end", end);
  MC_CHECK((int)got.size() == n, "lost", std::to_string(got.size()) + " of " + std::to_string(n) + " accepted");
  // Each client has one of them, and that is usable.
  std::vector<bool> seen(n);
  for (auto& c : got) {
    MC_CHECK(bool(c) && vos::nonblocking(*c) == int(nb), "wrong-mode", "");
    auto a = c.peer_addr();
    for (int i = 0; i < n; i++) {
      sockaddr_storage s{}; socklen_t z = sizeof s;
      if (getsockname(fd[i], (sockaddr*)&s, &z)) mc::fail("harness", "getsockname");
      if (vos::addr_key((sockaddr*)&s, z) != vos::addr_key(a.address_data(), a.address_size())) continue;
      MC_CHECK(!seen[i], "twice", "");
      seen[i] = true;
      usable(c, fd[i]);
    }
  }
  for (int i = 0; i < n; i++) MC_CHECK(seen[i], "lost", "client " + std::to_string(i));
  mc::nontrivial();
}
MC_SCENARIO("accept", 1, 2) { accept(false); }
MC_SCENARIO("accept-with-failures", 2, 3) { accept(true); }

MC_SCENARIO("addresses", 1, 2) {
  // Sockets by themselves: who the peer is, by every form of accepting.
  warm();
  sched::opt().timers = false;
  resolver();
  int fam = mc::choose(2, "family") ? AF_INET6 : AF_INET;
  vos::set_resolution(":80", 0, any(fam == AF_INET6));
  auto list = arpc::address_resolver::get().resolve(arpc::endpoint().port(80).passive());
  arpc::channel l = arpc::socket(*list.begin());
  bool nb = mc::choose(2, "non-blocking");
  if (nb) l.make_non_blocking();
  l.reuse_addr().bind(*list.begin()).listen();
  auto own = l.own_addr();
  MC_CHECK(vos::addr_key(own.address_data(), own.address_size()) == vos::addr_key(list.begin()->address_data(), list.begin()->address_size()), "wrong-address", "own");
  MC_CHECK(own.family() == fam && own.socket_type() == SOCK_STREAM, "wrong-address", "own kind");
  int form = mc::choose(6, "form");
  if (!(nb || form == 0 || form == 3 || form == 1 || form == 4)) return;
  arpc::address from;
  arpc::channel c; int fd = -1;
  std::string r;
  if (form == 2 || form == 5) {
    r = how([&] { c = form == 2 ? l.maybe_accept() : l.maybe_accept(from); });
    MC_CHECK(r == "again", "wrong-end", r + " with nobody there");
  }
  std::thread th([&] { fd = dial_raw(0, fam); });
  if (form == 2 || form == 5) th.join();
  vos::cfg().intr = vos::kAccept;
  r = how([&] {
    switch (form) {
      case 0: c = l.accept(); break;
      case 1: { auto [x] = arpc::select(l.async_accept()); c = std::move(*x); break; }
      case 2: c = l.maybe_accept(); break;
      case 3: c = l.accept(from); break;
      case 4: { auto [x] = arpc::select(l.async_accept(from)); c = std::move(*x); break; }
      case 5: c = l.maybe_accept(from); break;
    }
  });
  vos::cfg().intr = 0;
  if (th.joinable()) th.join();
  MC_CHECK(r == "ok" && c, "wrong-end", r);
  sockaddr_storage s{}; socklen_t z = sizeof s;
  if (getsockname(fd, (sockaddr*)&s, &z)) mc::fail("harness", "getsockname");
  auto who = c.peer_addr();
  MC_CHECK(vos::addr_key((sockaddr*)&s, z) == vos::addr_key(who.address_data(), who.address_size()), "wrong-peer", "");
  if (form >= 3) {
    MC_CHECK(from.address_size() == z && vos::addr_key((sockaddr*)&s, z) == vos::addr_key(from.address_data(), from.address_size()), "wrong-peer", "as accepted");
  }
  usable(c, fd);
  // Failing calls show.
  vos::cfg().fail = vos::kNames | vos::kGetopt;
  vos::record_calls(true);
  size_t mark = vos::calls().size();
  r = how([&] { c.own_addr(); c.peer_addr(); });
  bool broken = false;
  for (size_t i = mark; i < vos::calls().size(); i++) if (vos::calls()[i].result < 0) broken = true;
  MC_CHECK(r == (broken ? "io" : "ok"), "wrong-end", r);
  mc::nontrivial();
}

MC_SCENARIO("two-dialers", 1, 2) {
  // Two threads that dial at once get each their own; one listener takes both.
  warm();
  sched::opt().timers = false;
  resolver();
  int kind = mc::choose(3, "second");       // another host, no such host, the same host
  vos::set_resolution("a:80", 0, {{AF_INET, ip(0, AF_INET), 80, SOCK_STREAM, 6}});
  if (kind == 0) vos::set_resolution("b:80", 0, {{AF_INET6, ip(1, AF_INET6), 80, SOCK_STREAM, 6}});
  if (kind == 1) vos::set_resolution("b:80", EAI_NONAME, {});
  int p = mc::choose(2, "peer") ? kNow : kSoon;
  set_peer(0, AF_INET, p); set_peer(1, AF_INET6, p);
  std::string r[2]; arpc::channel c[2];
  std::thread th[2];
  for (int i = 0; i < 2; i++) th[i] = std::thread([&, i] { r[i] = how([&] { c[i] = arpc::dial(arpc::endpoint().name(i && kind != 2 ? "b" : "a").service("80")); }); });
  for (auto& t : th) t.join();
  MC_CHECK(r[0] == "ok" && r[1] == (kind == 1 ? "io" : "ok"), "wrong-end", r[0] + " " + r[1]);
  std::string want[2] = {key(0, AF_INET), kind == 0 ? key(1, AF_INET6) : key(0, AF_INET)};
  for (int i = 0; i < 2; i++) if (r[i] == "ok") {
    auto a = c[i].peer_addr();
    MC_CHECK(vos::addr_key(a.address_data(), a.address_size()) == want[i], "wrong-peer", std::to_string(i));
  }
  MC_CHECK(vos::addrinfo_live() == 0, "leak", "");
  mc::nontrivial();
}
MC_SCENARIO("end-to-end", 1, 2) {
  // The library at both ends.
  warm();
  sched::opt().timers = false;
  resolver();
  int n = 1 + mc::choose(2, "clients");
  vos::set_resolution(":80", 0, any(3));
  vos::set_resolution("self:80", 0, {{AF_INET6, "::", 80, SOCK_STREAM, 6}, {AF_INET, "0.0.0.0", 80, SOCK_STREAM, 6}});
  std::unique_ptr<arpc::listener> l;
  { sched::NoPreempt np; l = std::make_unique<arpc::listener>(arpc::endpoint().port(80)); }
  std::vector<arpc::channel> got;
  std::string r[2]; arpc::channel c[2];
  std::vector<std::thread> th;
  for (int i = 0; i < n; i++) th.emplace_back([&, i] { r[i] = how([&] { c[i] = arpc::dial(arpc::endpoint().name("self").port(80)); }); });
  for (int i = 0; i < n; i++) got.push_back(l->accept());
  for (auto& t : th) t.join();
  for (int i = 0; i < n; i++) {
    MC_CHECK(r[i] == "ok" && c[i], "wrong-end", r[i]);
    std::string s(1, char('a' + i));
    MC_CHECK(c[i].write(s.data(), 1) == 1, "unusable", "");
  }
  std::string all;
  for (auto& g : got) { char b[4]; MC_CHECK(g.read(b, 4) == 1, "unusable", ""); all += b[0]; }
  std::sort(all.begin(), all.end());
  MC_CHECK(all == std::string("ab").substr(0, n), "twice", all);
  mc::nontrivial();
}
