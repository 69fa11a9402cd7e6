// I01: every descriptor is closed exactly once.
#include "arpc/address_resolver.h"
#include "arpc/connection.h"
#include "arpc/executor.h"
#include "arpc/file.h"
#include "arpc/future.h"
#include "arpc/mutex.h"
#include "arpc/pipe.h"
#include "arpc/queue.h"
#include "arpc/socket.h"
#include "ah.h"
#include <fcntl.h>
#include <set>
using namespace ah;

MC_SCENARIO("ownership", 0, 0) {
  // Every short history of constructing, moving, assigning, swapping, releasing, closing and duplicating.
  warm();
  sched::NoPreempt np;
  const int kN = 2;
  int raw[2]; if (::pipe(raw)) mc::fail("harness", "pipe");
  if (mc::choose(2, "descriptor 0")) vos::next_descriptor(0);
  int fds0 = vos::open_count();
  uint64_t opens0 = vos::opens(), closes0 = vos::closes();
  // What each channel should own; -1: nothing, -2: there is no such channel.
  int own[kN];
  std::set<int> loose;    // owned by the harness
  std::unique_ptr<arpc::channel> c[kN];
  for (int i = 0; i < kN; i++) own[i] = -2;
  auto fresh = [&] { int f = ::dup(raw[0]); return f; };
  int depth = mc::tier_pick(5, 6);
  for (int s = 0; s < depth; s++) {
    int op = mc::choose(15, "op"), a = mc::choose(kN, "which"), b = 1 - a;
    bool ha = own[a] != -2, hb = own[b] != -2;
    auto need = [&](bool x) { if (!x) mc::prune(); };
    switch (op) {
      case 0: need(!ha); c[a] = std::make_unique<arpc::channel>(); own[a] = -1; break;
      case 1: need(!ha); own[a] = fresh(); c[a] = std::make_unique<arpc::channel>(own[a]); break;
      case 2: need(!ha && hb); c[a] = std::make_unique<arpc::channel>(std::move(*c[b])); own[a] = own[b]; own[b] = -1; break;
      case 3: need(ha && hb); *c[a] = std::move(*c[b]); own[a] = own[b]; own[b] = -1; break;
      case 4: need(ha); { arpc::channel& x = *c[a]; *c[a] = std::move(x); break; }
      case 5: need(ha && hb); c[a]->swap(*c[b]); std::swap(own[a], own[b]); break;
      case 6: need(ha); c[a]->swap(*c[a]); break;
      case 7: need(ha); { int f = c[a]->release(); MC_CHECK(f == own[a], "wrong-descriptor", "release"); if (f >= 0) loose.insert(f); own[a] = -1; break; }
      case 8: need(ha); { int f = fresh(); c[a]->reset(f); own[a] = f; break; }
      case 9: need(ha); c[a]->reset(); own[a] = -1; break;
      case 10: need(ha); c[a]->close(); own[a] = -1; break;
      case 11: need(ha); c[a].reset(); own[a] = -2; break;
      case 12: {   // duplicate into the other
        need(ha && own[a] >= 0);
        if (hb) *c[b] = c[a]->dup(); else c[b] = std::make_unique<arpc::channel>(c[a]->dup());
        own[b] = **c[b];
        MC_CHECK(own[b] >= 0 && own[b] != own[a], "wrong-descriptor", "dup");
        break;
      }
      case 13: need(ha); { arpc::channel t(std::move(*c[a])); MC_CHECK(*t == own[a], "wrong-descriptor", "moved"); own[a] = -1; break; }
      case 14: need(ha); { int f = fresh(); *c[a] = arpc::channel(f); own[a] = f; break; }
    }
    int open = fds0 + loose.size();
    for (int i = 0; i < kN; i++) if (own[i] != -2) {
      MC_CHECK(c[i]->get() == own[i] && **c[i] == own[i] && bool(*c[i]) == (own[i] >= 0), "wrong-descriptor", "step " + std::to_string(s));
      if (own[i] >= 0) { MC_CHECK(vos::is_open(own[i]), "closed-early", "step " + std::to_string(s)); open++; }
    }
    for (int f : loose) MC_CHECK(vos::is_open(f), "closed-early", "released");
    MC_CHECK(vos::open_count() == open, vos::open_count() > open ? "leaked" : "closed-early", "step " + std::to_string(s));
  }
  for (auto& x : c) x.reset();
  MC_CHECK(vos::open_count() == fds0 + int(loose.size()), "leaked", "at the end");
  MC_CHECK(vos::opens() - opens0 == vos::closes() - closes0 + loose.size(), "leaked", "opened and closed");
  for (int f : loose) ::close(f);
  mc::nontrivial();
}

namespace {
// Something that opens descriptors; it is abandoned whenever one of its system calls fails.
struct Maker { const char* name; uint32_t kinds; std::function<void()> make; };
void peers() {
  vos::set_resolution("host:80", 0, {{AF_INET, "10.0.0.1", 80, SOCK_STREAM, 6}, {AF_INET6, "fd00::1", 80, SOCK_STREAM, 6}});
  vos::set_resolution(":7000", 0, {{AF_INET, "0.0.0.0", 7000, SOCK_STREAM, 6}, {AF_INET6, "::", 7000, SOCK_STREAM, 6}});
  vos::set_peer("10.0.0.1:80", vos::kInProgressRefused);
  vos::set_peer("[fd00::1]:80", vos::kInProgressOk);
}
arpc::address addr_of(const char* host, const char* service) {
  auto l = arpc::address_resolver::get().resolve(arpc::endpoint().name(host).service(service));
  return arpc::address(*l.begin());
}
// (the reads, writes and waits on the pipes inside flags do not fail)
const uint32_t kAll = vos::kPipe | vos::kFcntl | vos::kDup | vos::kSocket | vos::kConnect | vos::kBind |
                      vos::kListen | vos::kAccept | vos::kGetopt | vos::kSetopt | vos::kNames | vos::kShutdown | vos::kOpen | vos::kResolve;
}  // namespace

static void faulty(int which, int bound_sched) {
  warm();
  sched::opt().timers = false;
  peers();
  sched::opt().left_ok = true;      // the resolver has a thread
  { sched::NoPreempt np; addr_of("host", "80"); }   // the resolver and its thread
  std::unique_ptr<arpc::address> a1;
  { sched::NoPreempt np; a1 = std::make_unique<arpc::address>(addr_of("host", "80")); }
  int pair[2]; vos::socketpair(pair);
  arpc::channel sock(pair[0]), other(pair[1]);
  sock.make_non_blocking();
  int fds0 = vos::open_count();
  size_t infos0 = vos::addrinfo_live();
  auto faults_on = [&] { vos::cfg().fail = kAll; vos::cfg().intr = vos::kConnect | vos::kAccept | vos::kPoll; };
  bool may_throw = true;
  auto body = [&] {
    switch (which) {
      case 0: { arpc::channel p[2]; arpc::pipe(p); break; }
      case 1: { arpc::channel p[2]; arpc::pipe(p); arpc::pipe(p); p[0].make_non_blocking(); arpc::channel d = p[0].dup(); d = p[1].dup(); break; }
      case 2: { arpc::flag f; f.set(); f.reset(); break; }
      case 3: { arpc::mutex m; m.lock(); m.unlock(); break; }
      case 4: { arpc::queue<int> q(1); q.put(1); q.get(); break; }
      case 5: { arpc::promise<int> p; auto f = p.get_future(); p.set_value(1); f.get(); break; }
      case 6: { arpc::context c; c.cancel(); break; }
      case 7: { arpc::channel s = arpc::socket(AF_INET, SOCK_STREAM, 0); s.keep_alive().reuse_addr().no_delay().linger(); break; }
      case 8: { arpc::channel s = arpc::socket(*a1); s.make_non_blocking(); s.connect(*a1); break; }
      case 9: { arpc::channel s = arpc::dial(arpc::endpoint().name("host").service("80")); s.peer_addr(); s.own_addr(); s.shutdown(true, true); break; }
      case 10: { arpc::listener l(arpc::endpoint().service("7000")); break; }
      case 11: {
        arpc::listener l(arpc::endpoint().service("7000"));
        int c = ::socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
        if (c < 0) return;
        struct Close { int f; ~Close() { ::close(f); } } closer{c};
        sockaddr_in in = {}; in.sin_family = AF_INET; in.sin_port = htons(7000);
        if (::connect(c, (sockaddr*)&in, sizeof in) && errno != EINPROGRESS) return;
        arpc::context ctx; ctx.set_timeout(ms(5));
        arpc::channel s = l.accept();
        break;
      }
      case 12: { arpc::channel f = arpc::file("/x", arpc::open_mode::WRITE); f.write("a", 1); break; }
      case 13: { arpc::channel_connection c(sock.dup()); c.write("abc", 3); c.disconnect(); break; }
      case 14: { arpc::client_socket_connection c(arpc::endpoint().name("host").service("80")); break; }
      case 15: { arpc::reconnectable_connection<arpc::client_socket_connection> c(arpc::endpoint().name("host").service("80")); c.connect(); c.write("x", 1); c.disconnect(); c.connect(); break; }
      case 16: { arpc::char_dev_connection c("/x"); c.write("x", 1); break; }
      case 17: { arpc::thread t([] { try { arpc::flag f; f.set(); f.wait(); } catch (const arpc::errors::io_error&) {} catch (const arpc::errors::try_again&) {} }); t.join(); break; }
    }
  };
  vos::set_file("/x", "");
  (void)bound_sched; (void)may_throw;
  std::string r;
  {
    // Failures of the library's own threads are not looked for here.
    faults_on();
    r = how(body);
    vos::cfg().fail = 0; vos::cfg().intr = 0;
  }
  MC_CHECK(r.rfind("other", 0) != 0, "not-an-error", r);
  { sched::NoPreempt np; sched::wait_quiet(); }
  MC_CHECK(vos::open_count() == fds0, vos::open_count() > fds0 ? "leaked" : "closed-early", r);
  MC_CHECK(vos::addrinfo_live() == int(infos0), "leaked", "address list");
  mc::outcome(r);
  mc::nontrivial();
}
MC_SCENARIO("pieces-with-faults", 3, 4) { faulty(mc::choose(9, "maker"), 0); }
MC_SCENARIO("endpoints-with-faults", 3, 4) { faulty(9 + mc::choose(8, "maker"), 0); }

MC_SCENARIO("use-then-drop", 3, 4) {
  // Whatever waits hold descriptors of is still open when they look; nothing is looked at after it was closed.
  warm();
  sched::opt().timers = false;
  int fds0 = vos::open_count();
  {
    arpc::channel p[2];
    arpc::pipe(p);
    int order = mc::choose(4, "order");
    arpc::flag done;
    std::string r;
    std::thread th([&] {
      char b[4];
      r = how([&] { while (true) p[0].read(b, 4); });
      p[0].close();
      done.set();
    });
    if (order & 1) p[1].write("ab", 2);
    if (order & 2) sched::wait_quiet();
    p[1].close();
    done.wait();
    th.join();
    MC_CHECK(r == "eof", "wrong-end", r);
  }
  MC_CHECK(vos::open_count() == fds0, "leaked", "");
  mc::nontrivial();
}

MC_SCENARIO("scale", 0, 0) {
  // Many channels, moved about and dropped in several orders: all are closed once.
  warm(); sched::opt().max_steps = 4000000; sched::opt().timers = false; sched::NoPreempt np;
  int base = vos::open_count();
  int n = amount(mc::tier_pick(24, 60), mc::tier_pick(257, 1025), "pipes"), order = mc::choose(4, "order"), moved = mc::choose(2, "moved");
  {
    std::vector<arpc::channel> c;
    for (int i = 0; i < n; i++) { arpc::channel p[2]; arpc::pipe(p); c.push_back(std::move(p[0])); c.push_back(std::move(p[1])); }
    MC_CHECK(vos::open_count() == base + 2 * n, "leak", "");
    if (moved) { std::vector<arpc::channel> d(c.size()); for (size_t i = 0; i < c.size(); i++) d[c.size() - 1 - i] = std::move(c[i]); MC_CHECK(vos::open_count() == base + 2 * n, "closed", ""); c = std::move(d); }
    if (order == 1) while (!c.empty()) c.pop_back();
    if (order == 2) for (auto& x : c) x.close();
    if (order == 3) for (size_t i = 0; i < c.size(); i += 2) c[i].close();
    MC_CHECK(vos::open_count() == base + (order == 0 ? 2 * n : order == 3 ? n : 0), "leak", std::to_string(vos::open_count()));
  }
  MC_CHECK(vos::open_count() == base, "leak", std::to_string(vos::open_count()));
  mc::nontrivial();
}
