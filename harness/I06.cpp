// I06: every name resolution gets its own answer.
#include "arpc/singleton.h"
namespace arpc { class address_resolver; }
// Resolvers of the scenario's own, next to the one of the process.
template <> struct arpc::singleton<arpc::address_resolver> {
  static arpc::address_resolver& get();
  static arpc::address_resolver* make();
  static void destroy(arpc::address_resolver*);
};
#include "arpc/address_resolver.h"
#include "ah.h"
#include <arpa/inet.h>
#include <netinet/in.h>
arpc::address_resolver& arpc::singleton<arpc::address_resolver>::get() { static arpc::address_resolver r; return r; }
arpc::address_resolver* arpc::singleton<arpc::address_resolver>::make() { return new arpc::address_resolver(); }
void arpc::singleton<arpc::address_resolver>::destroy(arpc::address_resolver* r) { delete r; }
using namespace ah;

namespace {
using Maker = arpc::singleton<arpc::address_resolver>;
struct Resolver {
  arpc::address_resolver* r;
  Resolver() { sched::NoPreempt np; r = Maker::make(); sched::wait_quiet(); }
  ~Resolver() { Maker::destroy(r); }
  arpc::address_resolver* operator->() { return r; }
};
enum Answer { kOne, kTwo, kNone, kFails, kSlow, kSlowFails, kAnswers };
void name(int i, int answer) {
  std::vector<vos::Resolved> v;
  int n = answer == kTwo ? 2 : answer == kOne || answer == kSlow ? 1 : 0;
  for (int k = 0; k < n; k++)
    if ((i + k) % 2) v.push_back({AF_INET6, "fd00::" + std::to_string(10 * i + k + 1), uint16_t(80 + i), SOCK_STREAM, 6});
    else v.push_back({AF_INET, "10.0.0." + std::to_string(10 * i + k + 1), uint16_t(80 + i), SOCK_STREAM, 6});
  vos::set_resolution("h" + std::to_string(i) + ":" + std::to_string(80 + i), answer == kFails || answer == kSlowFails ? EAI_NONAME : 0, v, answer >= kSlow ? 5 : 0);
}
arpc::endpoint asked(int i) { arpc::endpoint e; e.name("h" + std::to_string(i)).port(80 + i); return e; }
std::string show(const arpc::address& a) {
  char b[64] = "?";
  auto* d = a.address_data();
  if (d->sa_family == AF_INET) { auto* s = (const sockaddr_in*)d; inet_ntop(AF_INET, &s->sin_addr, b, sizeof b); return std::string(b) + " " + std::to_string(ntohs(s->sin_port)); }
  auto* s = (const sockaddr_in6*)d; inet_ntop(AF_INET6, &s->sin6_addr, b, sizeof b);
  return std::string(b) + " " + std::to_string(ntohs(s->sin6_port));
}
std::string show(const arpc::address_list& l) { std::string s; for (auto& a : l) s += show(a) + ";"; return s; }
std::string expected(int i, int answer) {
  if (answer == kFails || answer == kSlowFails) return "io";
  std::string s;
  int n = answer == kTwo ? 2 : answer == kNone ? 0 : 1;
  for (int k = 0; k < n; k++) s += ((i + k) % 2 ? "fd00::" : "10.0.0.") + std::to_string(10 * i + k + 1) + " " + std::to_string(80 + i) + ";";
  return s;
}
// One of the four ways to ask.
std::string resolve(arpc::address_resolver& r, int i, int way) {
  std::string s;
  std::string e = how([&] {
    auto q = asked(i);
    switch (way) {
      case 0: s = show(r.resolve(q)); break;
      case 1: s = show(r.resolve(asked(i))); break;
      case 2: { auto f = r.async_resolve(q); s = show(f.get()); break; }
      case 3: { auto f = r.async_resolve(asked(i)); auto [a] = arpc::select(f.async_get()); s = show(*a); break; }
    }
  });
  return e == "ok" ? s : e;
}
int questions(int i) {
  int n = 0; std::string k = "getaddrinfo h" + std::to_string(i) + ":";
  for (auto& c : vos::calls()) n += c.name.rfind(k, 0) == 0;
  return n;
}
void finish(int open0) {
  sched::wait_quiet();
  MC_CHECK(vos::addrinfo_live() == 0, "leak", "address lists: " + std::to_string(vos::addrinfo_live()));
  MC_CHECK(vos::open_count() == open0, "leak", "descriptors: " + std::to_string(vos::open_count() - open0));
}
}  // namespace

// Threads that ask at the same time, in any way, with any answers.
static void threads(bool all) {
  warm();
  sched::opt().timers = false;
  int n = 2, way[2], ans[2];
  for (int i = 0; i < n; i++) {
    way[i] = all ? mc::choose(4, "way") : i ? 3 : 0;
    ans[i] = all ? mc::choose(kAnswers, "answer") : mc::choose(2, "answer") ? kFails : i ? kTwo : kSlow;
  }
  for (int i = 0; i < n; i++) name(i, ans[i]);
  vos::record_calls(true);
  int open0 = vos::open_count();
  {
    Resolver r;
    std::string got[2];
    std::thread th([&] { got[1] = resolve(*r.r, 1, way[1]); });
    got[0] = resolve(*r.r, 0, way[0]);
    th.join();
    for (int i = 0; i < n; i++) {
      MC_CHECK(got[i] == expected(i, ans[i]), "wrong-answer", got[i] + " instead of " + expected(i, ans[i]));
      MC_CHECK(questions(i) == 1, "wrong-question", std::to_string(questions(i)));
    }
  }
  finish(open0);
  mc::nontrivial();
}
MC_SCENARIO("threads", 1, 2) { threads(true); }
MC_SCENARIO("threads-deeper", 2, 3) { threads(false); }

MC_SCENARIO("outstanding", 1, 2) {
  // Several questions of one thread, answered while it does not look, picked up in any order.
  warm();
  sched::opt().timers = false;
  const int n = 3;
  int ans[n];
  for (int i = 0; i < n; i++) { ans[i] = mc::choose(kAnswers, "answer"); name(i, ans[i]); }
  int order = mc::choose(7, "order");       // six orders, or with a single wait for all
  bool later = mc::choose(2, "later");
  vos::record_calls(true);
  int open0 = vos::open_count();
  {
    Resolver r;
    auto f0 = r->async_resolve(asked(0)); auto f1 = r->async_resolve(asked(1)); auto f2 = r->async_resolve(asked(2));
    arpc::future<arpc::address_list>* f[n] = {&f0, &f1, &f2};
    if (later) sched::wait_quiet();
    std::string got[n];
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    if (order < 6) for (int k : perm[order]) { std::string e = how([&] { got[k] = show(f[k]->get()); }); if (e != "ok") got[k] = e; }
    else {
      int left = n;
      bool done[n] = {};
      for (int rounds = 0; left && rounds < 2 * n; rounds++) {
        auto e = [&](int k) { return done[k]; };
        int k = 0; while (e(k)) k++;
        // The one that comes next among those that are left, by a wait for all of them.
        auto [a, b, c] = arpc::select(f0.async_get(), f1.async_get(), f2.async_get());
        auto take = [&](int i, auto& x) { if (!done[i] && x) { std::string s; std::string w = how([&] { s = show(*x); }); got[i] = w == "ok" ? s : w; done[i] = true; left--; } };
        take(0, a); take(1, b); take(2, c);
        break;      // A future gives its value once; the others are asked one by one.
      }
      for (int k = 0; k < n; k++) if (!done[k]) { std::string e = how([&] { got[k] = show(f[k]->get()); }); if (e != "ok") got[k] = e; }
    }
    for (int i = 0; i < n; i++) {
      MC_CHECK(got[i] == expected(i, ans[i]), "wrong-answer", got[i] + " instead of " + expected(i, ans[i]));
      MC_CHECK(questions(i) == 1, "wrong-question", std::to_string(questions(i)));
    }
  }
  finish(open0);
  mc::nontrivial();
}

MC_SCENARIO("given-up", 2, 3) {
  // Somebody stops waiting: the answer comes to nobody, everyone else gets theirs.
  warm();
  sched::opt().timers = false;
  int ans[2] = {mc::choose(kAnswers, "answer"), mc::choose(kAnswers, "answer")};
  name(0, ans[0]); name(1, ans[1]);
  int why = mc::choose(4, "way");          // lets go of the future, at once or before the answer; cancelled; deadline
  vos::record_calls(true);
  int open0 = vos::open_count();
  {
    Resolver r;
    std::string r0 = "gone", r1;
    if (why == 0) { { auto f = r->async_resolve(asked(0)); } }
    else if (why == 1) { auto f = std::make_unique<arpc::future<arpc::address_list>>(r->async_resolve(asked(0))); sched::sleep_ms(2); f.reset(); }
    else {
      arpc::context group(arpc::context::current(), false);
      uint64_t ended = 0;
      std::thread th([&] {
        arpc::context mine(group);
        if (why == 3) mine.set_timeout(ms(2));
        std::string s;
        r0 = how([&] { s = show(r->resolve(asked(0))); });
        if (r0 == "ok") r0 = s;
        ended = us();
      });
      if (why == 2) { sched::sleep_ms(2); group.cancel(); }
      th.join();
      MC_CHECK(ended <= 2000, "late", std::to_string(ended));
      bool slow = ans[0] >= kSlow;
      MC_CHECK(r0 == (slow ? (why == 2 ? "cancelled" : "deadline") : expected(0, ans[0])), "wrong-answer", r0);
    }
    r1 = resolve(*r.r, 1, mc::choose(2, "again"));
    MC_CHECK(r1 == expected(1, ans[1]), "wrong-answer", r1 + " instead of " + expected(1, ans[1]));
    MC_CHECK(questions(0) <= 1 && questions(1) == 1, "wrong-question", "");
  }
  finish(open0);
  mc::outcome(std::to_string(why));
  mc::nontrivial();
}

MC_SCENARIO("many", 0, 1) {
  // More questions than are remembered: askers wait for their turn, and can stop doing so.
  warm();
  sched::opt().timers = false;
  sched::opt().free_switch = false;
  name(0, mc::choose(2, "first") ? kSlow : kSlowFails);
  name(1, kOne); name(2, kTwo);
  int limit = mc::choose(3, "limit");      // none, cancelled, deadline
  int open0 = vos::open_count();
  {
    Resolver r;
    std::vector<arpc::future<arpc::address_list>> f;
    f.push_back(r->async_resolve(asked(0)));
    sched::wait_quiet();
    // The queue, and one more.
    for (int i = 0; i < 16; i++) f.push_back(r->async_resolve(asked(1 + i % 2)));
    MC_CHECK(us() == 0, "late", "queued questions waited");
    arpc::context group(arpc::context::current(), false);
    std::string r0; uint64_t ended = 0;
    std::thread th([&] {
      arpc::context mine(group);
      if (limit == 2) mine.set_timeout(ms(2));
      r0 = resolve(*r.r, 1, 0);
      ended = us();
    });
    if (limit == 1) { sched::sleep_ms(3); group.cancel(); }
    th.join();
    if (limit == 0) MC_CHECK(r0 == expected(1, kOne), "wrong-answer", r0);
    else MC_CHECK(r0 == (limit == 1 ? "cancelled" : "deadline") && ended == (limit == 1 ? 3000u : 2000u), "wrong-end", r0);
    for (int i = 1; i < 17; i++) {
      std::string s; std::string e = how([&] { s = show(f[i].get()); });
      MC_CHECK(e == "ok" && s == expected(1 + (i - 1) % 2, (i - 1) % 2 ? kTwo : kOne), "wrong-answer", e + " " + s);
    }
    f.clear();
  }
  finish(open0);
  mc::nontrivial();
}

MC_SCENARIO("ends", 2, 3) {
  // The resolver goes away while questions are open: they are answered, or end with an error.
  warm();
  sched::opt().timers = false;
  int n = 1 + mc::choose(2, "questions");
  int ans[2] = {mc::choose(kAnswers, "answer"), mc::choose(kAnswers, "answer")};
  name(0, ans[0]); name(1, ans[1]);
  int when = mc::choose(3, "when");
  int open0 = vos::open_count();
  {
    std::vector<arpc::future<arpc::address_list>> f;
    {
      Resolver r;
      for (int i = 0; i < n; i++) f.push_back(r->async_resolve(asked(i)));
      if (when == 1) sched::wait_quiet();
      if (when == 2) sched::sleep_ms(20);
    }
    for (int i = 0; i < n; i++) {
      std::string s; std::string e = how([&] { s = show(f[i].get()); });
      if (e == "ok") e = s;
      bool known = when == 2;
      if (known) MC_CHECK(e == expected(i, ans[i]), "wrong-answer", e);
      else if (e != expected(i, ans[i])) MC_CHECK(e.rfind("error:", 0) == 0 || e == "cancelled" || e.rfind("other:", 0) == 0, "wrong-answer", e);
      mc::outcome(e == expected(i, ans[i]) ? "answered" : e);
    }
  }
  finish(open0);
  mc::nontrivial();
}

MC_SCENARIO("failing", 2, 3) {
  // A resolution that fails for a moment does not hurt the next ones, and nothing leaks if the system refuses descriptors.
  warm();
  sched::opt().timers = false;
  for (int i = 0; i < 3; i++) name(i, i == 1 ? kTwo : kOne);
  int open0 = vos::open_count();
  {
    Resolver r;
    vos::cfg().fail = vos::kResolve;
    int bad = 0;
    for (int i = 0; i < 3; i++) {
      std::string s = resolve(*r.r, i, i);
      if (s == "io") bad++;
      else MC_CHECK(s == expected(i, i == 1 ? kTwo : kOne), "wrong-answer", s);
    }
    vos::cfg().fail = 0;
    MC_CHECK(resolve(*r.r, 0, 0) == expected(0, kOne), "wrong-answer", "after failures");
    mc::outcome(std::to_string(bad));
  }
  finish(open0);
  mc::nontrivial();
}

// What is asked is what the endpoint says, whatever was asked before and by whom.
namespace {
struct Question {
  arpc::endpoint e; std::string n, s; bool passive = false; int family = AF_UNSPEC, type = SOCK_STREAM;
  void option(int k) {
    arpc::endpoint* p = nullptr;
    switch (k) {
      case 0: p = &e.name(n = "a"); break; case 1: p = &e.name(n = "host.example"); break;
      case 2: p = &e.service(s = "http"); break; case 3: p = &e.port(0); s = "0"; break; case 4: p = &e.port(65535); s = "65535"; break;
      case 5: p = &e.passive(); passive = true; break; case 6: p = &e.active(); passive = false; break;
      case 7: p = &e.stream(); type = SOCK_STREAM; break; case 8: p = &e.datagram(); type = SOCK_DGRAM; break;
      case 9: p = &e.ip(); family = AF_UNSPEC; break; case 10: p = &e.ipv4(); family = AF_INET; break; case 11: p = &e.ipv6(); family = AF_INET6; break;
    }
    MC_CHECK(p == &e, "not-chained", std::to_string(k));
  }
  std::string asked() const { return "getaddrinfo " + n + ":" + s + " family " + std::to_string(family) + " type " + std::to_string(type) + " passive " + std::to_string(passive); }
};
void expect_calls(const std::vector<std::string>& want) {
  std::vector<std::string> got; std::string all;
  for (auto& c : vos::calls()) if (c.name.rfind("getaddrinfo ", 0) == 0) { got.push_back(c.name); all += c.name + "; "; }
  MC_CHECK(got == want, "wrong-question", all + "instead of " + want.back());
}
}  // namespace
MC_SCENARIO("options", 0, 0) {
  warm(); sched::opt().timers = false;
  vos::set_resolution("*", 0, {{AF_INET, "10.0.0.1", 80, SOCK_STREAM, 6}});
  vos::record_calls(true); int open0 = vos::open_count();
  {
    Resolver r; Question q;
    int n = mc::choose(mc::tier_pick(4, 5), "options"); for (int i = 0; i < n; i++) q.option(mc::choose(12, "option"));
    arpc::endpoint copy = q.e;
    std::string s; std::string e = how([&] { s = show(r->resolve(copy)); });
    MC_CHECK(e == "ok" && s == "10.0.0.1 80;", "wrong-answer", e + " " + s);
    expect_calls({q.asked()}); mc::outcome(q.asked());
  }
  finish(open0); mc::nontrivial();
}
MC_SCENARIO("questions", 0, 0) {
  warm(); sched::opt().timers = false;
  vos::record_calls(true); int open0 = vos::open_count();
  {
    Resolver r; std::vector<std::string> want;
    int n = 1 + mc::choose(3, "questions");
    for (int i = 0; i < n; i++) {
      static const std::vector<int> kinds[] = {{}, {0, 3}, {1, 5}, {5, 2}, {0, 8, 10}, {1, 11, 2}, {0, 2, 5, 6, 10, 9}};
      Question q; for (int k : mc::pick(kinds, "kind")) q.option(k);
      bool ok = !mc::choose(2, "fails"); int way = mc::choose(i < 2 ? 2 : 4, "way");
      std::string ip = "10.0.1." + std::to_string(i + 1);
      vos::set_resolution("*", ok ? 0 : EAI_NONAME, {{AF_INET, ip, 80, SOCK_STREAM, 6}});
      std::string s; std::string e = how([&] {
        switch (way) {
          case 0: s = show(r->resolve(q.e)); break;
          case 1: s = show(r->async_resolve(arpc::endpoint(q.e)).get()); break;
          case 2: s = show(r->resolve(arpc::endpoint(q.e))); break;
          case 3: { auto f = r->async_resolve(q.e); auto [a] = arpc::select(f.async_get()); s = show(*a); break; }
        }
      });
      want.push_back(q.asked()); expect_calls(want);
      if (ok) MC_CHECK(e == "ok" && s == ip + " 80;", "wrong-answer", e + " " + s); else MC_CHECK(e == "io", "wrong-answer", e + " " + s);
      mc::outcome(want.back() + e);
    }
  }
  finish(open0); mc::nontrivial();
}
