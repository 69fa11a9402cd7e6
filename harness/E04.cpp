// E04: addresses are well-behaved values.
#include <arpa/inet.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/un.h>
#include <deque>
#include <memory>
#include <string>
#include <vector>
#include "arpc/address.h"
#include "arpc/errors.h"
#include "mc.h"
using std::string;
namespace arpc {
// Stands in for the resolver, the only maker of address lists.
class address_resolver {
 public:
  static address_list list(addrinfo* a) { return address_list(a); }
  // What an endpoint holds has no public reader: the scenario of I06 with the same options sees it through the resolver's
  // questions.  Here the fields are looked at where they still have these names.
  template <typename E> static auto same(const E& e, const string& name, const string& service, bool passive, int family, int type, int) -> decltype((void)e.name_, (void)e.service_, (void)e.passive_, (void)e.family_, (void)e.sock_type_, true) {
    return e.name_ == name && e.service_ == service && e.passive_ == passive && e.family_ == family && e.sock_type_ == type;
  }
  template <typename E> static bool same(const E&, const string&, const string&, bool, int, int, long) { return true; }
};
}  // namespace arpc
using arpc::address; using arpc::address_list; using Res = arpc::address_resolver;
struct Ref { int family = 0, type = 0, proto = 0; string bytes; string text; };
static Ref sample(int k) {
  Ref r; sockaddr_storage ss; memset(&ss, 0, sizeof ss);
  auto take = [&](size_t n) { r.bytes.assign((char*)&ss, n); };
  if (k == 0) { auto* s = (sockaddr_in*)&ss; s->sin_family = AF_INET; s->sin_port = htons(80); inet_pton(AF_INET, "127.0.0.1", &s->sin_addr); take(sizeof *s); r.text = "127.0.0.1:80"; r.type = SOCK_STREAM; }
  if (k == 1) { auto* s = (sockaddr_in*)&ss; s->sin_family = AF_INET; s->sin_port = htons(65535); inet_pton(AF_INET, "255.254.253.252", &s->sin_addr); take(sizeof *s); r.text = "255.254.253.252:65535"; r.type = SOCK_DGRAM; r.proto = IPPROTO_UDP; }
  if (k == 2) { auto* s = (sockaddr_in6*)&ss; s->sin6_family = AF_INET6; s->sin6_port = htons(443); inet_pton(AF_INET6, "fedc:ba98:7654:3210:fedc:ba98:7654:3210", &s->sin6_addr); take(sizeof *s); r.text = "[fedc:ba98:7654:3210:fedc:ba98:7654:3210]:443"; r.type = SOCK_STREAM; r.proto = IPPROTO_TCP; }
  if (k == 3) { auto* s = (sockaddr_in6*)&ss; s->sin6_family = AF_INET6; s->sin6_port = 0; inet_pton(AF_INET6, "::1", &s->sin6_addr); take(sizeof *s); r.text = "[::1]:0"; r.type = SOCK_STREAM; }
  if (k == 4) { auto* s = (sockaddr_un*)&ss; s->sun_family = AF_UNIX; for (int i = 0; i < 107; i++) s->sun_path[i] = char('a' + i % 26); take(sizeof *s); r.type = SOCK_STREAM; }
  if (k == 5) { auto* s = (sockaddr_in6*)&ss; s->sin6_family = AF_INET6; s->sin6_port = htons(65535); s->sin6_scope_id = 4294967295u; inet_pton(AF_INET6, "fe80:ba98:7654:3210:fedc:ba98:7654:3210", &s->sin6_addr); take(sizeof *s); r.text = "[fe80:ba98:7654:3210:fedc:ba98:7654:3210%4294967295]:65535"; r.type = SOCK_DGRAM; }
  if (k == 6) { auto* s = (sockaddr_in6*)&ss; s->sin6_family = AF_INET6; s->sin6_port = htons(8); inet_pton(AF_INET6, "::ffff:1.2.3.4", &s->sin6_addr); take(sizeof *s); r.text = "[::ffff:1.2.3.4]:8"; r.type = SOCK_STREAM; }
  r.family = ((sockaddr*)&ss)->sa_family;
  return r;
}
static void check(const address& a, const Ref& r, const char* what) {
  MC_CHECK(a.family() == r.family && a.socket_type() == r.type && a.protocol() == r.proto, string("attributes/") + what, "");
  MC_CHECK(a.address_size() == r.bytes.size() && (r.bytes.empty() || !memcmp(a.address_data(), r.bytes.data(), r.bytes.size())), string("bytes/") + what, "");
  if (!r.text.empty()) { string t = a.as_string(); MC_CHECK(t == r.text, string("text/") + what, t + " instead of " + r.text); }
}
static void fill(address& a, const Ref& r) {
  a.family() = r.family; a.socket_type() = r.type; a.protocol() = r.proto;
  memcpy(a.address_data(), r.bytes.data(), r.bytes.size()); a.address_size() = r.bytes.size();
}
// A list as the system's resolver returns it.
static addrinfo* sys_list(const char* host, const char* port, int type, int flags) {
  addrinfo hints; memset(&hints, 0, sizeof hints); hints.ai_flags = AI_NUMERICHOST | AI_NUMERICSERV | flags; hints.ai_socktype = type;
  addrinfo* res = nullptr; int rc = getaddrinfo(host, port, &hints, &res);
  if (rc) { fprintf(stderr, "getaddrinfo: %s\n", gai_strerror(rc)); return nullptr; }
  return res;
}
MC_SCENARIO("histories") {
  std::deque<address> v; std::vector<Ref> r;
  int depth = mc::tier_pick(4, 5);
  for (int i = 0; i < depth; i++) {
    int op = mc::choose(7, "op"); size_t n = v.size();
    mc::trace("op %d on %zu", op, n);
    if (op == 0) {
      v.emplace_back(); Ref s = sample(mc::choose(7, "sample"));
      MC_CHECK(v.back().address_size() == sizeof(sockaddr_storage), "capacity", "a new address has no room");
      for (size_t k = 0; k < sizeof(sockaddr_storage); k++) MC_CHECK(((char*)v.back().address_data())[k] == 0, "zeroed", "");
      fill(v.back(), s); r.push_back(s);
    } else if (n == 0) continue;
    else if (op == 1) { v.push_back(v.back()); r.push_back(Ref(r.back())); }
    else if (op == 2) { v.push_back(std::move(v.back())); r.push_back(r.back());
      // The moved-from one gives up its storage; it can still be copied and destroyed.
      Ref e = r[n - 1]; e.bytes.clear(); e.text.clear(); r[n - 1] = e; }
    else if (op == 3) { v.pop_back(); r.pop_back(); }
    else if (op == 4) { address c(v.front()); check(c, r.front(), "copy"); if (!r.front().bytes.empty()) { ((char*)c.address_data())[3] ^= 0x55; c.family() = 99; } }   // a copy has its own storage
    else if (op == 5) { Ref s = sample(mc::choose(7, "sample")); if (r.back().bytes.empty()) continue; fill(v.back(), s); r.back() = s; }
    else { address c(std::move(v.front())); if (!r.front().bytes.empty()) check(c, r.front(), "moved"); Ref e = r.front(); e.bytes.clear(); e.text.clear(); r.front() = e; }
    for (size_t k = 0; k < v.size(); k++) check(v[k], r[k], "kept");
  }
  string o; for (auto& x : r) o += char('0' + x.bytes.size() % 70); mc::outcome(o); mc::state(mc::hash_str(o)); mc::nontrivial();
}
MC_SCENARIO("lists") {
  static const char* hosts[] = {"127.0.0.1", "::1", "10.1.2.3", "fe80::1234"};
  static const char* ports[] = {"0", "80", "65535"};
  const char* h = mc::pick(hosts, "host"); const char* p = mc::pick(ports, "port"); int type = mc::choose(3, "type");
  int t = type == 0 ? 0 : type == 1 ? SOCK_STREAM : SOCK_DGRAM;
  addrinfo* sys = sys_list(h, p, t, 0); if (!sys) mc::prune();
  std::vector<Ref> want;
  for (addrinfo* x = sys; x; x = x->ai_next) { Ref r; r.family = x->ai_family; r.type = x->ai_socktype; r.proto = x->ai_protocol; r.bytes.assign((char*)x->ai_addr, x->ai_addrlen); r.text = string(strchr(h, ':') ? "[" + string(h) + "]" : h) + ":" + p; want.push_back(r); }
  auto l = std::make_unique<address_list>(Res::list(sys));
  int moves = mc::choose(3, "moves");
  if (moves == 1) { auto m = std::make_unique<address_list>(std::move(*l)); l = std::move(m); }
  if (moves == 2) { addrinfo* other = sys_list("1.2.3.4", "5", 0, 0); auto m = std::make_unique<address_list>(Res::list(other)); *m = std::move(*l); l = std::move(m); }
  MC_CHECK(l->size() == want.size() && !l->empty(), "size", "");
  std::vector<std::unique_ptr<address>> copies; size_t i = 0;
  for (auto& a : *l) { check(a, want[i], "iterated"); copies.emplace_back(new address(a)); i++; }
  MC_CHECK(i == want.size(), "iterated-count", "");
  const address_list& cl = *l; i = 0;
  for (auto it = cl.begin(); it != cl.end(); it++) { check(*it, want[i], "const"); MC_CHECK(it->family() == want[i].family, "arrow", ""); i++; }
  MC_CHECK(i == want.size(), "const-count", "");
  i = 0; for (auto it = l->cbegin(); it != l->cend(); ++it) check(*it, want[i++], "cbegin");
  address_list::iterator a = l->begin(), b = l->end(), c = a; address_list::const_iterator ca = a, cb = cl.end();
  MC_CHECK(a == c && !(a != c) && a != b && ca == cl.begin() && ca != cb && !(ca == cb), "iterator-equality", "");
  auto old = c++; MC_CHECK(old == a && c != a && (want.size() > 1) == (c != b), "post-increment", "");
  auto& pre = ++old; MC_CHECK(pre == c && &pre == &old, "pre-increment", "");
  auto cold = ca++; MC_CHECK(cold == cl.begin() && ca == address_list::const_iterator(c), "post-increment", "");
  using std::swap; swap(a, b); MC_CHECK(b == l->begin() && a == l->end(), "iterator-swap", ""); a.swap(b); MC_CHECK(a == l->begin(), "iterator-swap", "");
  swap(ca, cb); MC_CHECK(ca == cl.end(), "iterator-swap", "");
  MC_CHECK(address_list::iterator() == l->end() && address_list::const_iterator() == cl.end(), "end", "");
  MC_CHECK(size_t(std::distance(l->begin(), l->end())) == want.size(), "distance", "");
  if (mc::choose(2, "list gone")) l.reset();
  for (i = 0; i < copies.size(); i++) check(*copies[i], want[i], "copied-out");
  mc::outcome(string(h) + p + char(t + '0') + char(moves + '0')); mc::nontrivial();
}
MC_SCENARIO("empty-list") {
  address_list l = Res::list(nullptr); const address_list& cl = l;
  MC_CHECK(l.empty() && l.size() == 0 && l.begin() == l.end() && cl.begin() == cl.end() && cl.cbegin() == cl.cend(), "empty", "");
  address_list m = std::move(l); MC_CHECK(m.empty(), "empty", ""); m = Res::list(sys_list("1.2.3.4", "5", SOCK_STREAM, 0)); MC_CHECK(m.size() == 1, "assigned", "");
  mc::outcome(1); mc::nontrivial();
}
MC_SCENARIO("endpoints") {
  arpc::endpoint e; string name, service; bool passive = false; int family = AF_UNSPEC, type = SOCK_STREAM;
  for (int i = 0; i < mc::tier_pick(4, 5); i++) {
    arpc::endpoint* p = nullptr;
    switch (mc::choose(12, "option")) {
      case 0: p = &e.name(name = "a"); break; case 1: p = &e.name(name = "host.example"); break;
      case 2: p = &e.service(service = "http"); break; case 3: p = &e.port(0); service = "0"; break; case 4: p = &e.port(65535); service = "65535"; break;
      case 5: p = &e.passive(); passive = true; break; case 6: p = &e.active(); passive = false; break;
      case 7: p = &e.stream(); type = SOCK_STREAM; break; case 8: p = &e.datagram(); type = SOCK_DGRAM; break;
      case 9: p = &e.ip(); family = AF_UNSPEC; break; case 10: p = &e.ipv4(); family = AF_INET; break; case 11: p = &e.ipv6(); family = AF_INET6; break;
    }
    MC_CHECK(p == &e, "chained", "");
    MC_CHECK(Res::same(e, name, service, passive, family, type, 0), "endpoint", "");
  }
  mc::outcome(name + service + std::to_string(family * 100 + type * 2 + passive)); mc::nontrivial();
}
