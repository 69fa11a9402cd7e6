// I05: files and sockets are opened and set up as asked.
#include "arpc/file.h"
#include "arpc/address_resolver.h"
#include "arpc/socket.h"
#include "ah.h"
#include "conform.h"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <netinet/tcp.h>
using namespace ah;

namespace {
struct Mode { arpc::open_mode m; const char* name; bool r, w, create, trunc, append; };
const Mode kModes[] = {
  {arpc::open_mode::READ, "read", true, false, false, false, false},
  {arpc::open_mode::WRITE, "write", false, true, true, true, false},
  {arpc::open_mode::APPEND, "append", false, true, true, false, true},
  {arpc::open_mode::READ_PLUS, "read+", true, true, false, false, false},
  {arpc::open_mode::WRITE_PLUS, "write+", true, true, true, true, false},
  {arpc::open_mode::APPEND_PLUS, "append+", true, true, true, false, true},
};
}  // namespace

// Every way of opening a file, and all short sequences of uses of it, against a string and a position.
static void files(int depth, bool faults) {
  warm();
  const Mode& m = mc::pick(kModes, "mode");
  int there = mc::choose(3, "file");           // missing, empty, some content
  static const char* kContent[] = {"", "", "abcdef"};
  if (there) vos::set_file("/f", kContent[there]);
  if (faults) vos::cfg().fail = vos::kOpen;
  vos::record_calls(true);
  arpc::channel c;
  std::string r = how([&] { c = arpc::file("/f", m.m); });
  vos::cfg().fail = 0;
  bool broken = false;
  for (auto& k : vos::calls()) if (k.name == "open" && k.result < 0 && (k.err == EACCES || k.err == EMFILE)) broken = true;
  vos::record_calls(false);
  bool ok = (there || m.create) && !broken;
  MC_CHECK(r == (ok ? "ok" : "io"), "wrong-end", std::string(m.name) + " " + r);
  std::string now; bool exists = vos::get_file("/f", &now);
  if (!ok) {
    MC_CHECK(!c, "wrong-end", "a channel without a file");
    MC_CHECK(exists == (there > 0), "wrong-file", "created or removed");
    if (exists) MC_CHECK(now == kContent[there], "wrong-file", now);
    mc::nontrivial(); return;
  }
  std::string mode;
  if (!there) MC_CHECK(vos::get_file("mode:/f", &mode) && mode == std::to_string(0666), "wrong-permissions", "a new file is created with mode " + mode + " instead of what the user's mask leaves of 0666");
  std::string ref = m.trunc ? "" : kContent[there];
  MC_CHECK(exists && now == ref, "wrong-file", now);
  size_t pos = 0;
  std::string log = m.name;
  char next = 'A';
  if (faults) vos::cfg().fail = vos::kWrite, vos::cfg().shorten = vos::kWrite | vos::kRead, vos::record_calls(true);
  for (int i = 0; i < depth; i++) {
    int op = mc::choose(7, "op");
    size_t mark = vos::calls().size();
    bool hit = false;
    auto failed = [&] { for (size_t k = mark; k < vos::calls().size(); k++) if (vos::calls()[k].err == ENOSPC && vos::calls()[k].result < 0) return true; return false; };
    if (op == 0) break;
    if (op <= 2) {                              // read one or four
      size_t n = op == 1 ? 1 : 4; char b[8]; memset(b, '?', 8); size_t got = 0;
      std::string e = how([&] { got = c.read(b, n); });
      log += " r" + std::to_string(n) + e;
      if (!m.r) { MC_CHECK(e == "io", "wrong-end", log); continue; }
      if (pos >= ref.size()) { MC_CHECK(e == "eof", "wrong-end", log); continue; }
      MC_CHECK(e == "ok" && got >= 1 && got <= n && (faults || got == std::min(n, ref.size() - pos)), "wrong-count", log);
      MC_CHECK(std::string(b, got) == ref.substr(pos, got), "wrong-data", log);
      pos += got;
    } else if (op <= 4) {                       // write one or three
      size_t n = op == 3 ? 1 : 3; std::string s; for (size_t k = 0; k < n; k++) s += next++;
      size_t put = 0;
      std::string e = how([&] { put = c.write(s.data(), n); });
      hit = failed();
      log += " w" + std::to_string(n) + e;
      if (!m.w || hit) { MC_CHECK(e == "io", "wrong-end", log); }
      else {
        MC_CHECK(e == "ok" && put >= 1 && put <= n && (faults || put == n), "wrong-count", log);
        if (m.append) pos = ref.size();
        if (ref.size() < pos + put) ref.resize(pos + put);
        ref.replace(pos, put, s.substr(0, put));
        pos += put;
      }
    } else if (op == 5) {                       // the blocking mode is no concern of the rest
      c.make_non_blocking(mc::choose(2, "non-blocking"));
      log += " nb";
    } else {                                    // another descriptor of the same open file
      arpc::channel d = c.dup();
      c = std::move(d);
      log += " dup";
    }
    vos::get_file("/f", &now);
    MC_CHECK(now == ref, "wrong-file", log + ": " + now + " instead of " + ref);
  }
  mc::outcome(log);
  mc::nontrivial();
}
MC_SCENARIO("files", 0, 0) { files(mc::tier_pick(4, 5), false); }
MC_SCENARIO("files-with-failures", 2, 3) { files(3, true); }

namespace {
arpc::channel sock(int fam) { return arpc::socket(fam, SOCK_STREAM, 0); }
struct Opts { std::map<std::string, int> v; };
int raw(int fd, int level, int name) { int v = 0; socklen_t l = sizeof v; if (::getsockopt(fd, level, name, &v, &l)) return -1; return v; }
// What the socket says about itself.
std::map<std::string, int> observe(int fd) {
  std::map<std::string, int> o;
  o["keep_alive"] = raw(fd, SOL_SOCKET, SO_KEEPALIVE);
  o["reuse_addr"] = raw(fd, SOL_SOCKET, SO_REUSEADDR);
  o["reuse_port"] = raw(fd, SOL_SOCKET, SO_REUSEPORT);
  o["no_delay"] = raw(fd, IPPROTO_TCP, TCP_NODELAY);
  struct linger l{}; socklen_t n = sizeof l;
  if (::getsockopt(fd, SOL_SOCKET, SO_LINGER, &l, &n)) mc::fail("harness", "SO_LINGER");
  o["linger"] = l.l_onoff ? l.l_linger : -1;
  o["non_blocking"] = vos::nonblocking(fd);
  return o;
}
}  // namespace

MC_SCENARIO("options", 0, 0) {
  // All short sequences of settings; each changes what it says and nothing else.
  warm();
  arpc::channel c = sock(mc::choose(2, "family") ? AF_INET6 : AF_INET);
  std::map<std::string, int> ref = observe(*c);
  std::string log;
  int depth = mc::tier_pick(3, 4);
  for (int i = 0; i < depth; i++) {
    int op = mc::choose(8, "op");
    if (op == 7) break;
    bool v = op == 5 ? true : mc::choose(2, "value");
    switch (op) {
      case 0: c.keep_alive(v); ref["keep_alive"] = v; log += " keep_alive"; break;
      case 1: c.reuse_addr(v); ref["reuse_addr"] = v; log += " reuse_addr"; break;
      case 2: c.reuse_port(v); ref["reuse_port"] = v; log += " reuse_port"; break;
      case 3: c.no_delay(v); ref["no_delay"] = v; log += " no_delay"; break;
      case 4: { int s = mc::choose(3, "seconds") * 5; if (s == 10) c.linger(v); else c.linger(v, std::chrono::seconds(s)); ref["linger"] = v ? s : -1; log += " linger" + std::to_string(s); break; }
      case 5: { int p = vos::pushes(*c); c.flush(); log += " flush"; MC_CHECK(ref["no_delay"] == 1 || vos::pushes(*c) > p, "not-flushed", log); break; }
      case 6: c.make_non_blocking(v); ref["non_blocking"] = v; log += " non_blocking"; break;
    }
    log += v ? "+" : "-";
    auto now = observe(*c);
    for (auto& [k, x] : ref) MC_CHECK(bool(x == now[k]), "wrong-option", log + ": " + k + " is " + std::to_string(now[k]) + " instead of " + std::to_string(x));
  }
  mc::outcome(log);
  mc::nontrivial();
}
MC_SCENARIO("options-that-fail", 1, 2) {
  // Settings that the system refuses are reported; those of things that are no sockets, too.
  warm();
  int what = mc::choose(3, "channel");          // socket, pipe, none
  arpc::channel c;
  if (what == 0) c = sock(AF_INET);
  if (what == 1) { int f[2]; if (::pipe(f)) mc::fail("harness", "pipe"); c.reset(f[0]); ::close(f[1]); }
  int op = mc::choose(11, "op");
  vos::record_calls(true);
  vos::cfg().closed_is_violation = false;
  vos::cfg().fail = vos::kSetopt | vos::kFcntl | vos::kDup | vos::kShutdown | vos::kNames | vos::kBind | vos::kListen;
  size_t mark = vos::calls().size();
  arpc::address a;
  std::string r = how([&] {
    switch (op) {
      case 0: c.keep_alive(); break;
      case 1: c.reuse_addr(); break;
      case 2: c.reuse_port(); break;
      case 3: c.no_delay(); break;
      case 4: c.linger(); break;
      case 5: c.make_non_blocking(); break;
      case 6: c.dup(); break;
      case 7: c.shutdown(true, true); break;
      case 8: c.own_addr(); break;
      case 9: c.peer_addr(); break;
      case 10: c.listen(); break;
    }
  });
  vos::cfg() = vos::Config();
  bool broken = false;
  for (size_t i = mark; i < vos::calls().size(); i++) if (vos::calls()[i].result < 0) broken = true;
  MC_CHECK(r == (broken ? "io" : "ok"), "wrong-end", r);
  if (what == 2) MC_CHECK(broken, "no-call", "");
  mc::outcome(r);
  mc::nontrivial();
}
MC_SCENARIO("shutdown", 0, 0) {
  // Every combination of directions, twice, and what each end then sees.
  warm();
  int f[2]; vos::socketpair(f);
  arpc::channel a(f[0]), b(f[1]);
  a.make_non_blocking(); b.make_non_blocking();
  bool nr = false, nw = false;
  for (int i = 0; i < 2; i++) {
    bool rd = mc::choose(2, "read"), wr = mc::choose(2, "write");
    a.shutdown(rd, wr);
    nr |= rd; nw |= wr;
    char x = 0;
    std::string s = how([&] { a.maybe_write("x", 1); });
    MC_CHECK(s == (nw ? "io" : "ok"), "wrong-end", "writing: " + s);
    s = how([&] { b.maybe_read(&x, 1); });
    MC_CHECK(s == (nw ? "eof" : "ok"), "wrong-end", "the peer reading: " + s);
    s = how([&] { a.maybe_read(&x, 1); });
    MC_CHECK(s == (nr ? "eof" : "again"), "wrong-end", "reading: " + s);
    if (!nr) {
      s = how([&] { b.maybe_write("y", 1); a.maybe_read(&x, 1); });
      MC_CHECK(s == "ok" && x == 'y', "wrong-end", "the peer writing: " + s);
    }
  }
  mc::nontrivial();
}
MC_SCENARIO("sockets", 0, 0) {
  // The kind of socket asked for, directly and through an address.
  warm();
  sched::opt().left_ok = true;
  int fam = mc::choose(2, "family") ? AF_INET6 : AF_INET;
  bool dgram = mc::choose(2, "datagram");
  int type = dgram ? SOCK_DGRAM : SOCK_STREAM, proto = dgram ? IPPROTO_UDP : IPPROTO_TCP;
  arpc::channel c;
  if (mc::choose(2, "way")) c = arpc::socket(fam, type, proto);
  else {
    vos::set_resolution("h:7", 0, {{fam, fam == AF_INET ? "10.0.0.1" : "fd00::1", 7, type, proto}});
    arpc::endpoint e; e.name("h").port(7);
    if (dgram) e.datagram();
    auto list = arpc::address_resolver::get().resolve(e);
    c = arpc::socket(*list.begin());
  }
  auto own = c.own_addr();
  MC_CHECK(own.family() == fam && own.socket_type() == type && own.protocol() == proto, "wrong-address", "");
  MC_CHECK(own.address_data()->sa_family == fam && own.address_size() == (fam == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)), "wrong-address", "size");
  MC_CHECK(how([&] { c.peer_addr(); }) == "io", "wrong-end", "the peer of nobody");
  mc::nontrivial();
}

// What files are opened on here answers like the real system.
MC_SCENARIO("system-files", 0, 0) { warm(); conform::files(mc::tier_pick(4, 5)); }
