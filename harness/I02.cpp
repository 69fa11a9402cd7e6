// I02: channel reads and writes transfer exactly what they report.
#include "arpc/connection.h"
#include "arpc/file.h"
#include "arpc/pipe.h"
#include "ah.h"
#include "conform.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <signal.h>
using namespace ah;

namespace {
// The stream is a fixed sequence, so that any loss, repetition or reordering shows.
char at(size_t i) { return char('a' + i % 23); }
std::string piece(size_t from, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += at(from + i); return s; }
struct Ends {
  arpc::channel r, w;
  explicit Ends(int kind, size_t capacity) {
    sched::NoPreempt np;
    vos::cfg().pipe_capacity = vos::cfg().socket_capacity = capacity;
    if (kind == 0) { arpc::channel p[2]; arpc::pipe(p); r = std::move(p[0]); w = std::move(p[1]); }
    else { int f[2]; vos::socketpair(f); r.reset(f[0]); w.reset(f[1]); }
    vos::cfg().pipe_capacity = 65536;
  }
};
void check_read(const char* b, size_t n, size_t asked, size_t& pos, size_t written) {
  MC_CHECK(n <= asked, "wrong-count", "read reports more than asked for");
  for (size_t i = 0; i < n; i++) MC_CHECK(b[i] == at(pos + i), "wrong-data", "byte " + std::to_string(pos + i));
  pos += n;
  (void)written;
}
}  // namespace

// A writer and a reader move a short stream through a tiny channel, whatever the system answers.
static void stream(bool faults) {
  warm();
  sched::opt().timers = false;
  int kind = mc::choose(2, "kind");
  Ends e(kind, 3);
  bool nb = mc::choose(2, "non-blocking");
  if (nb) { sched::NoPreempt np; e.r.make_non_blocking(); e.w.make_non_blocking(); }
  static const size_t kAsk[] = {1, 3, 7};
  size_t total = 5, ask_r = mc::pick(kAsk, "read size"), ask_w = mc::pick(kAsk, "write size");
  size_t wrote = 0, got = 0;
  std::string wend = "ok", rend;
  if (faults) {
    uint32_t rw = vos::kRead | vos::kWrite;
    vos::cfg().shorten = rw; vos::cfg().again = rw; vos::cfg().intr = rw;
  }
  std::thread th([&] {
    std::string data = piece(0, total);
    wend = how([&] {
      while (wrote < total) {
        size_t n = e.w.write(data.data() + wrote, std::min(ask_w, total - wrote));
        MC_CHECK(n >= 1 && n <= std::min(ask_w, total - wrote), "wrong-count", "write reports " + std::to_string(n));
        wrote += n;
      }
    });
    e.w.close();
  });
  rend = how([&] {
    while (true) {
      char b[8];
      memset(b, '?', 8);
      size_t n = e.r.read(b, ask_r);
      MC_CHECK(n >= 1, "wrong-count", "nothing read");
      check_read(b, n, ask_r, got, wrote);
      for (size_t i = n; i < 8; i++) MC_CHECK(b[i] == '?', "wrong-data", "written past the bytes reported");
    }
  });
  th.join();
  MC_CHECK(wend == "ok", "wrong-end", "writer " + wend);
  MC_CHECK(rend == "eof", "wrong-end", "reader " + rend);
  MC_CHECK(wrote == total && got == total, "lost", std::to_string(got) + " of " + std::to_string(wrote));
  mc::nontrivial();
}
MC_SCENARIO("stream", 3, 4) { stream(false); }
MC_SCENARIO("stream-with-deviations", 3, 4) { stream(true); }

MC_SCENARIO("without-waiting", 2, 3) {
  // The forms that do not wait: every state of the channel, every length, with every answer of the system.
  warm();
  int kind = mc::choose(2, "kind");
  Ends e(kind, 4);
  e.r.make_non_blocking(); e.w.make_non_blocking();
  size_t held = mc::choose(5, "held");
  if (held) { std::string s = piece(0, held); if (::write(*e.w, s.data(), held) != (ssize_t)held) mc::fail("harness", "fill"); }
  int peer_gone = mc::choose(2, "peer gone");
  size_t len = mc::choose(6, "length");
  bool read = mc::choose(2, "direction");
  if (peer_gone) { if (read) e.w.close(); else e.r.close(); }
  uint32_t rw = vos::kRead | vos::kWrite;
  vos::cfg().fail = vos::cfg().shorten = vos::cfg().again = vos::cfg().intr = rw;
  vos::record_calls(true);
  size_t mark = vos::calls().size();
  char b[8]; memset(b, '?', 8);
  size_t n = 0, pos = 0;
  std::string s = piece(held, len);
  std::string r = how([&] { n = read ? e.r.maybe_read(b, len) : e.w.maybe_write(s.data(), len); });
  // What the system answered last decides.
  vos::cfg() = vos::Config();
  auto& calls = vos::calls();
  vos::record_calls(false);
  MC_CHECK(calls.size() > mark, "no-call", "");
  auto last = calls.back();
  size_t moved = 0;
  for (size_t i = mark; i < calls.size(); i++) if (calls[i].result > 0 && (calls[i].name == "read" || calls[i].name == "write")) moved += calls[i].result;
  if (last.result < 0) MC_CHECK(r == (last.err == EAGAIN || last.err == EINTR ? "again" : "io"), "wrong-end", r + " for error " + std::to_string(last.err));
  else if (read && last.result == 0 && len > 0) MC_CHECK(r == "eof", "wrong-end", r + " at the end of file");
  else MC_CHECK(r == "ok" && n == size_t(last.result), "wrong-count", r + " " + std::to_string(n) + " instead of " + std::to_string(last.result));
  if (r != "ok") MC_CHECK(moved == 0, "lost", "bytes moved and not reported");
  if (read) {
    if (r == "ok") check_read(b, n, len, pos, held);
    for (size_t i = n; i < 8; i++) MC_CHECK(b[i] == '?', "wrong-data", "written past the bytes reported");
    // The rest is still there.
    size_t left = 0; char c[8]; ssize_t k;
    while ((k = ::read(*e.r, c, 8)) > 0) { for (ssize_t i = 0; i < k; i++) MC_CHECK(c[i] == at(n + left + i), "wrong-data", "the rest"); left += k; }
    MC_CHECK(n + left == held, "lost", "");
  } else if (!peer_gone) {
    size_t there = 0; char c[16]; ssize_t k;
    while ((k = ::read(*e.r, c, 16)) > 0) { for (ssize_t i = 0; i < k; i++) MC_CHECK(c[i] == at(there + i), "wrong-data", "written"); there += k; }
    MC_CHECK(there == held + n, "wrong-count", "written");
  }
  mc::outcome(r);
  mc::nontrivial();
}

MC_SCENARIO("ends-meanwhile", 3, 4) {
  // A blocked transfer ends with its context, its peer or an event next to it; nothing unreported is lost.
  warm();
  sched::opt().timers = false;
  int kind = mc::choose(2, "kind");
  Ends e(kind, 2);
  e.r.make_non_blocking(); e.w.make_non_blocking();
  bool read = mc::choose(2, "direction");
  int why = mc::choose(5, "why");    // cancelled, deadline, peer closes, other event, both transfer and cancel
  size_t held = 0, reported = 0;
  if (!read) { if (::write(*e.w, piece(0, 2).data(), 2) != 2) mc::fail("harness", "fill"); held = 2; }
  arpc::context group(arpc::context::current(), false);
  arpc::flag other;
  std::string r;
  bool selected_other = false;
  std::thread th([&] {
    arpc::context mine(group);
    if (why == 1) mine.set_timeout(ms(2));
    char b[4]; std::string s = piece(held, 2);
    r = how([&] {
      if (why == 3) {
        auto [n, o] = arpc::select(read ? e.r.async_read(b, 4) : e.w.async_write(s.data(), 2), other.async_wait());
        if (n) reported = *n;
        if (o) selected_other = true;
        MC_CHECK(n || o, "nothing-reported", "");
      } else reported = read ? e.r.read(b, 4) : e.w.write(s.data(), 2);
    });
    if (read) for (size_t i = 0; i < reported; i++) MC_CHECK(b[i] == at(i), "wrong-data", "");
  });
  if (mc::choose(2, "waiting")) sched::wait_quiet();
  bool peer_acts = why == 4 || (why != 2 && mc::choose(2, "peer acts"));
  size_t peer_wrote = 0, peer_read = 0;
  auto act = [&] {
    if (read) { if (::write(*e.w, piece(0, 1).data(), 1) == 1) peer_wrote = 1; }
    else { char c[2]; if (::read(*e.r, c, 1) == 1) { MC_CHECK(c[0] == at(0), "wrong-data", "peer"); peer_read = 1; } }
  };
  bool act_first = peer_acts && mc::choose(2, "peer first");
  if (act_first) act();
  if (why == 0 || why == 4) group.cancel();
  if (why == 1) sched::sleep_ms(3);
  if (why == 2) { if (read) e.w.close(); else e.r.close(); }
  if (why == 3) other.set();
  if (peer_acts && !act_first) act();
  th.join();
  if (r == "ok") MC_CHECK(reported > 0 || selected_other, "wrong-count", "");
  else {
    MC_CHECK(r == (why == 0 || why == 4 ? "cancelled" : why == 1 ? "deadline" : read ? "eof" : "io"), "wrong-end", r);
    MC_CHECK(reported == 0, "harness", "");
  }
  // Count what is left in the channel: it and what was reported are all that was written.
  if (why != 2) {
    char c[8]; ssize_t k; size_t left = 0;
    size_t from = read ? reported : peer_read;
    while ((k = ::read(*e.r, c, 8)) > 0) { for (ssize_t i = 0; i < k; i++) MC_CHECK(c[i] == at(from + left + i), "wrong-data", "the rest"); left += k; }
    size_t in = read ? peer_wrote : held + reported, out = read ? reported : peer_read;
    MC_CHECK(in == out + left, "lost", std::to_string(in) + " in, " + std::to_string(out) + " out, " + std::to_string(left) + " left");
  }
  mc::outcome(r + std::to_string(reported));
  mc::nontrivial();
}

MC_SCENARIO("several-readers", 3, 4) {
  // Two readers (or two writers) on one channel: each byte goes once.
  warm();
  sched::opt().timers = false;
  Ends e(mc::choose(2, "kind"), 2);
  e.r.make_non_blocking(); e.w.make_non_blocking();
  bool writers = mc::choose(2, "writers");
  std::string got[2];
  std::vector<std::thread> th;
  if (!writers) {
    for (int i = 0; i < 2; i++) th.emplace_back([&, i] { char b[2]; std::string r = how([&] { while (true) { size_t n = e.r.read(b, 2); got[i].append(b, n); } }); MC_CHECK(r == "eof", "wrong-end", r); });
    size_t sent = 0; std::string s = piece(0, 3);
    while (sent < 3) sent += e.w.write(s.data() + sent, 3 - sent);
    e.w.close();
    for (auto& t : th) t.join();
    std::string all = got[0] + got[1]; std::sort(all.begin(), all.end());
    MC_CHECK(all == "abc", "lost", got[0] + "|" + got[1]);
    for (auto& g : got) MC_CHECK(std::is_sorted(g.begin(), g.end()), "wrong-order", g);
  } else {
    for (int i = 0; i < 2; i++) th.emplace_back([&, i] { std::string s(2, char('x' + i)); size_t sent = 0; while (sent < 2) sent += e.w.write(s.data() + sent, 2 - sent); });
    std::string all; char b[4];
    while (all.size() < 4) all.append(b, e.r.read(b, 4));
    for (auto& t : th) t.join();
    std::sort(all.begin(), all.end());
    MC_CHECK(all == "xxyy", "lost", all);
  }
  mc::nontrivial();
}

// Whole transfers, through a connection over a channel.
MC_SCENARIO("whole-transfers", 3, 4) {
  warm();
  sched::opt().timers = false;
  Ends e(1, 3);
  size_t n = 1 + mc::choose(5, "size");
  size_t m = 1 + mc::choose(5, "read size");
  uint32_t rw = vos::kRead | vos::kWrite;
  arpc::channel_connection a(std::move(e.w)), b(std::move(e.r));
  vos::cfg().shorten = vos::cfg().again = vos::cfg().intr = rw;
  std::string got, rend, wend;
  std::thread th([&] { std::string s = piece(0, n); wend = how([&] { a.write(s.data(), n); }); vos::cfg().intr = vos::cfg().again = 0; a.disconnect(); });
  rend = how([&] {
    while (true) {
      char c[8];
      size_t k = b.read(c, m);
      MC_CHECK(k == m, "wrong-count", std::to_string(k) + " of " + std::to_string(m));
      got.append(c, k);
    }
  });
  th.join();
  MC_CHECK(wend == "ok", "wrong-end", wend);
  MC_CHECK(rend == "eof" || rend == "io", "wrong-end", rend);
  // The bytes of an incomplete last transfer may go with the error.
  MC_CHECK(got.size() == n / m * m && got == piece(0, got.size()), "wrong-data", got);
  mc::nontrivial();
}

MC_SCENARIO("broken-pipe", 0, 0) {
  // Writing to a peer that is gone is an error, not the end of the process.
  struct sigaction sa;
  MC_CHECK(sigaction(SIGPIPE, nullptr, &sa) == 0 && sa.sa_handler == SIG_IGN, "killed", "SIGPIPE is not ignored");
  mc::nontrivial();
}

// What the channels run on here answers like the real system.
MC_SCENARIO("system-pipes", 0, 0) { warm(); conform::streams(false, mc::tier_pick(4, 5)); }
MC_SCENARIO("system-sockets", 0, 0) { warm(); conform::streams(true, mc::tier_pick(4, 5)); }

MC_SCENARIO("scale", 0, 0) {
  // Transfers of every size, in pieces of every size, through channels of every size.
  warm(); sched::opt().timers = false; sched::NoPreempt np; sched::opt().max_steps = 4000000;
  static const size_t kCap[] = {3, 100, 4096, 65536};
  size_t n = amount(mc::tier_pick(10, 40), mc::tier_pick(1 << 17, 1 << 20) + 1, "size"), cap = mc::pick(kCap, "capacity");
  if (n > cap * 3000) mc::prune();
  static const size_t kPiece[] = {1, 7, 4095, 4096, 4097, 65536, 1 << 21};
  size_t wp = mc::pick(kPiece, "written in"), rp = mc::pick(kPiece, "read in");
  if (n > std::min(wp, rp) * 5000) mc::prune();
  Ends e(mc::choose(2, "kind"), cap);
  bool whole = mc::choose(2, "whole");
  std::string data = piece(0, n), got;
  if (whole) {
    arpc::channel_connection a(std::move(e.w)), b(std::move(e.r));
    std::thread th([&] { for (size_t at = 0; at < n; at += wp) a.write(data.data() + at, std::min(wp, n - at)); a.flush(); });
    std::vector<char> c(std::min(rp, n + 1));
    while (got.size() < n) { size_t want = std::min(rp, n - got.size()), k = b.read(c.data(), want); MC_CHECK(k == want, "wrong-count", ""); got.append(c.data(), k); }
    th.join();
    a.disconnect();
  } else {
    std::thread th([&] { size_t at = 0; while (at < n) { size_t k = e.w.write(data.data() + at, std::min(wp, n - at)); MC_CHECK(k >= 1 && k <= std::min(wp, n - at), "wrong-count", ""); at += k; } e.w.close(); });
    std::vector<char> c(std::min(rp, n + 1));
    std::string end = how([&] { while (true) { size_t k = e.r.read(c.data(), c.size()); MC_CHECK(k >= 1 && k <= c.size(), "wrong-count", ""); got.append(c.data(), k); } });
    th.join();
    MC_CHECK(end == "eof", "wrong-end", end);
  }
  MC_CHECK(got == data, "wrong-data", std::to_string(got.size()) + " of " + std::to_string(n));
  mc::nontrivial();
}
