// P07: byte adapters neither lose, reorder nor invent bytes.
#include <istream>
#include <ostream>
#include <string>
#include "arpc/errors.h"
#include "arpc/io_adapters.h"
#include "arpc/iostream_adapters.h"
#include "arpc/string_adapters.h"
#include "mc.h"
using std::string;
// A stream buffer that gives its bytes in pieces and then ends or fails.
struct PieceBuf : std::streambuf {
  string s; size_t p = 0; int piece; bool fails; char buf[8];
  PieceBuf(string x, int piece, bool fails) : s(x), piece(piece), fails(fails) {}
  int_type underflow() override {
    if (p >= s.size()) { if (fails) throw 1; return traits_type::eof(); }
    size_t n = std::min<size_t>(piece, s.size() - p); memcpy(buf, s.data() + p, n); p += n; setg(buf, buf, buf + n);
    return traits_type::to_int_type(buf[0]);
  }
};
struct OnlyGetc : arpc::input_stream {
  string s; size_t p = 0; explicit OnlyGetc(string x) : s(x) {}
  size_t read(char* q, size_t l) override { return arpc::input_stream::read(q, l); }
  char getc() override { if (p >= s.size()) throw arpc::errors::eof("EOF"); return s[p++]; }
};
struct FailGetc : OnlyGetc {   // an error that is not an end of input
  using OnlyGetc::OnlyGetc;
  char getc() override { if (p >= s.size()) throw arpc::errors::io_error("broken"); return s[p++]; }
};
struct OnlyRead : arpc::input_stream {
  string s; size_t p = 0; explicit OnlyRead(string x) : s(x) {}
  size_t read(char* q, size_t l) override { size_t n = std::min(l, s.size() - p); memcpy(q, s.data() + p, n); p += n; return n; }
  char getc() override { return arpc::input_stream::getc(); }
};
static void drive_input(arpc::input_stream& in, const string& s, size_t start, bool fails, int depth) {
  size_t p = start; bool broken = false;
  for (int i = 0; i < depth && !broken; i++) {
    int op = mc::choose(3, "op");
    static const int lens[] = {0, 1, 2, 3, 7};
    size_t n = op == 2 ? 1 : lens[mc::choose(5, "length")], left = s.size() - p;
    char buf[24]; memset(buf, '~', sizeof buf); char* q = buf + 8;
    int err = 0; size_t got = 0;
    try {
      if (op == 0) got = in.read(q, n);
      else if (op == 1) { in.read_fully(q, n); got = n; }
      else { *q = in.getc(); got = 1; }
    } catch (const arpc::errors::eof&) { err = 1; } catch (const arpc::errors::io_error&) { err = 2; }
    catch (const std::exception& e) { mc::fail("wrong-error", e.what()); }
    mc::trace("op %d n %zu left %zu -> got %zu err %d", op, n, left, got, err);
    for (int k = 0; k < 8; k++) MC_CHECK(buf[k] == '~' && q[n + k] == '~', "overrun", "bytes beyond the requested range were changed");
    if (n <= left) {
      MC_CHECK(!err && got == n && !memcmp(q, s.data() + p, n), op == 0 ? "read" : op == 1 ? "read-fully" : "getc", "got " + std::to_string(got) + " of " + std::to_string(n) + " available bytes, error " + std::to_string(err));
      p += n;
    } else if (fails) {
      MC_CHECK(err == 2, "io-error", "a failing stream was reported as " + std::to_string(err));
      broken = true;
    } else if (op == 0) {
      MC_CHECK(!err && got == left && !memcmp(q, s.data() + p, left), "short-read", "got " + std::to_string(got) + " of " + std::to_string(left));
      p = s.size();
    } else {
      MC_CHECK(err == 1, "eof", "the end of input was not reported as such");
      p = s.size();   // whatever was there has been used up
    }
  }
}
static string source() { string s; int n = mc::choose(6, "source length"); for (int i = 0; i < n; i++) s += "a\0\xff \n"[i]; return s; }
MC_SCENARIO("input") {
  string s = source(); int kind = mc::choose(11, "adapter"); int depth = mc::tier_pick(3, 4);
  if (kind == 0) { arpc::string_input_stream in(s); drive_input(in, s, 0, false, depth); }
  else if (kind == 1) {
    size_t at = mc::choose(int(s.size()) + 1, "start"); arpc::string_input_stream in(s, at);
    MC_CHECK(in.pos() == at, "pos", ""); drive_input(in, s, at, false, depth - 1); MC_CHECK(in.pos() <= s.size(), "pos", "");
  } else if (kind == 2) { OnlyGetc in(s); drive_input(in, s, 0, false, depth); }
  else if (kind == 3) { OnlyRead in(s); drive_input(in, s, 0, false, depth); }
  else if (kind == 4) { FailGetc in(s); drive_input(in, s, 0, true, depth); }
  else {
    static const int piece[] = {1, 2, 8}; bool fails = kind >= 8;
    PieceBuf b(s, piece[(kind - 5) % 3], fails); std::istream is(&b); arpc::istream_input_stream in(is);
    drive_input(in, s, 0, fails, depth);
  }
  mc::outcome(mc::hash_str(s) + kind); mc::nontrivial();
}
MC_SCENARIO("positions") {
  string s = source(); arpc::string_input_stream in(s); size_t p = 0;
  for (int i = 0; i < mc::tier_pick(3, 4); i++) {
    int to = mc::choose(8, "position"); bool threw = false;
    try { in.pos(to); p = to; } catch (const arpc::errors::out_of_range&) { threw = true; }
    MC_CHECK(threw == (size_t(to) > s.size()), "pos-range", ""); MC_CHECK(in.pos() == p, "pos", "");
    char c[4]; size_t n = in.read(c, 2); MC_CHECK(n == std::min<size_t>(2, s.size() - p) && !memcmp(c, s.data() + p, n), "read", ""); p += n; MC_CHECK(in.pos() == p, "pos", "");
  }
  bool threw = false; int at = mc::choose(9, "start");
  try { arpc::string_input_stream x(s, at); MC_CHECK(x.pos() == size_t(at), "pos", ""); } catch (const arpc::errors::out_of_range&) { threw = true; }
  MC_CHECK(threw == (size_t(at) > s.size()), "pos-range", "");
  mc::outcome(mc::hash_str(s) + p); mc::nontrivial();
}
// --- output -------------------------------------------------------------------
struct OnlyPutc : arpc::output_stream {
  string& s; size_t cap; OnlyPutc(string& x, size_t cap) : s(x), cap(cap) {}
  void write(const char* p, size_t l) override { arpc::output_stream::write(p, l); }
  void putc(char c) override { if (s.size() >= cap) throw arpc::errors::io_error("full"); s += c; }
  void flush() override {}
};
struct OnlyWrite : arpc::output_stream {
  string& s; size_t cap; OnlyWrite(string& x, size_t cap) : s(x), cap(cap) {}
  void write(const char* p, size_t l) override { if (s.size() + l > cap) throw arpc::errors::io_error("full"); s.append(p, l); }
  void putc(char c) override { arpc::output_stream::putc(c); }
  void flush() override {}
};
struct SinkBuf : std::streambuf {   // optionally buffers, and takes only so many bytes
  string& s; size_t cap; char buf[3]; bool buffered;
  SinkBuf(string& x, size_t cap, bool buffered) : s(x), cap(cap), buffered(buffered) { if (buffered) setp(buf, buf + 3); }
  bool drain() { size_t n = pptr() - pbase(); if (s.size() + n > cap) return false; s.append(pbase(), n); setp(buf, buf + 3); return true; }
  int_type overflow(int_type c) override {
    if (buffered) { if (!drain()) return traits_type::eof(); *pptr() = char(c); pbump(1); return c; }
    if (s.size() >= cap) return traits_type::eof();
    s += char(c); return c;
  }
  int sync() override { return buffered && !drain() ? -1 : 0; }
};
static void drive_output(arpc::output_stream& out, const string& sink, size_t cap, bool exact, int depth) {
  string want; bool failed = false;
  for (int i = 0; i < depth && !failed; i++) {
    int op = mc::choose(6, "op"); static const char data[] = "q\0\xffrstu"; size_t n = op < 4 ? (op == 3 ? 7 : op) : op == 4 ? 1 : 0;
    bool threw = false;
    try { if (op < 4) out.write(data, n); else if (op == 4) out.putc(data[2]); else out.flush(); }
    catch (const arpc::errors::io_error&) { threw = true; } catch (const std::exception& e) { mc::fail("wrong-error", e.what()); }
    if (op == 4) want += data[2]; else want.append(data, n);
    mc::trace("op %d -> %d sink %zu want %zu cap %zu", op, threw, sink.size(), want.size(), cap);
    if (exact) MC_CHECK(threw == (want.size() > cap), threw ? "refused" : "swallowed", "");
    if (threw) failed = true;
    MC_CHECK(sink.size() <= want.size() && sink == want.substr(0, sink.size()), "written", "the sink holds " + mc::hex(sink) + " of " + mc::hex(want));
    if (exact && !failed) MC_CHECK(sink == want, "written", "bytes are missing");
  }
  if (!failed && want.size() > cap) {
    bool threw = false;
    try { out.flush(); } catch (const arpc::errors::io_error&) { threw = true; }
    MC_CHECK(threw, "swallowed", "bytes were lost, and neither writing nor flushing them says so");
  }
  if (!failed && want.size() <= cap) { out.flush(); MC_CHECK(sink == want, "flushed", "bytes are missing after a flush"); }
}
MC_SCENARIO("output") {
  string sink; sink.reserve(64); int kind = mc::choose(5, "adapter"); size_t cap = kind == 0 ? 1000 : mc::choose(2, "limited") ? mc::choose(9, "capacity") : 1000; int depth = mc::tier_pick(3, 4);
  if (kind == 0) { arpc::string_output_stream o(sink); drive_output(o, sink, cap, true, depth); }
  else if (kind == 1) { OnlyPutc o(sink, cap); drive_output(o, sink, cap, true, depth); }
  else if (kind == 2) { OnlyWrite o(sink, cap); drive_output(o, sink, cap, true, depth); }
  else { SinkBuf b(sink, cap, kind == 4); std::ostream os(&b); { arpc::ostream_output_stream o(os); drive_output(o, sink, cap, kind == 3, depth); } }
  mc::outcome(mc::hash_str(sink) + kind * 100 + cap); mc::nontrivial();
}
MC_SCENARIO("adapter-destruction-flushes") {
  string sink; bool full = mc::choose(2, "full"); SinkBuf b(sink, full ? 0 : 1000, true); std::ostream os(&b);
  int n = mc::choose(3, "bytes");
  { arpc::ostream_output_stream o(os); o.write("ab", n); }
  MC_CHECK(sink == string("ab").substr(0, full ? 0 : n), "flushed", "bytes are missing after the adapter is gone");
  mc::outcome(sink); mc::nontrivial();
}
MC_SCENARIO("broken-before") {   // streams that are in an error state already take nothing, and say so
  string sink; SinkBuf b(sink, 1000, mc::choose(2, "buffered")); std::ostream os(&b);
  static const std::ios::iostate states[] = {std::ios::failbit, std::ios::badbit, std::ios::failbit | std::ios::badbit};
  os.setstate(states[mc::choose(3, "state")]);
  int op = mc::choose(3, "op"), threw = 0;
  {
    arpc::ostream_output_stream o(os);
    try { if (op == 0) o.write("abc", 3); else if (op == 1) o.write("a", 1); else o.putc('a'); } catch (const arpc::errors::io_error&) { threw = 1; }
  }
  MC_CHECK(threw, "swallowed", "bytes written to a broken stream were lost silently");
  MC_CHECK(sink.empty(), "written", "");
  mc::nontrivial();
}

MC_SCENARIO("scale") {
  // Transfers of every size, in pieces of every size.
  int n = mc::amount(mc::tier_pick(40, 300), mc::tier_pick(1 << 16, 1 << 18) + 1, "size"), piece = std::vector<int>{1, 7, 8, 4095, 4096, 1 << 20}[mc::choose(6, "at a time")], kind = mc::choose(5, "adapter"), whole = mc::choose(2, "whole"), extra = mc::choose(2, "more");
  if (n / piece > 70000) mc::prune();
  string s; for (int i = 0; i < n; i++) s += char(i * 3 + i / 251);
  std::vector<char> buf(n + 16, '~');
  std::unique_ptr<arpc::input_stream> in; std::unique_ptr<PieceBuf> pb; std::unique_ptr<std::istream> is;
  switch (kind) {
    case 0: in = std::make_unique<arpc::string_input_stream>(s); break;
    case 1: in = std::make_unique<OnlyGetc>(s); break;
    case 2: in = std::make_unique<OnlyRead>(s); break;
    default: pb = std::make_unique<PieceBuf>(s, kind == 3 ? 8 : 3, false); is = std::make_unique<std::istream>(pb.get()); in = std::make_unique<arpc::istream_input_stream>(*is);
  }
  size_t at = 0;
  while (at < size_t(n)) {
    size_t want = std::min<size_t>(piece, n - at), k = want;
    if (whole) in->read_fully(buf.data() + at, want); else k = in->read(buf.data() + at, want);
    MC_CHECK(k == want, "read", std::to_string(k) + " of " + std::to_string(want));
    at += k;
  }
  MC_CHECK(std::equal(s.begin(), s.end(), buf.begin()) && std::count(buf.begin() + n, buf.end(), '~') == 16, "read", "other bytes");
  if (extra) { bool over = false; try { in->read_fully(buf.data() + n, 1); } catch (const arpc::errors::eof&) { over = true; } MC_CHECK(over, "eof", ""); }
  string sink;
  auto put = [&](arpc::output_stream& out) {
    for (size_t i = 0; i < size_t(n); i += piece) { if (piece == 1 && whole) out.putc(s[i]); else out.write(s.data() + i, std::min<size_t>(piece, n - i)); }
    out.flush();
    MC_CHECK(sink == s, "written", std::to_string(sink.size()) + " of " + std::to_string(n));
    if (kind) { bool full = false; try { out.putc('x'); out.flush(); } catch (const arpc::errors::io_error&) { full = true; } MC_CHECK(full, "swallowed", ""); }
  };
  if (kind == 0) { arpc::string_output_stream o(sink); put(o); }
  else if (kind == 1) { OnlyPutc o(sink, n); put(o); }
  else if (kind == 2) { OnlyWrite o(sink, n); put(o); }
  else { SinkBuf b(sink, n, kind == 3); std::ostream os(&b); { arpc::ostream_output_stream o(os); put(o); } }
  mc::outcome(n * 100 + kind * 4 + whole * 2); mc::nontrivial();
}
