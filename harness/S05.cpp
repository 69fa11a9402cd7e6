// S05: only registered, compatible classes are instantiated from input.
#include <memory>
#include <string>
#include <vector>
#include "arpc/binary_codecs.h"
#include "arpc/serializable.h"
#include "arpc/string_adapters.h"
#include "mc.h"
struct A : arpc::dynamic<A> { uint8_t a = 0; ARPC_FIELDS(a); };
struct B : arpc::dynamic<B, A> { uint8_t b = 0; ARPC_FIELDS(b); };
// (Some have other bases before those, so that pointers to them and to their bases differ.)
struct Foreign { virtual ~Foreign() = default; uint64_t foreign = 0x123456789abcdef0; };
struct C : Foreign, arpc::dynamic<C, B> { uint8_t c = 0; ARPC_FIELDS(c); };
struct S : Foreign, arpc::dynamic<S, A> { uint16_t s = 0; ARPC_FIELDS(s); };   // sibling of B
struct X : arpc::dynamic<X> { uint8_t x = 0; ARPC_FIELDS(x); };       // unrelated, same structure as A
ARPC_REGISTER(A); ARPC_REGISTER(B); ARPC_REGISTER(C); ARPC_REGISTER(S); ARPC_REGISTER_WITH_NAME("ns::X", X);
struct N1 : arpc::serializable<N1> { uint8_t n = 0; ARPC_FIELDS(n); };
struct N2 : arpc::serializable<N2> { uint8_t n = 0; ARPC_FIELDS(n); };

enum { kA, kB, kC, kS, kX, kN1, kN2, kClasses };
static const char* const kNames[] = {"A", "B", "C", "S", "ns::X"};
static const int kBytes[] = {1, 2, 3, 3, 1, 1, 1};
static uint32_t hash_of(int c) {
  switch (c) {
    case kA: return arpc::traits::type_hash_v<A>; case kB: return arpc::traits::type_hash_v<B>; case kC: return arpc::traits::type_hash_v<C>;
    case kS: return arpc::traits::type_hash_v<S>; default: return arpc::traits::type_hash_v<X>;
  }
}
static bool derives(int c, int base) {
  if (c == base) return true;
  switch (base) { case kA: return c == kB || c == kC || c == kS; case kB: return c == kC; default: return false; }
}
// Names offered in the input; the first five are registered.
static const std::string kOffered[] = {"A", "B", "C", "S", "ns::X", "U", "", "N1", "a", "AA", std::string("A\0", 2), std::string("B\0junk", 6), "X", "arpc::dynamic_base_class"};

static void put_num(std::string& o, size_t n) { while (n > 127) { o += char(0x80 | (n & 127)); n >>= 7; } o += char(n); }
static void put_hash(std::string& o, uint32_t h) { for (int i = 0; i < 4; i++) o += char(h >> (8 * i)); }
static void put_body(std::string& o, int cls, int salt) { for (int i = 0; i < kBytes[cls]; i++) o += char(salt * 16 + i + 1); }

template <typename T> static std::string describe(const T* p) {
  if (!p) return "null";
  return std::string(p->portable_class_name());
}
struct Ref {                       // what a correct decoder knows
  std::vector<int> classes;        // class of each class id
  std::vector<int> objects{-1};    // class of each object id (kN1/kN2 for plain ones)
  std::vector<int> ptr_type{-1};   // the pointer type it was first read through
};
struct Outcome { bool ok; int cls; int id; };   // id 0: null

// Appends one pointer record to `out`; decides what must happen.
static Outcome record(std::string& out, Ref& r, int target, bool shared, int salt, int detail) {
  bool plain = target >= kN1;
  if (shared) {
    static const size_t ids[] = {0, 1, 2, 3, 4, 127, 128, 300};
    size_t id = ids[mc::choose(detail ? 8 : 5, "object id")];
    put_num(out, id);
    if (id == 0) return {true, -1, 0};
    if (id > r.objects.size()) return {false, -1, 0};
    if (id < r.objects.size()) {
      int c = r.objects[id];
      bool ok = c >= 0 && (plain ? c == target : (c < kN1 && derives(c, target)));
      return {ok, c, int(id)};
    }
  } else {
    bool present = mc::choose(2, "present");
    out += char(present);
    if (!present) return {true, -1, 0};
  }
  int cls = target;
  if (!plain) {
    static const size_t ids[] = {0, 1, 2, 128};
    size_t id = ids[mc::choose(detail ? 4 : 3, "class id")];
    put_num(out, id);
    if (id > r.classes.size()) return {false, -1, 0};
    if (id == r.classes.size()) {
      int n = mc::choose(detail ? int(std::size(kOffered)) : 8, "name");
      put_num(out, kOffered[n].size()); out += kOffered[n];
      int h = n < 5 ? mc::choose(detail ? 5 : 3, "fingerprint") : 0;
      int other = n == kA ? kB : kA;
      uint32_t hv = hash_of(n < 5 ? n : kA);
      uint32_t given = h == 0 ? hv : h == 1 ? hv ^ 1 : h == 2 ? hash_of(other) : h == 3 ? hv ^ 0x80000000u : 0;
      put_hash(out, given);
      if (n >= 5 || given != hv) return {false, -1, 0};
      r.classes.push_back(n);
    }
    cls = r.classes[id];
    if (!derives(cls, target)) return {false, -1, 0};
  }
  int obj = 0;
  if (shared) { r.objects.push_back(cls); r.ptr_type.push_back(target); obj = int(r.objects.size()) - 1; }
  put_body(out, cls, salt);
  return {true, cls, obj};
}
struct Holder { std::shared_ptr<void> sp; const void* raw = nullptr; std::string cls; std::string body; };
static std::string body_of(const arpc::dynamic_base_class* p) {
  if (!p) return "";
  std::string n(p->portable_class_name()), r;
  auto a = [&](const A* x) { r += char(x->a); };
  if (n == "A") a(static_cast<const A*>(p));
  if (n == "B") { auto x = static_cast<const B*>(p); a(x); r += char(x->b); }
  if (n == "C") { auto x = static_cast<const C*>(p); a(x); r += char(x->b); r += char(x->c); }
  if (n == "S") { auto x = static_cast<const S*>(p); a(x); r += char(x->s); r += char(x->s >> 8); }
  if (n == "ns::X") r += char(static_cast<const X*>(p)->x);
  return r;
}
template <typename D, typename T> static void dec_dyn(D& d, int kind, Holder& h) {
  if (kind == 0) { std::shared_ptr<T> p; struct Out { Holder& h; std::shared_ptr<T>& p; ~Out() { h.sp = p; h.raw = static_cast<const arpc::dynamic_base_class*>(p.get()); h.cls = describe(p.get()); h.body = body_of(p.get()); } } o{h, p}; d(p); }
  else if (kind == 1) { std::unique_ptr<T> p; struct Out { Holder& h; std::unique_ptr<T>& p; ~Out() { h.raw = static_cast<const arpc::dynamic_base_class*>(p.get()); h.cls = describe(p.get()); h.body = body_of(p.get()); h.sp = std::move(p); } } o{h, p}; d(p); }
  else { std::weak_ptr<T> w; struct Out { Holder& h; std::weak_ptr<T>& w; ~Out() { auto p = w.lock(); h.sp = p; h.raw = static_cast<const arpc::dynamic_base_class*>(p.get()); h.cls = describe(p.get()); h.body = body_of(p.get()); } } o{h, w}; d(w); }
}
template <typename D, typename T> static void dec_plain(D& d, int kind, Holder& h, const char* name) {
  if (kind == 1) { std::unique_ptr<T> p; d(p); h.raw = p.get(); h.cls = p ? name : "null"; if (p) h.body = char(p->n); h.sp = std::move(p); return; }
  std::shared_ptr<T> p;
  if (kind == 0) d(p); else { std::weak_ptr<T> w; d(w); p = w.lock(); }
  h.sp = p; h.raw = p.get(); h.cls = p ? name : "null"; if (p) h.body = char(p->n);
}
static void dec(arpc::little_endian_binary_decoder& d, int target, int kind, Holder& h) {
  using D = arpc::little_endian_binary_decoder;
  switch (target) {
    case kA: dec_dyn<D, A>(d, kind, h); break; case kB: dec_dyn<D, B>(d, kind, h); break; case kC: dec_dyn<D, C>(d, kind, h); break;
    case kS: dec_dyn<D, S>(d, kind, h); break; case kX: dec_dyn<D, X>(d, kind, h); break;
    case kN1: dec_plain<D, N1>(d, kind, h, "N1"); break; case kN2: dec_plain<D, N2>(d, kind, h, "N2"); break;
  }
}
static int class_by_name(const std::string& n) { for (int i = 0; i < kN1; i++) if (n == kNames[i]) return i; return n == "N1" ? kN1 : n == "N2" ? kN2 : -1; }
// Sequences of records; decoding stops at the first rejection, or (when
// `go_on`) the same decoder is used for the next one, which must stay safe.
static void sequence(int n, int detail, const std::vector<int>& targets, bool go_on) {
  std::string buf; Ref ref; arpc::string_input_stream in(buf); arpc::little_endian_binary_decoder d(in);
  std::vector<Holder> objs(1);
  std::vector<Holder> keep;
  bool failed = false;
  for (int i = 0; i < n; i++) {
    int target = mc::pick(targets, "pointer type");
    int kind = mc::choose(3, "pointer kind");
    buf.resize(in.pos());
    size_t before = ref.objects.size();
    Outcome want = record(buf, ref, target, kind != 1, i + 1, detail);
    if (!want.ok) buf.append(8, '\1');   // a rejection is never just for lack of input
    mc::trace("record %d: target %d kind %d bytes %s must %s", i, target, kind, mc::hex(buf.substr(in.pos())).c_str(), want.ok ? "succeed" : "fail");
    Holder h; bool threw = false;
    try { dec(d, target, kind, h); }
    catch (const arpc::errors::base_error& e) { threw = true; }
    // An object of a class that does not fit the pointer must not exist.
    if (h.cls != "null" && !h.cls.empty()) {
      int c = class_by_name(h.cls);
      MC_CHECK(c >= 0 && derives(c, target), "incompatible", "pointer to class " + std::to_string(target) + " holds a " + h.cls);
    }
    keep.push_back(h);
    if (failed) { if (threw) continue; continue; }
    if (!want.ok) {
      MC_CHECK(threw, "accepted", "a wrong record was accepted (class " + h.cls + ")");
      failed = true; mc::nontrivial(); mc::outcome(buf);
      if (!go_on) return;
      continue;
    }
    MC_CHECK(!threw, "rejected", "a correct record was rejected");
    MC_CHECK(in.pos() == buf.size(), "consumed", "a correct record was not consumed");
    if (want.cls < 0) { MC_CHECK(h.cls == "null", "null", "null came back as an object"); continue; }
    MC_CHECK(class_by_name(h.cls) == want.cls, "class", "wanted class " + std::to_string(want.cls) + " got " + h.cls);
    if (kind != 1) {
      if (ref.objects.size() > before) { objs.push_back(h); std::string b; put_body(b, want.cls, i + 1); MC_CHECK(h.body == b, "contents", "contents"); }
      else MC_CHECK(objs[want.id].raw == h.raw && objs[want.id].body == h.body, "identity", "a repeated id gave another object");
    }
    mc::outcome(buf);
  }
  mc::nontrivial();
}
static const std::vector<int> all_targets{kA, kB, kC, kS, kX, kN1, kN2}, few_targets{kA, kB, kN1}, two_targets{kB, kX};
MC_SCENARIO("one-record") { sequence(1, 1, all_targets, false); }
MC_SCENARIO("two-records") { sequence(2, mc::tier_pick(0, 1), all_targets, false); }
MC_SCENARIO("three-records") { sequence(3, 0, few_targets, false); }
MC_SCENARIO("reuse-after-error") { sequence(2, 0, all_targets, true); }
MC_SCENARIO("reuse-after-error-3", 0, 0, true) { sequence(3, 0, two_targets, true); }
