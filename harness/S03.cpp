// S03: shared object graphs keep their shape through encoding.
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>
#include "arpc/binary_codecs.h"
#include "arpc/serializable.h"
#include "arpc/string_adapters.h"
#include "mc.h"
using arpc::big_endian_binary_encoder; using arpc::big_endian_binary_decoder;
using arpc::little_endian_binary_encoder; using arpc::little_endian_binary_decoder;

static void put_num(std::string& o, size_t n) { while (n > 127) { o += char(0x80 | (n & 127)); n >>= 7; } o += char(n); }

// --- plain nodes ------------------------------------------------------------
struct Node : arpc::serializable<Node> {
  uint8_t tag = 0;
  std::shared_ptr<Node> s;
  std::weak_ptr<Node> w;
  std::unique_ptr<std::shared_ptr<Node>> u;
  ARPC_FIELDS(tag, s, w, u);
};
// Reference encoding: ids in order of first appearance, each object once.
struct NodeRef {
  std::map<const Node*, size_t> ids; std::string out;
  void ptr(const std::shared_ptr<Node>& p) {
    if (!p) { put_num(out, 0); return; }
    auto it = ids.find(p.get());
    if (it != ids.end()) { put_num(out, it->second); return; }
    size_t id = ids.size() + 1; ids[p.get()] = id; put_num(out, id);
    out += char(p->tag); ptr(p->s); ptr(p->w.lock());
    out += char(p->u ? 1 : 0); if (p->u) ptr(*p->u);
  }
};
struct NodeIso {
  std::map<const Node*, const Node*> fwd, back;
  void ptr(const std::shared_ptr<Node>& a, const std::shared_ptr<Node>& b) {
    MC_CHECK(!a == !b, "null", "a null pointer changed");
    if (!a) return;
    auto f = fwd.find(a.get()); auto g = back.find(b.get());
    if (f == fwd.end() && g == back.end()) {
      fwd[a.get()] = b.get(); back[b.get()] = a.get();
      MC_CHECK(a->tag == b->tag, "contents", "object contents changed");
      ptr(a->s, b->s); ptr(a->w.lock(), b->w.lock());
      MC_CHECK(!a->u == !b->u, "null", "owned pointer changed");
      if (a->u) ptr(*a->u, *b->u);
      return;
    }
    MC_CHECK(f != fwd.end() && g != back.end() && f->second == b.get() && g->second == a.get(), "sharing", "sharing of objects changed");
  }
};
template <typename Enc, typename Dec>
static void plain_roundtrip(const std::vector<std::shared_ptr<Node>>& roots, bool together) {
  std::string out; arpc::string_output_stream os(out);
  { Enc e(os); if (together) e(roots); else for (auto& r : roots) e(r); }
  NodeRef ref; if (together) put_num(ref.out, roots.size());
  for (auto& r : roots) ref.ptr(r);
  mc::trace("bytes %s reference %s", mc::hex(out).c_str(), mc::hex(ref.out).c_str());
  MC_CHECK(out == ref.out, "layout", "encoding " + mc::hex(out) + " expected " + mc::hex(ref.out));
  arpc::string_input_stream in(out); Dec d(in);
  std::vector<std::shared_ptr<Node>> got;
  try {
    if (together) d(got);
    else { got.resize(roots.size()); for (auto& g : got) d(g); }
  } catch (const std::exception& e) { mc::fail("threw", e.what()); }
  MC_CHECK(got.size() == roots.size() && in.pos() == out.size(), "consumed", "wrong number of bytes or roots");
  NodeIso iso;
  for (size_t i = 0; i < roots.size(); i++) iso.ptr(roots[i], got[i]);
  mc::outcome(out); mc::nontrivial();
}
static void link(Node& n, int field, int kind, const std::shared_ptr<Node>& to) {
  (void)field;
  if (kind == 0) n.s = to; else if (kind == 1) n.w = to; else n.u = std::make_unique<std::shared_ptr<Node>>(to);
}
static void plain(int n, int kinds, bool big) {
  std::vector<std::shared_ptr<Node>> v(n);
  for (int i = 0; i < n; i++) { v[i] = std::make_shared<Node>(); v[i]->tag = uint8_t(i * 3 + 1); }
  for (int i = 0; i < n; i++) for (int k = 0; k < kinds; k++) {
    int j = mc::choose(k == 2 ? n + 2 : n + 1, "edge");
    if (j == n + 1) v[i]->u = std::make_unique<std::shared_ptr<Node>>();
    else if (j) link(*v[i], 0, k, v[j - 1]);
  }
  std::vector<std::shared_ptr<Node>> roots{v[0]};
  int extra = mc::choose(3, "second root");
  if (extra == 1) roots.push_back(v[n - 1]);
  if (extra == 2) { roots.push_back(nullptr); roots.push_back(v[0]); }
  bool together = mc::choose(2, "together");
  if (big) plain_roundtrip<big_endian_binary_encoder, big_endian_binary_decoder>(roots, together);
  else plain_roundtrip<little_endian_binary_encoder, little_endian_binary_decoder>(roots, together);
  for (auto& p : v) { p->s.reset(); p->u.reset(); }
}
MC_SCENARIO("plain-2x3") { plain(1 + mc::choose(2, "nodes"), 3, mc::choose(2, "big")); }
MC_SCENARIO("plain-3x2") { plain(3, 2, mc::choose(2, "big")); }
MC_SCENARIO("plain-3x3", 0, 0, true) { plain(3, 3, false); }
MC_SCENARIO("plain-4x1") { plain(4, 1, true); }
MC_SCENARIO("plain-4x2", 0, 0, true) { plain(4, 2, true); }

// --- polymorphic nodes --------------------------------------------------------
struct PBase : arpc::dynamic<PBase> {
  uint8_t tag = 0; std::shared_ptr<PBase> s; std::weak_ptr<PBase> w;
  ARPC_FIELDS(tag, s, w);
};
struct PMid : arpc::dynamic<PMid, PBase> { uint16_t extra = 0; std::shared_ptr<PMid> m; ARPC_FIELDS(extra, m); };
struct Mixed : arpc::serializable<Mixed> { uint8_t mixed = 0; ARPC_FIELDS(mixed); };
struct PLeaf : arpc::dynamic<PLeaf, Mixed, PMid> { std::string text; std::unique_ptr<PBase> own; ARPC_FIELDS(text, own); };
struct PSide : arpc::dynamic<PSide, PBase> { std::weak_ptr<PLeaf> l; ARPC_FIELDS(l); };
ARPC_REGISTER(PBase); ARPC_REGISTER(PMid); ARPC_REGISTER(PLeaf); ARPC_REGISTER_WITH_NAME("side::name", PSide);

struct PIso {
  std::map<const PBase*, const PBase*> fwd, back;
  void body(const PBase& a, const PBase& b) {
    MC_CHECK(a.portable_class_name() == b.portable_class_name(), "class", "dynamic class changed");
    MC_CHECK(a.tag == b.tag, "contents", "contents changed");
    ptr(a.s.get(), b.s.get()); ptr(a.w.lock().get(), b.w.lock().get());
    std::string n(a.portable_class_name());
    if (n == "PMid" || n == "PLeaf") {
      auto& x = static_cast<const PMid&>(a); auto& y = static_cast<const PMid&>(b);
      MC_CHECK(x.extra == y.extra, "contents", "contents of a derived class changed"); ptr(x.m.get(), y.m.get());
    }
    if (n == "PLeaf") {
      auto& x = static_cast<const PLeaf&>(a); auto& y = static_cast<const PLeaf&>(b);
      MC_CHECK(x.text == y.text && x.mixed == y.mixed, "contents", "contents of a derived class changed"); ptr(x.own.get(), y.own.get());
    }
    if (n == "side::name") ptr(static_cast<const PSide&>(a).l.lock().get(), static_cast<const PSide&>(b).l.lock().get());
  }
  void ptr(const PBase* a, const PBase* b) {
    MC_CHECK(!a == !b, "null", "a null pointer changed");
    if (!a) return;
    auto f = fwd.find(a); auto g = back.find(b);
    if (f == fwd.end() && g == back.end()) { fwd[a] = b; back[b] = a; body(*a, *b); return; }
    MC_CHECK(f != fwd.end() && g != back.end() && f->second == b && g->second == a, "sharing", "sharing changed");
  }
};
static std::shared_ptr<PBase> make_p(int c, int i) {
  std::shared_ptr<PBase> r;
  if (c == 0) r = std::make_shared<PBase>();
  if (c == 1) { auto p = std::make_shared<PMid>(); p->extra = uint16_t(0x0102 + i); r = p; }
  if (c == 2) { auto p = std::make_shared<PLeaf>(); p->extra = uint16_t(0x0304 + i); p->text = "t" + std::string(i, 'x'); p->mixed = uint8_t(i); r = p; }
  if (c == 3) r = std::make_shared<PSide>();
  r->tag = uint8_t(10 + i);
  return r;
}
template <typename Enc, typename Dec>
static void poly_roundtrip(const std::vector<std::shared_ptr<PBase>>& v, const std::vector<int>& cls, int n) {
  std::string out; arpc::string_output_stream os(out);
  Enc e(os);
  // First through the most derived usable pointer or the base, then again.
  int how = mc::choose(3, "root");
  std::shared_ptr<PMid> mid; std::shared_ptr<PLeaf> leaf;
  if (cls[0] == 1 || cls[0] == 2) mid = std::static_pointer_cast<PMid>(v[0]);
  if (cls[0] == 2) leaf = std::static_pointer_cast<PLeaf>(v[0]);
  if (how == 1 && !mid) mc::prune();
  if (how == 2 && !leaf) mc::prune();
  if (how == 1) e(mid); else if (how == 2) e(leaf); else e(v[0]);
  e(v[n - 1]); e(v[0]);
  if (how == 2) e(mid);
  arpc::string_input_stream in(out); Dec d(in);
  std::shared_ptr<PBase> a, b, c; std::shared_ptr<PMid> m, m2; std::shared_ptr<PLeaf> l;
  try {
    if (how == 1) { d(m); a = m; } else if (how == 2) { d(l); a = l; } else d(a);
    d(b); d(c); if (how == 2) d(m2);
  } catch (const std::exception& ex) { mc::fail("threw", ex.what()); }
  MC_CHECK(in.pos() == out.size(), "consumed", "input not consumed exactly");
  PIso iso; iso.ptr(v[0].get(), a.get()); iso.ptr(v[n - 1].get(), b.get()); iso.ptr(v[0].get(), c.get());
  if (how == 2) iso.ptr(v[0].get(), m2.get());
  mc::outcome(out); mc::nontrivial();
}
static void poly(int n, bool big) {
  std::vector<int> cls(n); std::vector<std::shared_ptr<PBase>> v(n);
  for (int i = 0; i < n; i++) { cls[i] = mc::choose(4, "class"); v[i] = make_p(cls[i], i); }
  for (int i = 0; i < n; i++) {
    int k = mc::choose(2 * n + 1, "s/w");   // one shared or weak edge
    if (k > n) v[i]->w = v[k - n - 1]; else if (k) v[i]->s = v[k - 1];
    if (cls[i] == 1 || cls[i] == 2) {
      int j = mc::choose(n + 1, "m");
      if (j && !(cls[j - 1] == 1 || cls[j - 1] == 2)) mc::prune();
      if (j) static_cast<PMid&>(*v[i]).m = std::static_pointer_cast<PMid>(v[j - 1]);
    }
    if (cls[i] == 2) {
      int o = mc::choose(3, "own");
      if (o) { auto& lf = static_cast<PLeaf&>(*v[i]); if (o == 1) lf.own = std::make_unique<PBase>(); else { auto p = std::make_unique<PMid>(); p->extra = 77; p->s = v[n - 1]; lf.own = std::move(p); } }
    }
    if (cls[i] == 3) {
      int j = mc::choose(n + 1, "l");
      if (j && cls[j - 1] != 2) mc::prune();
      if (j) static_cast<PSide&>(*v[i]).l = std::static_pointer_cast<PLeaf>(v[j - 1]);
    }
  }
  if (big) poly_roundtrip<big_endian_binary_encoder, big_endian_binary_decoder>(v, cls, n);
  else poly_roundtrip<little_endian_binary_encoder, little_endian_binary_decoder>(v, cls, n);
  for (auto& p : v) p->s.reset();
  for (int i = 0; i < n; i++) if (cls[i] == 1 || cls[i] == 2) static_cast<PMid&>(*v[i]).m.reset();
  for (int i = 0; i < n; i++) if (cls[i] == 2) static_cast<PLeaf&>(*v[i]).own.reset();
}
MC_SCENARIO("polymorphic-2") { poly(1 + mc::choose(2, "nodes"), mc::choose(2, "big")); }
MC_SCENARIO("polymorphic-3", 0, 0, true) { poly(3, false); }

// --- classes whose parts that matter are not at their start ---------------------
// (a class may have other bases with virtual functions before the dynamic one)
struct Watcher { virtual ~Watcher() = default; virtual int watched() const { return 7; } uint64_t own = 0x1122334455667788; };
struct Head : arpc::serializable<Head> { virtual ~Head() = default; uint8_t head = 3; ARPC_FIELDS(head); };
struct ABase : arpc::dynamic<ABase> { uint8_t tag = 0; std::shared_ptr<ABase> next; ARPC_FIELDS(tag, next); };
struct AWatch : Watcher, arpc::dynamic<AWatch, ABase> { uint8_t more = 0; std::shared_ptr<AWatch> peer; ARPC_FIELDS(more, peer); ARPC_OWN_TYPE(AWatch); };
struct AHead : arpc::dynamic<AHead, Head, ABase> { uint8_t more = 0; ARPC_FIELDS(more); };
struct ADeep : Watcher, arpc::dynamic<ADeep, AHead> { uint8_t deep = 0; ARPC_FIELDS(deep); ARPC_OWN_TYPE(ADeep); };
ARPC_REGISTER(ABase); ARPC_REGISTER(AWatch); ARPC_REGISTER(AHead); ARPC_REGISTER(ADeep);
MC_SCENARIO("bases-elsewhere") {
  std::vector<std::shared_ptr<ABase>> v(2); std::vector<int> cls(2);
  for (int i = 0; i < 2; i++) {
    cls[i] = mc::choose(4, "class");
    if (cls[i] == 0) v[i] = std::make_shared<ABase>();
    if (cls[i] == 1) { auto p = std::make_shared<AWatch>(); p->more = uint8_t(20 + i); v[i] = p; }
    if (cls[i] == 2) { auto p = std::make_shared<AHead>(); p->more = uint8_t(30 + i); p->head = uint8_t(40 + i); v[i] = p; }
    if (cls[i] == 3) { auto p = std::make_shared<ADeep>(); p->more = uint8_t(50 + i); p->head = uint8_t(60 + i); p->deep = uint8_t(70 + i); v[i] = p; }
    v[i]->tag = uint8_t(10 + i);
  }
  for (int i = 0; i < 2; i++) {
    int k = mc::choose(3, "next"); if (k) v[i]->next = v[k - 1];
    if (cls[i] == 1) { int j = mc::choose(3, "peer"); if (j && cls[j - 1] != 1) mc::prune(); if (j) static_cast<AWatch&>(*v[i]).peer = std::static_pointer_cast<AWatch>(v[j - 1]); }
  }
  // Written through pointers of every type that fits, in every order.
  std::string out; arpc::string_output_stream os(out); little_endian_binary_encoder e(os);
  int steps = mc::tier_pick(3, 4); std::vector<std::pair<int, int>> w;   // object, type of the pointer
  for (int i = 0; i < steps; i++) {
    int o = mc::choose(2, "object"), t = mc::choose(4, "pointer");
    if (t == 1 && cls[o] != 1) mc::prune();
    if (t == 2 && cls[o] < 2) mc::prune();
    if (t == 3 && cls[o] != 3) mc::prune();
    if (t == 0) e(v[o]); else if (t == 1) e(std::static_pointer_cast<AWatch>(v[o])); else if (t == 2) e(std::static_pointer_cast<AHead>(v[o])); else e(std::static_pointer_cast<ADeep>(v[o]));
    w.push_back({o, t});
  }
  arpc::string_input_stream in(out); little_endian_binary_decoder d(in);
  std::map<const ABase*, const ABase*> fwd, back;
  std::function<void(const ABase*, const ABase*)> same = [&](const ABase* a, const ABase* b) {
    MC_CHECK(!a == !b, "null", "a null pointer changed"); if (!a) return;
    if (fwd.count(a) || back.count(b)) { MC_CHECK(fwd.count(a) && fwd[a] == b && back[b] == a, "sharing", "sharing changed"); return; }
    fwd[a] = b; back[b] = a;
    MC_CHECK(a->portable_class_name() == b->portable_class_name() && a->tag == b->tag, "contents", "another object");
    std::string n(a->portable_class_name());
    if (n == "AWatch") { auto &x = static_cast<const AWatch&>(*a), &y = static_cast<const AWatch&>(*b); MC_CHECK(x.more == y.more && y.watched() == 7 && y.own == x.own, "contents", "AWatch"); same(x.peer.get(), y.peer.get()); }
    if (n == "AHead" || n == "ADeep") { auto &x = static_cast<const AHead&>(*a), &y = static_cast<const AHead&>(*b); MC_CHECK(x.more == y.more && x.head == y.head, "contents", "AHead"); }
    if (n == "ADeep") { auto &x = static_cast<const ADeep&>(*a), &y = static_cast<const ADeep&>(*b); MC_CHECK(x.deep == y.deep && y.watched() == 7 && y.own == x.own, "contents", "ADeep"); }
    same(a->next.get(), b->next.get());
  };
  std::vector<std::shared_ptr<ABase>> keep;
  for (auto [o, t] : w) {
    try {
      if (t == 0) { std::shared_ptr<ABase> p; d(p); keep.push_back(p); }
      if (t == 1) { std::shared_ptr<AWatch> p; d(p); keep.push_back(p); }
      if (t == 2) { std::shared_ptr<AHead> p; d(p); keep.push_back(p); }
      if (t == 3) { std::shared_ptr<ADeep> p; d(p); keep.push_back(p); }
    } catch (const std::exception& ex) { mc::fail("threw", ex.what()); }
    same(v[o].get(), keep.back().get());
  }
  MC_CHECK(in.pos() == out.size(), "consumed", "input not consumed exactly");
  mc::outcome(out); mc::nontrivial();
  for (auto& p : v) { p->next.reset(); if (p->portable_class_name() == "AWatch") static_cast<AWatch&>(*p).peer.reset(); }
  for (auto& [a, b] : back) { auto* m = const_cast<ABase*>(a); if (m->portable_class_name() == "AWatch") static_cast<AWatch*>(m)->peer.reset(); m->next.reset(); }
}

// --- histories of one encoder --------------------------------------------------
// Objects come and go between writes; identity is that of the objects alive at
// each write, so a new object is never confused with one that has gone.
// Storage is reused at once, as an ordinary allocator would.
struct Reused : arpc::serializable<Reused> {
  uint8_t tag = 0; ARPC_FIELDS(tag);
  static std::vector<void*>& pool() { static std::vector<void*> p; return p; }
  static void* operator new(size_t n) { if (pool().empty()) return ::operator new(n); void* p = pool().back(); pool().pop_back(); return p; }
  static void operator delete(void* p) { pool().push_back(p); }
};
MC_SCENARIO("encoder-history") {
  std::string out; arpc::string_output_stream os(out); little_endian_binary_encoder e(os);
  std::shared_ptr<Reused> slot[2]; int serial = 0;
  std::vector<int> written;       // serial number of each object written, 0 = null
  std::vector<uint8_t> tags;
  int steps = mc::tier_pick(6, 8);
  std::map<int, int> serial_of_slot;
  for (int i = 0; i < steps; i++) {
    int op = mc::choose(5, "op"), k = op % 2;
    if (op == 4) break;
    if (op < 2) { slot[k].reset(); slot[k] = std::shared_ptr<Reused>(new Reused); slot[k]->tag = uint8_t(++serial); serial_of_slot[k] = serial; }
    else { e(slot[k]); written.push_back(slot[k] ? serial_of_slot[k] : 0); }
  }
  arpc::string_input_stream in(out); little_endian_binary_decoder d(in);
  std::map<int, std::shared_ptr<Reused>> seen; std::set<Reused*> distinct;
  for (int w : written) {
    std::shared_ptr<Reused> p;
    try { d(p); } catch (const std::exception& ex) { mc::fail("threw", ex.what()); }
    MC_CHECK(!p == !w, "null", "null changed");
    if (!p) continue;
    MC_CHECK(p->tag == w, "stale", "object " + std::to_string(w) + " came back as object " + std::to_string(p->tag));
    if (seen.count(w)) MC_CHECK(seen[w] == p, "sharing", "the same object came back twice");
    else { MC_CHECK(distinct.insert(p.get()).second, "sharing", "two objects merged"); seen[w] = p; }
  }
  mc::outcome(out); if (written.size() > 1) mc::nontrivial();
}
// Aliasing pointers: an object and its first member share an address.
struct Inner : arpc::serializable<Inner> { uint8_t a = 1; ARPC_FIELDS(a); };
struct Outer : arpc::serializable<Outer> { Inner in; uint8_t b = 2; ARPC_FIELDS(in, b); };
MC_SCENARIO("same-address") {
  auto o = std::make_shared<Outer>(); std::shared_ptr<Inner> i(o, &o->in);
  std::string out; arpc::string_output_stream os(out); little_endian_binary_encoder e(os);
  std::vector<int> seq;
  for (int k = 0; k < 3; k++) { seq.push_back(mc::choose(2, "which")); if (seq[k]) e(i); else e(o); }
  arpc::string_input_stream in(out); little_endian_binary_decoder d(in);
  std::shared_ptr<Outer> po; std::shared_ptr<Inner> pi;
  try {
    for (int k = 0; k < 3; k++) {
      if (seq[k]) { std::shared_ptr<Inner> q; d(q); MC_CHECK(q && q->a == 1 && (!pi || pi == q), "sharing", "inner object"); pi = q; }
      else { std::shared_ptr<Outer> q; d(q); MC_CHECK(q && q->b == 2 && (!po || po == q), "sharing", "outer object"); po = q; }
    }
  } catch (const std::exception& ex) { mc::fail("threw", ex.what()); }
  mc::outcome(out); mc::nontrivial();
}
// Many objects: ids of one, two (and three) bytes.
MC_SCENARIO("many-objects") {
  static const int sizes[] = {1, 126, 127, 128, 129, 130, 255, 256, 300, 16383, 16384, 16390};
  int n = sizes[mc::choose(mc::tier_pick(9, 12), "objects")];
  bool big = mc::choose(2, "big");
  std::vector<std::shared_ptr<Node>> v(n);
  for (int i = 0; i < n; i++) { v[i] = std::make_shared<Node>(); v[i]->tag = uint8_t(i * 7); }
  int back = mc::choose(3, "edges");
  for (int i = 0; i < n; i++) { if (back == 1) v[i]->w = v[n - 1 - i]; if (back == 2 && i) v[i]->s = v[i / 2]; }
  std::vector<std::shared_ptr<Node>> roots = v; roots.insert(roots.end(), v.rbegin(), v.rend());
  if (big) plain_roundtrip<big_endian_binary_encoder, big_endian_binary_decoder>(roots, true);
  else plain_roundtrip<little_endian_binary_encoder, little_endian_binary_decoder>(roots, true);
  for (auto& p : v) p->s.reset();
}
// Targets that already hold something: what they held is replaced (nulls
// included), and objects other holders still use are left alone.
struct Holder : arpc::serializable<Holder> {
  std::shared_ptr<Node> a; std::weak_ptr<Node> w; std::unique_ptr<std::shared_ptr<Node>> u;
  std::optional<std::shared_ptr<Node>> o; std::array<std::shared_ptr<Node>, 2> r;
  std::shared_ptr<PBase> p; std::unique_ptr<PBase> q;
  ARPC_FIELDS(a, w, u, o, r, p, q);
};
MC_SCENARIO("used-targets") {
  std::shared_ptr<Node> n[2]; for (int i = 0; i < 2; i++) { n[i] = std::make_shared<Node>(); n[i]->tag = uint8_t(10 + i); }
  std::shared_ptr<PBase> m = std::make_shared<PMid>(); m->tag = 12;
  auto pick = [&](const char* l) -> std::shared_ptr<Node> { int k = mc::choose(3, l); return k ? n[k - 1] : nullptr; };
  Holder src;
  src.a = pick("a"); src.w = pick("w");
  { int k = mc::choose(3, "u"); if (k) src.u = std::make_unique<std::shared_ptr<Node>>(k == 1 ? nullptr : n[0]); }
  { int k = mc::choose(3, "o"); if (k) src.o = k == 1 ? nullptr : n[1]; }
  src.r[0] = pick("r0"); src.r[1] = mc::choose(2, "r1") ? n[1] : nullptr;
  if (mc::choose(2, "p")) src.p = m;
  if (mc::choose(2, "q")) src.q = std::make_unique<PBase>();
  std::string out; arpc::string_output_stream os(out); { little_endian_binary_encoder e(os); e(src); }
  // What the target holds beforehand.
  std::shared_ptr<Node> old[7];
  int state = mc::choose(4, "target");
  for (int i = 0; i < 7; i++) {
    if (state == 0) continue;
    if (state == 2 && i) old[i] = old[0];
    else if (state == 3) old[i] = n[i % 2];
    else { old[i] = std::make_shared<Node>(); old[i]->tag = uint8_t(100 + i); }
  }
  std::shared_ptr<PBase> oldp = std::make_shared<PLeaf>(); oldp->tag = 120;
  Holder got;
  if (state) {
    got.a = old[0]; got.w = old[1]; got.u = std::make_unique<std::shared_ptr<Node>>(old[2]); got.o = old[3];
    got.r = {old[4], old[5]}; got.p = oldp; got.q = std::make_unique<PLeaf>(); got.q->tag = 9;
  }
  arpc::string_input_stream in(out); little_endian_binary_decoder d(in);
  try { d(got); } catch (const std::exception& ex) { mc::fail("threw", ex.what()); }
  MC_CHECK(in.pos() == out.size(), "consumed", "input not consumed exactly");
  NodeIso iso;
  iso.ptr(src.a, got.a); iso.ptr(src.w.lock(), got.w.lock());
  MC_CHECK(!src.u == !got.u, "null", "owned pointer changed"); if (src.u) iso.ptr(*src.u, *got.u);
  MC_CHECK(!src.o == !got.o, "null", "optional pointer changed"); if (src.o) iso.ptr(*src.o, *got.o);
  for (int i = 0; i < 2; i++) iso.ptr(src.r[i], got.r[i]);
  PIso pi; pi.ptr(src.p.get(), got.p.get()); pi.ptr(src.q.get(), got.q.get());
  for (auto& g : {got.a, got.w.lock(), got.r[0], got.r[1]}) if (g) for (auto& x : n) MC_CHECK(g != x, "merged", "the target holds an object of the source");
  for (int i = 0; i < 7; i++) if (state == 1 || (state == 2 && !i)) MC_CHECK(old[i]->tag == 100 + i && !old[i]->s && !old[i]->u, "overwritten", "an object the target no longer refers to changed");
  for (int i = 0; i < 2; i++) MC_CHECK(n[i]->tag == 10 + i, "overwritten", "a source object changed");
  MC_CHECK(oldp->tag == 120, "overwritten", "an object the target no longer refers to changed");
  mc::outcome(out); if (state) mc::nontrivial();
}
