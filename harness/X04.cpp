// X04: context data is inherited but never leaks upwards or sideways.
#include "arpc/binary_codecs.h"
#include "arpc/string_adapters.h"
#include "arpc/type_hash.h"
#include "ah.h"
using namespace ah;

#include "arpc/serializable.h"
namespace {
struct User : arpc::dynamic<User> { int id = 0; std::string name = "nobody"; ARPC_FIELDS(id, name); User() = default; User(int i, std::string n) : id(i), name(std::move(n)) {} };
// Its dynamic base is not where the object starts.
struct Clock { long ticks = 77; virtual ~Clock() = default; };
struct Trace : Clock, arpc::dynamic<Trace> { std::vector<int> hops; ARPC_FIELDS(hops); Trace() = default; explicit Trace(int h) : hops{h} {} };
struct Admin : arpc::dynamic<Admin, User> { int level = 0; ARPC_FIELDS(level); Admin() = default; Admin(int i, int l) : level(l) { id = i; name = "admin"; } };
// Like User, in a place the other side does not know.
struct Local : arpc::dynamic<Local> { int x = 0; ARPC_FIELDS(x); };
}  // namespace
ARPC_REGISTER_WITH_NAME("x04.user", User);
ARPC_REGISTER(Trace);
ARPC_REGISTER_WITH_NAME("x04.admin", Admin);
ARPC_REGISTER(Local);

namespace {
struct Model { int user = 0, trace = 0, admin = 0; bool operator==(const Model& o) const { return user == o.user && trace == o.trace && admin == o.admin; } };
struct Node { std::unique_ptr<arpc::context> c; Model m; };
Model look(const arpc::context& c) {
  Model m;
  const User& u = c.get<User>();
  m.user = u.id;
  MC_CHECK(u.name == (m.user ? "u" + std::to_string(m.user) : "nobody"), "torn", u.name);
  const Trace& t = c.get<Trace>();
  MC_CHECK(t.hops.size() <= 1 && t.ticks == 77, "torn", "");
  m.trace = t.hops.empty() ? 0 : t.hops[0];
  const Admin& a = c.get<Admin>();
  m.admin = a.level;
  MC_CHECK(a.id == m.admin * 7 && a.name == (m.admin ? "admin" : "nobody"), "torn", "");
  return m;
}
std::string show(const Model& m) { return std::to_string(m.user) + "/" + std::to_string(m.trace) + "/" + std::to_string(m.admin); }
User user(int i) { return User(i, "u" + std::to_string(i)); }
Admin admin(int l) { return Admin(l * 7, l); }
std::string encode(const arpc::context& c) { std::string s; arpc::string_output_stream o(s); arpc::little_endian_binary_encoder e(o); e(c); return s; }
void decode(const std::string& s, arpc::context& c) { arpc::string_input_stream i(s); arpc::little_endian_binary_decoder d(i); d(c); }
}  // namespace

MC_SCENARIO("histories", 0, 0) {
  // One thread: every short history of creating, setting, resetting, reading and transmitting.
  warm();
  sched::NoPreempt np;
  sched::opt().timers = false;
  std::vector<Node> n;
  struct Last { std::vector<Node>& n; ~Last() { while (!n.empty()) n.pop_back(); } } last{n};
  n.push_back({std::make_unique<arpc::context>(arpc::context::top(), false), {}});
  int depth = mc::tier_pick(5, 6);
  int next = 1;
  for (int i = 0; i < depth; i++) {
    const int kinds = 11;
    int op = mc::choose(kinds * n.size(), "op");
    size_t at = op / kinds;
    int v = next;
    switch (op % kinds) {
      case 0: case 1:
        if (n.size() > 2) mc::prune();
        n.push_back({std::make_unique<arpc::context>(*n[at].c, false, op % kinds == 1), n[at].m});
        break;
      case 2: n[at].c->set(user(v)); n[at].m.user = v; next++; break;
      case 3: n[at].c->set(Trace(v)); n[at].m.trace = v; next++; break;
      case 4: { const User u = user(v); Trace t(v + 1); n[at].c->set(u, t, admin(v + 2)); n[at].m = {v, v + 1, v + 2}; next += 3;
                MC_CHECK(u.id == v && u.name.size() > 1 && t.hops.size() == 1, "stolen", ""); break; }
      case 5: n[at].c->reset<User>(); n[at].m.user = 0; break;
      case 6: n[at].c->reset<User, Trace>(); n[at].m.user = n[at].m.trace = 0; break;
      case 7: n[at].c->reset_all(); n[at].m = {}; break;
      case 8: n[at].c->set(admin(v)); n[at].m.admin = v; next++; break;
      case 9: {  // to another process, over whatever was there
        int to = mc::choose(2, "into");
        std::string s = encode(*n[at].c);
        arpc::context fresh(arpc::context::top(), false);
        if (to) fresh.set(user(90), Trace(91));
        decode(s, fresh);
        MC_CHECK(look(fresh) == n[at].m, "transmission", show(look(fresh)) + " instead of " + show(n[at].m));
        MC_CHECK(!fresh.is_cancelled() && !fresh.deadline(), "transmission", "state");
        fresh.set(user(92));
        break;
      }
      case 10: {  // read into the other node
        size_t to = (at + 1) % n.size();
        std::string s = encode(*n[at].c);
        decode(s, *n[to].c);
        n[to].m = n[at].m;
        break;
      }
    }
    for (size_t j = 0; j < n.size(); j++) {
      Model m = look(*n[j].c);
      MC_CHECK(m == n[j].m, "wrong-data", "step " + std::to_string(i) + ", context " + std::to_string(j) + ": " + show(m) + " instead of " + show(n[j].m));
    }
    MC_CHECK(look(arpc::context::top()) == Model(), "wrong-data", "top");
  }
  mc::nontrivial();
}

MC_SCENARIO("as-a-base", 0, 0) {
  // A value given through a reference to its base is kept as what it was given as, whatever else it was.
  warm();
  arpc::context c;
  Admin a = admin(3);
  const User& u = a;
  c.set(u);
  MC_CHECK(c.get<User>().id == 21 && c.get<User>().name == "admin", "wrong-data", "user");
  MC_CHECK(c.get<Admin>().level == 0 && c.get<Admin>().id == 0, "wrong-data", "admin");
  std::string s = encode(c);
  arpc::context d(arpc::context::top(), false);
  decode(s, d);
  MC_CHECK(d.get<User>().id == 21, "transmission", "");
  c.reset<User>();
  MC_CHECK(c.get<User>().id == 0, "wrong-data", "after reset");
  mc::nontrivial();
}

MC_SCENARIO("transmission", 0, 0) {
  // The state of a context gets across: data, time left, cancellation; reading it only adds.
  warm();
  sched::NoPreempt np;
  sched::opt().timers = false;
  static const int64_t kD[] = {-1, 0, 5, 60000};
  int64_t from = mc::pick(kD, "deadline"), to = mc::pick(kD, "deadline of the other");
  bool cancelled = mc::choose(2, "cancelled"), other_cancelled = mc::choose(2, "other cancelled");
  int data = mc::choose(4, "data");
  arpc::context a(arpc::context::top(), false), b(arpc::context::top(), false);
  sleep_us(mc::choose(2, "fraction") * 400);
  if (from >= 0) a.set_timeout(ms(from));
  if (to >= 0) b.set_timeout(ms(to));
  auto b0 = b.deadline();
  if (cancelled) a.cancel();
  if (other_cancelled) b.cancel();
  if (data & 1) a.set(user(1), Trace(2));
  if (data & 2) b.set(user(3), admin(4));
  std::string s = encode(a);
  sleep_us(mc::choose(2, "delay") * 2600);   // on its way
  auto now = std::chrono::system_clock::now();
  decode(s, b);
  MC_CHECK(b.is_cancelled() == (cancelled || other_cancelled), "transmission", "cancellation");
  MC_CHECK(look(b) == (data & 1 ? Model{1, 2, 0} : Model{}), "transmission", "data");
  MC_CHECK(look(a) == (data & 1 ? Model{1, 2, 0} : Model{}) && a.is_cancelled() == cancelled, "changed", "the original");
  auto d = b.deadline();
  if (from < 0) MC_CHECK(d == b0, "transmission", "deadline appeared");
  else {
    MC_CHECK(d && (!b0 || *d <= *b0), "transmission", "deadline lost or extended");
    if (!b0 || *d < *b0) MC_CHECK(*d <= now + ms(from + 1) && *d >= now + ms(from - 1), "transmission", "deadline changed");
  }
  mc::nontrivial();
}

MC_SCENARIO("bad-transmission", 0, 0) {
  // Damaged contexts are rejected without harm.
  warm();
  sched::NoPreempt np;
  sched::opt().timers = false;
  arpc::context a(arpc::context::top(), false);
  a.set(user(1), Trace(2));
  if (mc::choose(2, "limits")) { a.set_timeout(ms(50)); }
  std::string s = encode(a);
  int kind = mc::choose(4, "damage");
  if (kind == 0) s.resize(mc::choose(s.size(), "length"));
  if (kind == 1) { int at = mc::choose(s.size(), "byte"); static const uint8_t kV[] = {0, 1, 2, 3, 0x7f, 0x80, 0xff}; s[at] = mc::pick(kV, "value"); }
  if (kind == 2) {  // as another sender could: objects missing, repeated or unknown
    int n = 1 + mc::choose(3, "objects");
    std::vector<std::shared_ptr<arpc::dynamic_base_class>> objs;
    for (int i = 0; i < n; i++) {
      int k = mc::choose(4, "object");
      if (k == 0) objs.push_back(nullptr);
      if (k == 1) objs.push_back(std::make_shared<User>(user(i + 1)));
      if (k == 2) objs.push_back(std::make_shared<Trace>(i + 1));
      if (k == 3) { if (objs.empty()) mc::prune(); objs.push_back(objs[0]); }
    }
    s.clear();
    arpc::string_output_stream o(s); arpc::little_endian_binary_encoder e(o);
    e(std::optional<ms>()); e(objs); e(false);
  }
  if (kind == 3) {  // extreme times
    static const int64_t kT[] = {INT64_MIN, INT64_MIN + 1, -1, 0, INT64_MAX - 1, INT64_MAX, INT64_MAX / 1000000, INT64_MIN / 1000000};
    int64_t t = mc::pick(kT, "time");
    s.clear();
    arpc::string_output_stream o(s); arpc::little_endian_binary_encoder e(o);
    e(std::optional<ms>(t)); e(std::vector<std::shared_ptr<arpc::dynamic_base_class>>()); e(false);
    arpc::context b(arpc::context::top(), false);
    auto now = std::chrono::ceil<ms>(std::chrono::system_clock::now());
    decode(s, b);
    auto d = b.deadline();
    MC_CHECK(d.has_value() && (t <= 0 ? *d <= now + ms(1) : *d > now), "transmission", "deadline of " + std::to_string(t));
    auto left = b.deadline_left();
    MC_CHECK(t <= 0 ? left->count() <= 1 : left->count() > 1000000, "transmission", "time left of " + std::to_string(t) + ": " + std::to_string(left->count()));
    mc::nontrivial();
    return;
  }
  arpc::context b(arpc::context::top(), false);
  std::string r = how([&] { decode(s, b); });
  if (r != "ok") MC_CHECK(r.rfind("other", 0) || r.find("alloc") != std::string::npos, "not-an-error", r);
  (void)b.is_cancelled(); (void)b.deadline_left();
  std::string t;
  t = encode(b);        // whatever was accepted is sound
  arpc::context c(b, false);
  (void)c.get<User>().id; (void)c.get<Trace>().hops.size();
  mc::outcome(r);
  mc::nontrivial();
}

MC_SCENARIO("meanwhile", 4, 5) {
  // Data is set in a context while others read it, create contexts below it or encode it.
  warm();
  sched::opt().timers = false;
  auto group = std::make_unique<arpc::context>(arpc::context::current(), false);
  arpc::context sibling(arpc::context::current(), false);
  group->set(user(1));
  int what = mc::choose(6, "reader");
  int writes = mc::choose(5, "writer");
  std::string enc;
  if (writes == 4) { arpc::context o(arpc::context::top(), false); o.set(user(2), Trace(3)); enc = encode(o); }
  Model seen;
  std::thread th([&] {
    switch (what) {
      case 0: { arpc::context mine(*group); seen = look(mine); mine.set(user(5)); MC_CHECK(look(mine).user == 5, "wrong-data", "own"); break; }
      case 1: { std::string s = encode(*group); arpc::context mine(arpc::context::top()); decode(s, mine); seen = look(mine); break; }
      case 2: { arpc::context mine(*group); arpc::context in; seen = look(in); Model m = look(mine); MC_CHECK(m == seen, "wrong-data", ""); break; }
      case 3: { sched::NoPreempt np; seen = {}; arpc::thread t([&] { arpc::context::current().set(user(7)); }); t.join(); arpc::context mine(*group, false); seen = look(mine); break; }
      case 4: { arpc::context mine(*group, true, true); seen = look(mine); mine.reset_all(); MC_CHECK(look(mine) == Model(), "wrong-data", "own"); break; }
      case 5: group->set(Trace(9)); seen = {1, 3, 0}; break;
    }
  });
  switch (writes) {
    case 0: group->set(user(2), Trace(3)); break;
    case 1: group->reset<User>(); break;
    case 2: group->reset_all(); break;
    case 3: group->set(Trace(3)); break;
    case 4: decode(enc, *group); break;
  }
  th.join();
  MC_CHECK(look(sibling) == Model() && look(arpc::context::top()) == Model(), "leaked", "sideways or upwards");
  Model end = look(*group);
  Model want = writes == 0 || writes == 4 ? Model{2, 3, 0} : writes == 3 ? Model{1, 3, 0} : Model{};
  if (what == 5) { MC_CHECK(end.trace == 9 || end.trace == want.trace, "wrong-data", show(end)); end.trace = want.trace; }
  MC_CHECK(end == want, "wrong-data", show(end) + " instead of " + show(want));
  if (what != 5) MC_CHECK(seen == (Model{1, 0, 0}) || seen == want, "torn", show(seen));
  mc::outcome(show(seen));
  mc::nontrivial();
}

namespace {
// Many kinds of data.
template <int i> struct Kind;
#define X04_KIND(i) struct Item##i : arpc::dynamic<Item##i> { \
    int v = 0; std::string s; \
    Item##i() = default; \
    explicit Item##i(int v) : v(v), s(v, char('a' + i)) {} \
    ARPC_FIELDS(v, s); \
  }; template <> struct Kind<i> { using T = Item##i; }
X04_KIND(0); X04_KIND(1); X04_KIND(2); X04_KIND(3); X04_KIND(4); X04_KIND(5); X04_KIND(6); X04_KIND(7); X04_KIND(8); X04_KIND(9);
X04_KIND(10); X04_KIND(11); X04_KIND(12); X04_KIND(13); X04_KIND(14); X04_KIND(15); X04_KIND(16); X04_KIND(17); X04_KIND(18); X04_KIND(19);
template <int i> using Item = typename Kind<i>::T;
constexpr int kItems = 20;
template <typename F, int... i> void each(F f, std::integer_sequence<int, i...>) { (f(std::integral_constant<int, i>()), ...); }
template <typename F> void each(F f) { each(f, std::make_integer_sequence<int, kItems>()); }
}  // namespace
#define X04_ITEM(i) ARPC_REGISTER_WITH_NAME("x04.item." #i, Item##i)
X04_ITEM(0); X04_ITEM(1); X04_ITEM(2); X04_ITEM(3); X04_ITEM(4); X04_ITEM(5); X04_ITEM(6); X04_ITEM(7); X04_ITEM(8); X04_ITEM(9);
X04_ITEM(10); X04_ITEM(11); X04_ITEM(12); X04_ITEM(13); X04_ITEM(14); X04_ITEM(15); X04_ITEM(16); X04_ITEM(17); X04_ITEM(18); X04_ITEM(19);
MC_SCENARIO("scale", 0, 0) {
  // Many kinds of data, of any size, in many contexts.
  warm(); sched::opt().max_steps = 4000000; sched::opt().timers = false; sched::NoPreempt np;
  int n = mc::choose(kItems + 1, "kinds"), step = std::vector<int>{1, 7, 19}[mc::choose(3, "order")], depth = std::vector<int>{1, 2, 130}[mc::choose(3, "contexts")];
  auto some = [&](const char* label) { if (!n) return -1; int at[] = {-1, 0, n / 2, n - 1}; return n < 4 ? mc::choose(n + 1, label) - 1 : at[mc::choose(4, label)]; };
  int size = std::vector<int>{1, 130}[mc::choose(2, "size")], gone = some("reset"), changed = some("changed");
  std::vector<std::unique_ptr<arpc::context>> c;
  c.push_back(std::make_unique<arpc::context>(arpc::context::top(), false));
  std::vector<int> model(kItems);
  for (int k = 0; k < n; k++) { int at = k * step % kItems; each([&](auto i) { if (i == at) c[0]->set(Item<decltype(i)::value>(size + at)); }); model[at] = size + at; }
  std::vector<int> below = model;
  for (int i = 1; i < depth; i++) c.push_back(std::make_unique<arpc::context>(*c.back(), false));
  int kg = gone < 0 ? -1 : gone * step % kItems, kc = changed < 0 ? -1 : changed * step % kItems;
  auto check = [](const arpc::context& x, const std::vector<int>& m, const char* what) {
    each([&](auto i) { auto& t = x.get<Item<decltype(i)::value>>(); MC_CHECK(t.v == m[i] && t.s == std::string(m[i], char('a' + i)), what, "kind " + std::to_string(i) + " is " + std::to_string(t.v)); });
  };
  each([&](auto i) { if (i == kg) { c.back()->template reset<Item<decltype(i)::value>>(); below[i] = 0; } });
  each([&](auto i) { if (i == kc) { c.back()->set(Item<decltype(i)::value>(5)); below[i] = 5; } });
  for (int i = 0; i + 1 < depth; i++) check(*c[i], model, "wrong-data");
  check(*c.back(), below, "wrong-data");
  arpc::context other(arpc::context::top(), false);
  decode(encode(*c.back()), other);
  check(other, below, "transmission");
  c.back()->reset_all();
  if (depth > 1) check(*c[0], model, "wrong-data");
  check(*c.back(), std::vector<int>(kItems), "wrong-data");
  while (!c.empty()) c.pop_back();
  mc::nontrivial();
}
