#pragma GCC optimize("O0")
#include "S07.h"
#define NAMED(x) static std::string type_name() { return #x; }
namespace s07 {
using arpc::serializable;
struct Empty : serializable<Empty> { NAMED(Empty) using Bases = L<>; using Fields = L<>; static constexpr int Version = 0; };
struct I1 : serializable<I1> { NAMED(I1) int a; ARPC_FIELDS(a); using Bases = L<>; using Fields = L<int>; static constexpr int Version = 0; };
struct I1b : serializable<I1b> { NAMED(I1b) int other_name; ARPC_FIELDS(other_name); using Bases = L<>; using Fields = L<int>; static constexpr int Version = 0; };
struct I2 : serializable<I2> { NAMED(I2) int a, b; ARPC_FIELDS(a, b); using Bases = L<>; using Fields = L<int, int>; static constexpr int Version = 0; };
struct IS : serializable<IS> { NAMED(IS) int a; short b; ARPC_FIELDS(a, b); using Bases = L<>; using Fields = L<int, short>; static constexpr int Version = 0; };
struct SI : serializable<SI> { NAMED(SI) int a; short b; ARPC_FIELDS(b, a); using Bases = L<>; using Fields = L<short, int>; static constexpr int Version = 0; };
struct BI : serializable<BI, I1> { NAMED(BI) using Bases = L<I1>; using Fields = L<>; static constexpr int Version = 0; };
struct BII : serializable<BII, I1> { NAMED(BII) int c; ARPC_FIELDS(c); using Bases = L<I1>; using Fields = L<int>; static constexpr int Version = 0; };
struct BB : serializable<BB, I1, I2> { NAMED(BB) using Bases = L<I1, I2>; using Fields = L<>; static constexpr int Version = 0; };
struct BB2 : serializable<BB2, I2, I1> { NAMED(BB2) using Bases = L<I2, I1>; using Fields = L<>; static constexpr int Version = 0; };
struct FI : serializable<FI> { NAMED(FI) I1 f; ARPC_FIELDS(f); using Bases = L<>; using Fields = L<I1>; static constexpr int Version = 0; };
struct FII : serializable<FII> { NAMED(FII) I1 f; int c; ARPC_FIELDS(f, c); using Bases = L<>; using Fields = L<I1, int>; static constexpr int Version = 0; };
struct FV : serializable<FV> { NAMED(FV) std::vector<int> f; ARPC_FIELDS(f); using Bases = L<>; using Fields = L<std::vector<int>>; static constexpr int Version = 0; };
struct FL : serializable<FL> { NAMED(FL) std::list<int> f; ARPC_FIELDS(f); using Bases = L<>; using Fields = L<std::list<int>>; static constexpr int Version = 0; };
struct FT : serializable<FT> { NAMED(FT) std::tuple<int, short> f; ARPC_FIELDS(f); using Bases = L<>; using Fields = L<std::tuple<int, short>>; static constexpr int Version = 0; };
#define CUSTOM(n, ver) struct n : serializable<n> { NAMED(n) int a; ARPC_FIELDS(a); ARPC_CUSTOM_SERIALIZATION_VERSION(ver); template <typename S> void save(S& s) const {} template <typename S> void load(S& s) {} using Bases = L<>; using Fields = L<int>; static constexpr int Version = ver; };
CUSTOM(C1, 1) CUSTOM(C1b, 1) CUSTOM(C2, 2) CUSTOM(C3, 3)
struct C0 { NAMED(C0) static constexpr std::uint32_t custom_serialization_version = 1; template <typename S> void save(S& s) const {} template <typename S> void load(S& s) {} using Bases = L<>; using Fields = L<>; static constexpr int Version = 1; };
struct BC : serializable<BC, C1> { NAMED(BC) ARPC_CUSTOM_SERIALIZATION_VERSION(1); template <typename S> void save(S& s) const {} template <typename S> void load(S& s) {} using Bases = L<C1>; using Fields = L<>; static constexpr int Version = 1; };
// recursive
struct R1 : serializable<R1> { NAMED(R1) std::unique_ptr<R1> n; ARPC_FIELDS(n); using Bases = L<>; using Fields = L<std::unique_ptr<R1>>; static constexpr int Version = 0; };
struct R1b : serializable<R1b> { NAMED(R1b) std::unique_ptr<R1b> n; ARPC_FIELDS(n); using Bases = L<>; using Fields = L<std::unique_ptr<R1b>>; static constexpr int Version = 0; };
struct R1s : serializable<R1s> { NAMED(R1s) std::shared_ptr<R1s> n; ARPC_FIELDS(n); using Bases = L<>; using Fields = L<std::shared_ptr<R1s>>; static constexpr int Version = 0; };
struct R2 : serializable<R2> { NAMED(R2) int v; std::shared_ptr<R2> n; ARPC_FIELDS(v, n); using Bases = L<>; using Fields = L<int, std::shared_ptr<R2>>; static constexpr int Version = 0; };
struct R3 : serializable<R3> { NAMED(R3) std::shared_ptr<R3> l, r; ARPC_FIELDS(l, r); using Bases = L<>; using Fields = L<std::shared_ptr<R3>, std::shared_ptr<R3>>; static constexpr int Version = 0; };
struct MB;
struct MA : serializable<MA> { NAMED(MA) std::shared_ptr<MB> b; ARPC_FIELDS(b); using Bases = L<>; using Fields = L<std::shared_ptr<MB>>; static constexpr int Version = 0; };
struct MB : serializable<MB> { NAMED(MB) std::shared_ptr<MA> a; std::shared_ptr<MB> b; ARPC_FIELDS(a, b); using Bases = L<>; using Fields = L<std::shared_ptr<MA>, std::shared_ptr<MB>>; static constexpr int Version = 0; };
struct MD;
struct MC : serializable<MC> { NAMED(MC) std::shared_ptr<MD> b; ARPC_FIELDS(b); using Bases = L<>; using Fields = L<std::shared_ptr<MD>>; static constexpr int Version = 0; };
struct MD : serializable<MD> { NAMED(MD) std::shared_ptr<MD> a; std::shared_ptr<MC> b; ARPC_FIELDS(a, b); using Bases = L<>; using Fields = L<std::shared_ptr<MD>, std::shared_ptr<MC>>; static constexpr int Version = 0; };
// recursive through containers
struct RV : serializable<RV> { NAMED(RV) std::vector<std::unique_ptr<RV>> n; ARPC_FIELDS(n); using Bases = L<>; using Fields = L<std::vector<std::unique_ptr<RV>>>; static constexpr int Version = 0; };
struct RM : serializable<RM> { NAMED(RM) std::map<int, std::shared_ptr<RM>> n; ARPC_FIELDS(n); using Bases = L<>; using Fields = L<std::map<int, std::shared_ptr<RM>>>; static constexpr int Version = 0; };
struct RA : serializable<RA> { NAMED(RA) std::array<std::shared_ptr<RA>, 2> n; ARPC_FIELDS(n); using Bases = L<>; using Fields = L<std::array<std::shared_ptr<RA>, 2>>; static constexpr int Version = 0; };
struct RO : serializable<RO> { NAMED(RO) std::optional<std::vector<RO>> n; ARPC_FIELDS(n); using Bases = L<>; using Fields = L<std::optional<std::vector<RO>>>; static constexpr int Version = 0; };
// polymorphic
struct P0 : arpc::dynamic<P0> { NAMED(P0) int a; ARPC_FIELDS(a); using Bases = L<arpc::dynamic_base_class>; using Fields = L<int>; static constexpr int Version = 0; };
struct P1 : arpc::dynamic<P1, P0> { NAMED(P1) std::shared_ptr<P0> p; ARPC_FIELDS(p); using Bases = L<P0>; using Fields = L<std::shared_ptr<P0>>; static constexpr int Version = 0; };
template <> struct D<arpc::dynamic_base_class> { static std::string name() { return "dynamic_base_class"; } static std::string desc(const Path&) { return "class(bases 0: fields 0: version0)"; } };
// aggregates
struct G1 { NAMED(G1) using AggOf = std::tuple<int>; int a; };
struct G2 { NAMED(G2) using AggOf = std::tuple<int, short>; int a; short b; };
struct G2b { NAMED(G2b) using AggOf = std::tuple<short, int>; short a; int b; };
struct G3 { NAMED(G3) using AggOf = std::tuple<std::vector<int>, G2, char>; std::vector<int> v; G2 g; char c; };
template <typename T> using Wrap = L<T, std::vector<T>, std::optional<T>, std::unique_ptr<T>, std::shared_ptr<T>, std::pair<T, char>, std::map<char, T>, std::array<T, 2>>;
void part4(std::vector<Entry>& v) { add_all(v, map_t<Wrap, L<Empty, I1, I1b, I2, IS, SI, BI, BII, BB, BB2, FI, FII, FV, FL, FT, C1, C1b, C2, C3, C0, G1, G2, G2b, G3>>()); }
void part5(std::vector<Entry>& v) { add_all(v, map_t<Wrap, L<R1, R1b, R1s, R2, R3, MA, MB, MC, MD>>()); add_all(v, L<BC, P0, P1, std::shared_ptr<P0>, std::shared_ptr<P1>>()); 
#ifndef NO_RECURSIVE_CONTAINERS
  add_all(v, map_t<Wrap, L<RV, RM, RA, RO>>());
#endif
}
void part6(std::vector<Entry>& v) {
  using namespace std::chrono;
  add_all(v, map_t<Wrap, L<nanoseconds, microseconds, milliseconds, seconds, minutes, hours, duration<int, std::ratio<1>>, duration<long, std::milli>, duration<int, std::ratio<86400>>, system_clock::time_point, steady_clock::time_point,
     time_point<system_clock, seconds>, time_point<steady_clock, milliseconds>, time_point<steady_clock, microseconds>, time_point<system_clock, minutes>, time_point<system_clock, hours>>>());
}
}
