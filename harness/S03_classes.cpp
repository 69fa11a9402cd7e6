// S03, class ids of two bytes (compiled apart: many instantiations).
#pragma GCC optimize("O0")
#include "arpc/binary_codecs.h"
#include "arpc/serializable.h"
#include "arpc/string_adapters.h"
#include "mc.h"
using arpc::big_endian_binary_encoder; using arpc::big_endian_binary_decoder;
template <int N> struct Many : arpc::dynamic<Many<N>> { ARPC_OWN_TYPE(Many); uint8_t tag = 0; ARPC_FIELDS(tag); };
#define M1(n) template <> std::string_view arpc::detail::dynamic_class_descriptor<Many<n>>::class_name = \
  arpc::registry::dynamic_object_factory::get().register_class<Many<n>, arpc::mpt::pack<big_endian_binary_encoder>, arpc::mpt::pack<big_endian_binary_decoder>>("many" #n);
#define M10(n) M1(n##0) M1(n##1) M1(n##2) M1(n##3) M1(n##4) M1(n##5) M1(n##6) M1(n##7) M1(n##8) M1(n##9)
M10(1) M10(2) M10(3) M10(4) M10(5) M10(6) M10(7) M10(8) M10(9) M10(10) M10(11) M10(12) M10(13) M10(14)
template <typename F, int... I> static void each_many(F f, std::integer_sequence<int, I...>) { (f(std::integral_constant<int, I + 10>()), ...); }
MC_SCENARIO("many-classes") {
  int limit = mc::choose(3, "classes"); limit = limit == 0 ? 127 : limit == 1 ? 128 : 140;
  bool poly = mc::choose(2, "twice");
  std::string out; arpc::string_output_stream os(out); big_endian_binary_encoder e(os);
  std::vector<std::shared_ptr<arpc::dynamic_base_class>> keep;
  auto seq = std::make_integer_sequence<int, 140>();
  for (int pass = 0; pass <= poly; pass++)
    each_many([&](auto n) { if (n - 10 < limit) { auto p = std::make_unique<Many<n>>(); p->tag = uint8_t(n); e(p); } }, seq);
  arpc::string_input_stream in(out); big_endian_binary_decoder d(in);
  try {
    for (int pass = 0; pass <= poly; pass++)
      each_many([&](auto n) { if (n - 10 < limit) { std::unique_ptr<Many<n>> p; d(p); MC_CHECK(p && p->tag == uint8_t(n), "contents", "wrong object"); } }, seq);
  } catch (const std::exception& ex) { mc::fail("threw", ex.what()); }
  MC_CHECK(in.pos() == out.size(), "consumed", "consumed");
  mc::outcome(out); mc::nontrivial();
}
