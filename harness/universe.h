// A universe of serializable types: for each one, how to enumerate values,
// how to compare them, and an independent reference encoding.  The types live
// in uni_*.cpp (universe_impl.h) so that they compile in parallel.
#pragma once
#include <memory>
#include <string>
#include <vector>
#include "arpc/binary_codecs.h"
#include "arpc/string_adapters.h"
#include "mc.h"

namespace uni {
// --- reference encoding primitives ------------------------------------------
inline void ref_raw(std::string& out, const void* p, size_t n, bool big) {
  // The harness runs on a little-endian machine.
  const char* c = static_cast<const char*>(p);
  if (big) for (size_t i = n; i-- > 0;) out.push_back(c[i]);
  else for (size_t i = 0; i < n; i++) out.push_back(c[i]);
}
inline void ref_size(std::string& out, uint64_t n) {
  while (n >= 128) { out.push_back(char(0x80 | (n % 128))); n /= 128; }
  out.push_back(char(n));
}
// --- type erasure -----------------------------------------------------------
struct Value {
  virtual ~Value() {}
  virtual void gen(int lvl) = 0;
  virtual void pat(int i) = 0;
  virtual void encode(arpc::little_endian_binary_encoder& e) const = 0;
  virtual void encode(arpc::big_endian_binary_encoder& e) const = 0;
  virtual void encode_v(arpc::little_endian_binary_encoder& e) const = 0;
  virtual void encode_v(arpc::big_endian_binary_encoder& e) const = 0;
  virtual void decode(arpc::little_endian_binary_decoder& e) = 0;
  virtual void decode(arpc::big_endian_binary_decoder& e) = 0;
  virtual void decode_v(arpc::little_endian_binary_decoder& e) = 0;
  virtual void decode_v(arpc::big_endian_binary_decoder& e) = 0;
  virtual void ref(std::string& o, bool big) const = 0;
  virtual bool eq(const Value& o) const = 0;
  virtual uint32_t hash() const = 0;
  template <typename F> void enc(std::string& out, bool big, F f) const {
    arpc::string_output_stream os(out);
    if (big) { arpc::big_endian_binary_encoder e(os); f(e); } else { arpc::little_endian_binary_encoder e(os); f(e); }
  }
  std::string encoded(bool big) const { std::string s; enc(s, big, [&](auto& e) { encode(e); }); return s; }
  std::string encoded_v(bool big) const { std::string s; enc(s, big, [&](auto& e) { encode_v(e); }); return s; }
  std::string reference(bool big) const { std::string s; ref(s, big); return s; }
};
struct Type { const char* name; std::unique_ptr<Value> (*make)(); };
const std::vector<Type>& scalar_types();
const std::vector<Type>& container_types1();
const std::vector<Type>& container_types2();
const std::vector<Type>& container_types3();
const std::vector<Type>& compound_types1();
const std::vector<Type>& compound_types2();
inline std::vector<Type> join(std::initializer_list<const std::vector<Type>*> l) {
  std::vector<Type> r;
  for (auto* v : l) r.insert(r.end(), v->begin(), v->end());
  return r;
}
inline const std::vector<Type>& container_types() { static const auto t = join({&container_types1(), &container_types2(), &container_types3()}); return t; }
inline const std::vector<Type>& compound_types() { static const auto t = join({&compound_types1(), &compound_types2()}); return t; }
inline const std::vector<Type>& all_types() { static const auto t = join({&scalar_types(), &container_types1(), &container_types2(), &container_types3(), &compound_types1(), &compound_types2()}); return t; }
}  // namespace uni
