#include "universe_impl.h"
namespace uni {
const std::vector<Type>& container_types2() {
  static const std::vector<Type> t = {
      UNI_T(std::set<int32_t>),
      UNI_T(std::set<int16_t, std::greater<int16_t>>),
      UNI_T(std::multiset<int8_t>),
      UNI_T(std::map<int32_t, std::string>),
      UNI_T(std::multimap<int16_t, std::string>),
      UNI_T(std::unordered_set<int32_t>),
      UNI_T(std::unordered_map<int32_t, std::string>),
      UNI_T(arpc::flat_set<int32_t>),
      UNI_T(arpc::flat_multiset<int8_t>),
      UNI_T(arpc::flat_map<int32_t, std::string>),
      UNI_T(arpc::flat_multimap<int16_t, std::string>),
      UNI_T(std::vector<std::vector<int8_t>>),
      UNI_T(std::map<std::string, std::vector<int16_t>>),
      UNI_T(std::vector<std::list<bool>>),
      UNI_T(std::vector<std::chrono::milliseconds>)};
  return t;
}
}  // namespace uni
