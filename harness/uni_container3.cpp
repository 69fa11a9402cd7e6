#include "universe_impl.h"
namespace uni {
const std::vector<Type>& container_types3() {
  static const std::vector<Type> t = {
      UNI_T(std::byte),
      UNI_T(E64),
      UNI_T(EC),
      UNI_T(char32_t),
      UNI_T(unsigned long long),
      UNI_T(signed char),
      UNI_T(std::wstring),
      UNI_T(std::u16string),
      UNI_T(std::vector<std::byte>),
      UNI_T(std::vector<E64>),
      UNI_T(std::vector<std::optional<int16_t>>),
      UNI_T(std::vector<std::array<uint16_t, 2>>),
      UNI_T(std::vector<std::vector<bool>>),
      UNI_T(std::deque<bool>),
      UNI_T(std::deque<std::string>),
      UNI_T(std::list<std::vector<std::string>>),
      UNI_T(std::set<std::string>),
      UNI_T(std::set<std::pair<int8_t, int16_t>>),
      UNI_T(std::set<bool>),
      UNI_T(std::map<std::pair<bool, int8_t>, E64>),
      UNI_T(std::map<E32, std::map<int8_t, bool>>),
      UNI_T(std::map<std::string, std::unique_ptr<int32_t>>),
      UNI_T(std::unordered_multiset<int16_t>),
      UNI_T(std::unordered_multimap<int16_t, int8_t>),
      UNI_T(std::unordered_map<std::string, std::vector<std::string>>),
      UNI_T(std::array<int32_t, 0>),
      UNI_T(std::array<std::vector<int16_t>, 2>),
      UNI_T(std::array<std::optional<std::string>, 2>),
      UNI_T(arpc::flat_set<std::string>),
      UNI_T(arpc::flat_map<std::string, arpc::flat_set<int16_t>>),
      UNI_T(std::vector<arpc::flat_map<int8_t, int8_t>>),
      UNI_T(Ring<int16_t>),
      UNI_T(Ring<Ring<std::string>>),
      UNI_T(std::tuple<Ring<bool>, std::byte, std::wstring>)};
  return t;
}
}  // namespace uni
