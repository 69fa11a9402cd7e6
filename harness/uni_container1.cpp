#include "universe_impl.h"
namespace uni {
const std::vector<Type>& container_types1() {
  static const std::vector<Type> t = {
      UNI_T(std::string),
      UNI_T(std::vector<int32_t>),
      UNI_T(std::vector<uint8_t>),
      UNI_T(std::vector<bool>),
      UNI_T(std::vector<std::string>),
      UNI_T(std::vector<double>),
      UNI_T(std::vector<E32>),
      UNI_T(std::vector<EB>),
      UNI_T(std::deque<int16_t>),
      UNI_T(std::list<int32_t>),
      UNI_T(std::list<std::string>),
      UNI_T(std::array<int32_t, 3>),
      UNI_T(std::array<uint8_t, 2>),
      UNI_T(std::array<std::string, 2>),
      UNI_T(std::array<bool, 3>),
      UNI_T(std::array<std::array<int16_t, 2>, 2>)};
  return t;
}
}  // namespace uni
