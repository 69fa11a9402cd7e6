#include "universe_impl.h"
namespace uni {
const std::vector<Type>& compound_types1() {
  static const std::vector<Type> t = {
      UNI_T(std::tuple<>),
      UNI_T(std::tuple<int8_t, std::string, int32_t>),
      UNI_T(std::pair<int16_t, bool>),
      UNI_T(std::pair<std::string, std::pair<int8_t, double>>),
      UNI_T(std::tuple<std::vector<int16_t>, std::optional<bool>>),
      UNI_T(std::vector<std::pair<int8_t, std::string>>),
      UNI_T(std::vector<std::tuple<int32_t, uint8_t>>),
      UNI_T(std::optional<int32_t>),
      UNI_T(std::optional<std::string>),
      UNI_T(std::optional<std::optional<int8_t>>),
      UNI_T(std::optional<std::vector<bool>>),
      UNI_T(std::unique_ptr<int32_t>),
      UNI_T(std::unique_ptr<std::unique_ptr<std::string>>),
      UNI_T(std::vector<std::unique_ptr<int16_t>>),
      UNI_T(std::unique_ptr<std::vector<uint8_t>>),
      UNI_T(Agg1),
      UNI_T(Agg),
      UNI_T(AggNest),
      UNI_T(std::vector<Agg1>),
      UNI_T(std::vector<AggNest>)};
  return t;
}
}  // namespace uni
