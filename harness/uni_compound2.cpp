#include "universe_impl.h"
namespace uni {
const std::vector<Type>& compound_types2() {
  static const std::vector<Type> t = {
      UNI_T(std::map<int8_t, Agg1>),
      UNI_T(std::optional<Agg>),
      UNI_T(Base1),
      UNI_T(Fields),
      UNI_T(Derived),
      UNI_T(NoFields),
      UNI_T(OnlyBase),
      UNI_T(Custom),
      UNI_T(CustomChild),
      UNI_T(PlainCustom),
      UNI_T(WithArray),
      UNI_T(Tmpl<std::string>),
      UNI_T(Tmpl<std::vector<Tmpl<int8_t>>>),
      UNI_T(Tree),
      UNI_T(std::vector<Derived>),
      UNI_T(std::array<Custom, 2>),
      UNI_T(std::pair<Custom, Fields>),
      UNI_T(std::optional<Derived>),
      UNI_T(std::unique_ptr<Custom>)};
  return t;
}
}  // namespace uni
