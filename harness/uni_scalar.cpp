#include "universe_impl.h"
namespace uni {
const std::vector<Type>& scalar_types() {
  static const std::vector<Type> t = {
      UNI_T(bool),
      UNI_T(char),
      UNI_T(int8_t),
      UNI_T(uint8_t),
      UNI_T(int16_t),
      UNI_T(uint16_t),
      UNI_T(int32_t),
      UNI_T(uint32_t),
      UNI_T(int64_t),
      UNI_T(uint64_t),
      UNI_T(long long),
      UNI_T(char16_t),
      UNI_T(wchar_t),
      UNI_T(float),
      UNI_T(double),
      UNI_T(E8),
      UNI_T(E32),
      UNI_T(EB),
      UNI_T(Old),
      UNI_T(std::chrono::milliseconds),
      UNI_T(std::chrono::nanoseconds),
      UNI_T(std::chrono::duration<int32_t, std::ratio<60>>),
      UNI_T(std::chrono::system_clock::time_point),
      UNI_T(std::chrono::time_point<std::chrono::steady_clock, std::chrono::seconds>)};
  return t;
}
}  // namespace uni
