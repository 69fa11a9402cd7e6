#pragma GCC optimize("O0")
#include "S07.h"
namespace s07 {
void part1(std::vector<Entry>& v) {
  add_all(v, Scalars()); add_all(v, L<void, std::string, std::string_view, std::tuple<>>());
  add_all(v, map_t<Unary, Scalars>());
}
}
