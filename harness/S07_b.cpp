#pragma GCC optimize("O0")
#include "S07.h"
namespace s07 {
void part2(std::vector<Entry>& v) { add_all(v, map_t<Nest, map_t<Nest, Few>>()); }
}
