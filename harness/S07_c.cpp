#pragma GCC optimize("O0")
#include "S07.h"
namespace s07 {
template <typename A> using WithPairs = L<std::pair<A, char>, std::pair<A, short>, std::pair<A, unsigned>, std::pair<A, double>, std::tuple<A, char, short>, std::tuple<short, A, char>, std::tuple<char, short, A>, std::map<short, A>, std::unordered_map<unsigned, A>,
  std::tuple<A, std::tuple<char>>, std::tuple<std::tuple<A>, char>, std::tuple<std::tuple<A, char>>, std::array<std::array<A, 2>, 3>, std::array<std::array<A, 3>, 2>, std::array<A, 6>, A[2][3], A[3][2], A[6], std::array<A, 255>, std::array<A, 256>, std::array<A, 257>, std::array<A, 65536>,
  void(A, char), void(char, A), A(char), char(A), char(A) const, void(A, A), A(A), void(std::tuple<A, A>)>;
void part3(std::vector<Entry>& v) { add_all(v, map_t<WithPairs, L<bool, char, int, unsigned long, float, EU8>>()); }
}
