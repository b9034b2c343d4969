#include "C31.h"
using namespace pbt;
using namespace c31;
FACET(sequences, 3) {
  using F = void (*)(Src &, Ctx &, bool);
  static const F f[] = {
      checkShow<std::vector<int>>, checkShow<std::vector<bool>>, checkShow<std::deque<char>>,
      checkShow<std::list<std::string>>, checkShow<std::forward_list<Both>>,
      checkShow<std::array<Mute, 3>>, checkShow<std::array<int, 0>>,
      checkShow<std::vector<std::vector<std::string>>>, checkShow<std::vector<Grouped>>,
      checkShow<std::list<std::vector<Grouped>>>, checkShow<std::deque<Grouped>>,
      checkShow<std::vector<std::pair<Grouped, int>>>, checkShow<std::vector<Solo>>,
      checkShow<std::vector<std::tuple<int, Streamed, std::string>>>,
      checkShow<std::vector<Wrap<std::vector<Both>>>, false>, checkShow<std::vector<Color>>};
  f[s.below(sizeof f / sizeof f[0])](s, c, false);
}
FACET(pairs, 3) {
  using F = void (*)(Src &, Ctx &, bool);
  static const F f[] = {
      checkShow<std::pair<int, std::string>>, checkShow<std::pair<std::pair<bool, char>, Both>>,
      checkShow<std::tuple<int>>, checkShow<std::tuple<std::tuple<>, std::tuple<std::string>>>,
      checkShow<std::tuple<double, std::string, double, char, Streamed, std::vector<int>>>,
      checkShow<std::pair<std::vector<Grouped>, std::pair<Grouped, int>>>,
      checkShow<std::tuple<std::pair<Grouped, int>, Shape, Mute>>,
      checkShow<std::tuple<int, std::tuple<int, std::tuple<int, std::tuple<Both>>>>>};
  f[s.below(sizeof f / sizeof f[0])](s, c, false);
}
