#include "fresh.h"
#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
using namespace pbt;
using namespace rc;
using namespace rcx;

// Elements, keys and values are drawn from splits of what the container was given.
FACET(fresh, 1) {
  using G = Gen<int>;
  const size_t n = s.draw(20);
  switch (s.draw(11)) {
  case 0: fresh(s, c, "vector", true, [&](const G &g) { return gen::container<std::vector<int>>(n, g); }); break;
  case 1: fresh(s, c, "list", true, [&](const G &g) { return gen::container<std::list<int>>(n, g); }); break;
  case 2: fresh(s, c, "deque", true, [&](const G &g) { return gen::container<std::deque<int>>(n, g); }); break;
  case 3: fresh(s, c, "set", true, [&](const G &g) { return gen::container<std::set<int>>(n, g); }); break;
  case 4: fresh(s, c, "unordered_multiset", true, [&](const G &g) { return gen::container<std::unordered_multiset<int>>(n, g); }); break;
  case 5: fresh(s, c, "map of a length", true, [&](const G &g) { return (gen::container<std::map<int, int>>(n, g, g)); }); break;
  case 6: fresh(s, c, "map of a length, repeated", true, [&](const G &g) { return (gen::container<std::multimap<int, int>>(n, g, g)); }); break;
  case 7: fresh(s, c, "vector of any length", true, [&](const G &g) { return gen::container<std::vector<int>>(g); }); break;
  case 8: fresh(s, c, "set of any length", true, [&](const G &g) { return gen::container<std::set<int>>(g); }); break;
  case 9: fresh(s, c, "map of any length", true, [&](const G &g) { return (gen::container<std::unordered_map<int, int>>(g, g)); }); break;
  case 10: fresh(s, c, "array", true, [&](const G &g) { return (gen::container<std::array<int, 7>>(g)); }); break;
  default: fresh(s, c, "nested", true, [&](const G &g) { return gen::container<std::vector<std::vector<int>>>(n, gen::container<std::vector<int>>(3, g)); }); break;
  }
}
