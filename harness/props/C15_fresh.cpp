#include "fresh.h"
#include <list>
using namespace pbt;
using namespace rc;
using namespace rcx;

// Elements are drawn from splits of what the container was given.
FACET(fresh, 1) {
  using G = Gen<int>;
  const size_t n = s.draw(20);
  switch (s.draw(4)) {
  case 0: fresh(s, c, "unique", true, [&](const G &g) { return gen::unique<std::vector<int>>(n, g); }); break;
  case 1: fresh(s, c, "unique of any length", true, [&](const G &g) { return gen::unique<std::vector<int>>(g); }); break;
  case 2: fresh(s, c, "unique list", true, [&](const G &g) { return gen::unique<std::list<int>>(n, g); }); break;
  case 3: fresh(s, c, "uniqueBy", true, [&](const G &g) { return gen::uniqueBy<std::vector<int>>(n, g, [](int x) { return x / 3; }); }); break;
  default: fresh(s, c, "uniqueBy of any length", true, [&](const G &g) { return gen::uniqueBy<std::vector<int>>(g, [](int x) { return -x; }); }); break;
  }
}
