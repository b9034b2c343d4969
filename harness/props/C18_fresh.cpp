#include "fresh.h"
using namespace pbt;
using namespace rc;
using namespace rcx;

// The parts of combined generators are drawn from splits of what they were given.
FACET(fresh, 1) {
  using G = Gen<int>;
  switch (s.draw(13)) {
  case 0: fresh(s, c, "pair", true, [&](const G &g) { return gen::pair(g, g); }); break;
  case 1: fresh(s, c, "tuple of one", true, [&](const G &g) { return gen::tuple(g); }); break;
  case 2: fresh(s, c, "tuple", true, [&](const G &g) { return gen::tuple(g, g, g); }); break;
  case 3: fresh(s, c, "wide tuple", true, [&](const G &g) { return gen::tuple(g, g, g, g, g, g, g, g, g, g, g); }); break;
  case 4: fresh(s, c, "nested", true, [&](const G &g) { return gen::pair(gen::tuple(g, gen::pair(g, g)), gen::tuple(g, g)); }); break;
  case 5: fresh(s, c, "apply", true, [&](const G &g) { return gen::apply([](int x, int y) { return x - y; }, g, g); }); break;
  case 6: fresh(s, c, "construct", true, [&](const G &g) { return (gen::construct<std::pair<int, int>>(g, g)); }); break;
  case 7: fresh(s, c, "map", false, [&](const G &g) { return gen::map(g, [](int x) { return x + 1; }); }); break;
  case 8: fresh(s, c, "cast", false, [&](const G &g) { return gen::cast<long>(g); }); break;
  case 9: fresh(s, c, "mapcat", false, [&](const G &g) { return gen::mapcat(g, [g](int x) { return gen::pair(g, gen::just(x)); }); }); break;
  case 10: fresh(s, c, "mapcat outer", false, [&](const G &g) { return gen::mapcat(g, [](int x) { return gen::just(x); }); }); break;
  case 11: fresh(s, c, "mapcat inner", false, [&](const G &g) { return gen::mapcat(gen::just(1), [g](int) { return g; }); }); break;
  case 12: fresh(s, c, "join", false, [&](const G &g) { return gen::join(gen::just(g)); }); break;
  default: fresh(s, c, "join of pairs", false, [&](const G &g) { return gen::join(gen::map(g, [g](int) { return gen::pair(g, g); })); }); break;
  }
}
