#include "fresh.h"
using namespace pbt;
using namespace rc;
using namespace rcx;

// The chosen generator draws from what the choice was given.
FACET(fresh, 1) {
  using G = Gen<int>;
  const size_t w = s.draw(9);
  switch (s.draw(5)) {
  case 0: fresh(s, c, "oneOf", false, [&](const G &g) { return gen::oneOf(g, g, g); }); break;
  case 1: fresh(s, c, "oneOf single", false, [&](const G &g) { return gen::oneOf(g); }); break;
  case 2: fresh(s, c, "weightedOneOf", false, [&](const G &g) { return (gen::weightedOneOf<int>({{1, g}, {w, g}, {2, g}})); }); break;
  case 3: fresh(s, c, "nested", false, [&](const G &g) { return gen::oneOf(gen::oneOf(g, g), gen::weightedOneOf<int>({{w + 1, g}, {3, g}})); }); break;
  case 4: fresh(s, c, "pair", true, [&](const G &g) { return gen::pair(gen::oneOf(g, g), gen::oneOf(g, g)); }); break;
  default: fresh(s, c, "of pairs", true, [&](const G &g) { return gen::oneOf(gen::pair(g, g), gen::pair(g, g)); }); break;
  }
}
