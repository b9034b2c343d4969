#include "fresh.h"
using namespace pbt;
using namespace rc;
using namespace rcx;

// What is wrapped draws from what the wrapper was given.
FACET(fresh, 1) {
  using G = Gen<int>;
  switch (s.draw(3)) {
  case 0: fresh(s, c, "maybe", false, [&](const G &g) { return gen::maybe(g); }); break;
  case 1: fresh(s, c, "maybe of maybe", false, [&](const G &g) { return gen::maybe(gen::maybe(g)); }); break;
  case 2: fresh(s, c, "maybe of pair", true, [&](const G &g) { return gen::maybe(gen::pair(g, g)); }); break;
  default: fresh(s, c, "pair", true, [&](const G &g) { return gen::pair(gen::maybe(g), gen::maybe(g)); }); break;
  }
}
