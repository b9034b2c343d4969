#include "fresh.h"
using namespace pbt;
using namespace rc;
using namespace rcx;

// Controls pass on what they were given.
FACET(fresh, 1) {
  using G = Gen<int>;
  const int n = int(s.draw(200));
  switch (s.draw(7)) {
  case 0: fresh(s, c, "resize", false, [&](const G &g) { return gen::resize(n, g); }); break;
  case 1: fresh(s, c, "scale", false, [&](const G &g) { return gen::scale(1.5, g); }); break;
  case 2: fresh(s, c, "withSize", false, [&](const G &g) { return gen::withSize([g](int) { return g; }); }); break;
  case 3: fresh(s, c, "noShrink", false, [&](const G &g) { return gen::noShrink(g); }); break;
  case 4: fresh(s, c, "shrink", false, [&](const G &g) { return gen::shrink(g, [](int) { return seq::just(0); }); }); break;
  case 5: fresh(s, c, "lazy", false, [&](const G &g) { return gen::lazy([g] { return g; }); }); break;
  case 6: fresh(s, c, "as", false, [&](const G &g) { return g.as("name"); }); break;
  default: fresh(s, c, "pair", true, [&](const G &g) { return gen::pair(gen::resize(n, g), gen::noShrink(gen::scale(0.5, g))); }); break;
  }
}
