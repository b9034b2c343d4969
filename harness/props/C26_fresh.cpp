#include "fresh.h"
using namespace pbt;
using namespace rc;
using namespace rcx;

// Picks draw from splits of what the body was given.
FACET(fresh, 1) {
  using G = Gen<int>;
  const size_t n = s.draw(40);
  switch (s.draw(5)) {
  case 0: fresh(s, c, "picks", true, [&](const G &g) { return gen::exec([g] { return *g + *g + *g; }); }); break;
  case 1: fresh(s, c, "one pick", true, [&](const G &g) { return gen::exec([g] { return *g; }); }); break;
  case 2: fresh(s, c, "many picks", true, [&](const G &g) { return gen::exec([g, n] { int x = 0; for (size_t i = 0; i < n; i++) x ^= *g; return x; }); }); break;
  case 3: fresh(s, c, "nested", true, [&](const G &g) { return gen::exec([g] { const int x = *g; const int y = *gen::exec([g] { return *g - *g; }); return x + y + *g; }); }); break;
  case 4: fresh(s, c, "pair", true, [&](const G &g) { return gen::pair(gen::exec([g] { return *g + *g; }), gen::exec([g] { return *g; })); }); break;
  default: fresh(s, c, "picked pairs", true, [&](const G &g) { return gen::exec([g] { return *gen::pair(g, g); }); }); break;
  }
}
