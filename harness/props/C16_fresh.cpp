#include "fresh.h"
using namespace pbt;
using namespace rc;
using namespace rcx;

// Every try is drawn from a split of what the filter was given.
FACET(fresh, 1) {
  using G = Gen<int>;
  const uint64_t m = 2 + s.draw(40);
  switch (s.draw(4)) {
  case 0: fresh(s, c, "suchThat", true, [&](const G &g) { return gen::suchThat(g, [=](int x) { return uint64_t(x) % m == 0; }); }); break;
  case 1: fresh(s, c, "distinctFrom", true, [&](const G &g) { return gen::distinctFrom(gen::map(g, [=](int x) { return int(uint64_t(x) % 2); }), 1); }); break;
  case 2: fresh(s, c, "nested", true, [&](const G &g) { return gen::suchThat(gen::suchThat(g, [=](int x) { return x % 2 == 0; }), [=](int x) { return uint64_t(x) % m < 2; }); }); break;
  case 3: fresh(s, c, "pair", true, [&](const G &g) { return gen::pair(gen::suchThat(g, [=](int x) { return uint64_t(x) % m < 2; }), gen::suchThat(g, [=](int x) { return x % 3 == 0; })); }); break;
  default: fresh(s, c, "never", true, [&](const G &g) { return gen::suchThat(g, [](int) { return false; }); }); break;
  }
}
