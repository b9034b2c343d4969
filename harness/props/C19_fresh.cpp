#include "fresh.h"
using namespace pbt;
using namespace rc;
using namespace rcx;

// Members draw from splits of what the object was given.

namespace {
struct Pt {
  int x = 0, y = 0, z = 0;
  void setZ(int v) { z = v; }
};
}
FACET(fresh, 1) {
  using G = Gen<int>;
  switch (s.draw(5)) {
  case 0: fresh(s, c, "construct", true, [&](const G &g) { return (gen::construct<std::pair<int, int>>(g, g)); }); break;
  case 1: fresh(s, c, "makeUnique", true, [&](const G &g) { return (gen::makeUnique<std::pair<int, int>>(g, g)); }); break;
  case 2: fresh(s, c, "makeShared", true, [&](const G &g) { return (gen::makeShared<std::pair<int, int>>(g, g)); }); break;
  case 3: fresh(s, c, "build of one", true, [&](const G &g) { return gen::build<Pt>(gen::set(&Pt::x, g)); }); break;
  case 4: fresh(s, c, "build", true, [&](const G &g) { return gen::build<Pt>(gen::set(&Pt::x, g), gen::set(&Pt::y, g), gen::set(&Pt::setZ, g)); }); break;
  default: fresh(s, c, "build with a base", true, [&](const G &g) { return gen::build(gen::map(g, [](int v) { Pt p; p.x = v; return p; }), gen::set(&Pt::y, g), gen::set(&Pt::setZ, g)); }); break;
  }
}
