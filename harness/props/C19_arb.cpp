// Bindings and arguments without an explicit generator use the arbitrary one.
#include "C19.h"
namespace {
using namespace C19;
template <typename T> struct Same { static void run(Ctx &c, const Gen<T> &a, const Gen<T> &b, const Random &random, int size, const std::string &what) {
  int budget = 120;
  const auto d = sameTree<T>(a(random, size), b(random, size), budget, 4);
  REQ(d.empty(), d, " in ", what);
  c.nontrivial(budget < 115);
} };
} // namespace
FACET(defaults, 3) {
  const Random random = anyRandom(s);
  const int size = anySize(s, 60);
  switch (s.draw(5)) {
  case 0: Same<Obj>::run(c, gen::build<Obj>(gen::set(&Obj::a), gen::set(&Obj::t)),
                         gen::build<Obj>(gen::set(&Obj::a, gen::arbitrary<int64_t>()), gen::set(&Obj::t, gen::arbitrary<std::string>())), random, size, "set without a generator"); break;
  case 1: Same<Obj>::run(c, gen::build<Obj>(gen::set(&Obj::setB), gen::set(&Obj::setT)),
                         gen::build<Obj>(gen::set(&Obj::setB, gen::arbitrary<int64_t>()), gen::set(&Obj::setT, gen::arbitrary<std::string>())), random, size, "setter without a generator"); break;
  case 2: Same<Obj>::run(c, gen::build<Obj>(gen::set(&Obj::setAT)),
                         gen::build<Obj>(gen::set(&Obj::setAT, gen::tuple(gen::arbitrary<int64_t>(), gen::arbitrary<std::string>()))), random, size, "two-argument setter without a generator"); break;
  case 3: Same<Obj>::run(c, gen::build<Obj>(gen::set(&Obj::setABC)),
                         gen::build<Obj>(gen::set(&Obj::setABC, gen::tuple(gen::arbitrary<int64_t>(), gen::arbitrary<int64_t>(), gen::arbitrary<int64_t>()))), random, size, "three-argument setter without a generator"); break;
  case 4: Same<Arg>::run(c, gen::construct<Arg, int64_t, std::string, int64_t>(),
                         gen::construct<Arg>(gen::arbitrary<int64_t>(), gen::arbitrary<std::string>(), gen::arbitrary<int64_t>()), random, size, "construct without generators"); break;
  default: { // a binding whose generator has another, convertible type
    const auto src = anySrc<int>(s, 8);
    const auto sh = gen::build<Obj>(gen::set(&Obj::a, src.gen()))(random, size);
    sh.value();
    compare<Obj>(c, sh, lazyMap<int>(lazy<int>(src.calls->front().tree), [](int x) { Obj o; o.a = x; return o; }), "set from a convertible generator");
  }
  }
}
