// C19: object builders set every member from its own generator.
#include "C19.h"
FACET(build_value, 6) { C19::buildCase<C19::Obj>(s, c); }
FACET(construct, 4) {
  using namespace C19;
  const auto a = anySrc<int64_t>(s, 6), d = anySrc<int64_t>(s, 6);
  const auto b = anySrc<std::string>(s, 5);
  const Random random = anyRandom(s);
  const int size = anySize(s);
  const auto show = [](const Arg &x) { return cat(x.x, ",", x.s, ",", x.y); };
  const auto ref = [&] {
    return lazyMap<std::tuple<int64_t, std::string, int64_t>>(
        lazyTuple<int64_t, std::string, int64_t>(a.calls->front().tree, b.calls->front().tree, d.calls->front().tree),
        [](const std::tuple<int64_t, std::string, int64_t> &t) { return cat(std::get<0>(t), ",", std::get<1>(t), ",", std::get<2>(t)); });
  };
  const auto calls = [&](const std::string &what) {
    oneCall(c, a, size, what);
    oneCall(c, b, size, what);
    oneCall(c, d, size, what);
    REQ(a.calls->front().random != b.calls->front().random && a.calls->front().random != d.calls->front().random &&
            b.calls->front().random != d.calls->front().random,
        "arguments share a random state in ", what);
  };
  switch (s.draw(3)) {
  case 0: {
    const auto sh = gen::construct<Arg>(a.gen(), b.gen(), d.gen())(random, size);
    sh.value();
    compare<std::string>(c, shrinkable::map(sh, [=](Arg &&x) { return show(x); }), ref(), "construct");
    calls("construct");
    break;
  }
  case 1: {
    const auto sh = gen::makeUnique<Arg>(a.gen(), b.gen(), d.gen())(random, size);
    sh.value();
    compare<std::string>(c, shrinkable::map(sh, [=](std::unique_ptr<Arg> &&x) { return show(*x); }), ref(), "makeUnique");
    calls("makeUnique");
    fresh<std::unique_ptr<Arg>>(s, c, sh, "makeUnique");
    break;
  }
  case 2: {
    const auto sh = gen::makeShared<Arg>(a.gen(), b.gen(), d.gen())(random, size);
    sh.value();
    compare<std::string>(c, shrinkable::map(sh, [=](std::shared_ptr<Arg> &&x) { return show(*x); }), ref(), "makeShared");
    calls("makeShared");
    fresh<std::shared_ptr<Arg>>(s, c, sh, "makeShared");
    break;
  }
  default: { // move-only arguments are moved through
    const auto g = gen::map(a.gen(), [](int64_t x) { return std::unique_ptr<int64_t>(new int64_t(x)); });
    const auto sh = gen::construct<Owner>(g, b.gen())(random, size);
    sh.value();
    const auto r2 = lazyMap<std::tuple<int64_t, std::string>>(
        lazyTuple<int64_t, std::string>(a.calls->front().tree, b.calls->front().tree),
        [](const std::tuple<int64_t, std::string> &t) { return cat(std::get<0>(t), ",", std::get<1>(t)); });
    compare<std::string>(c, shrinkable::map(sh, [](Owner &&x) { return cat(x.p ? *x.p : -1, ",", x.s); }), r2, "construct from move-only");
    const auto su = gen::makeUnique<Owner>(g, b.gen())(random, size);
    compare<std::string>(c, shrinkable::map(su, [](std::unique_ptr<Owner> &&x) { return cat(x->p ? *x->p : -1, ",", x->s); }), r2, "makeUnique from move-only");
  }
  }
}
FACET(nullary, 1) {
  using namespace C19;
  const Random random = anyRandom(s);
  const int size = anySize(s);
  int budget = 10;
  if (s.flag()) {
    const auto sh = gen::makeShared<Obj>()(random, size);
    const auto x = sh.value(), y = sh.value();
    REQ(x && y && x != y && *x == Obj(), "makeShared without arguments");
    REQ(!sh.shrinks().next(), "makeShared without arguments has shrinks");
  } else {
    const auto sh = gen::construct<Obj>()(random, size);
    REQ(sh.value() == Obj() && !sh.shrinks().next(), "construct without arguments");
    const auto su = gen::makeUnique<Obj>()(random, size);
    REQ(*su.value() == Obj() && !su.shrinks().next(), "makeUnique without arguments");
  }
  (void)budget;
}
