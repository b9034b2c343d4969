#include "C33_ops.h"
#include <list>
#include <unordered_set>
namespace c33 {
namespace {
// Val generators over the other kind and over plain numbers.
Gen<Val> leafVal(Src &s, World &w, int &cost, std::string &d) {
  const int64_t salt = s.range(0, 6);
  auto *g = w.b.gens.usable(s, 5);
  switch (s.draw(g ? 5 : 2)) {
  case 0: d = "inRange"; return gen::map(gen::inRange<int>(0, 20), IntFn(salt));
  case 1: d = "arbitrary"; return gen::map(gen::arbitrary<int>(), IntFn(salt));
  case 2: {
    d = "own generator";
    const Own own(salt);
    return Gen<Val>([own](const Random &r, int n) {
      Random copy(r);
      const int64_t v = static_cast<int64_t>(copy.next() % 7) + n + own.salt();
      return shrinkable::shrinkRecur(Val(v), [own](const Val &x) {
        return x.get() > own.salt() ? seq::just(Val(x.get() / 2), Val(plus(x.get(), -1))) : Seq<Val>();
      });
    });
  }
  case 3: cost = g->cost + 2; d = "sum"; return gen::map(w.b.gens.arg(s, *g), SumFn(salt));
  case 4: {
    cost = g->cost + 2;
    d = "construct";
    return gen::map(gen::makeShared<Vec>(w.b.gens.arg(s, *g)),
                    [](const std::shared_ptr<Vec> &p) { return Val(code(*p)); });
  }
  default: {
    cost = g->cost + 3;
    d = "exec over vectors";
    const Gen<Vec> x = w.b.gens.arg(s, *g);
    const SumFn f(salt);
    return gen::exec([x, f] { return f(*x); });
  }
  }
}
Gen<Vec> leafVec(Src &s, World &w, int &cost, std::string &d) {
  const int64_t salt = s.range(0, 6);
  auto *g = w.a.gens.usable(s, 4);
  if (!g) {
    d = "just";
    return gen::just(anyVec(s));
  }
  cost = g->cost + 3;
  const size_t n = s.draw(5);
  const Gen<Val> x = w.a.gens.arg(s, *g);
  switch (s.draw(10)) {
  case 0: d = "container"; return gen::container<Vec>(x);
  case 1: d = "container of fixed size"; return gen::container<Vec>(n, x);
  case 2: d = "unique"; return gen::unique<Vec>(x);
  case 3: d = "uniqueBy"; return gen::uniqueBy<Vec>(n % 3, x, KeyFn(salt));
  case 4: d = "uniqueBy of any size"; return gen::uniqueBy<Vec>(x, KeyFn(salt));
  case 5: {
    d = "list";
    return gen::map(gen::container<std::list<Val>>(x), [](std::list<Val> &&l) {
      return Vec(l.begin(), l.end());
    });
  }
  case 6: {
    d = "set";
    return gen::map(gen::container<std::set<Val>>(x), [](const std::set<Val> &l) {
      return Vec(l.begin(), l.end());
    });
  }
  case 7: {
    d = "map";
    return gen::map(gen::container<std::map<Val, Val>>(x, x), [](std::map<Val, Val> m) {
      Vec v;
      for (auto &p : m) {
        v.push_back(p.first);
        v.push_back(std::move(p.second));
      }
      return v;
    });
  }
  case 8: {
    d = "tuple";
    return gen::map(gen::tuple(x, x, gen::maybe(x)), [](std::tuple<Val, Val, Maybe<Val>> &&t) {
      Vec v{std::get<0>(t), std::move(std::get<1>(t))};
      if (std::get<2>(t))
        v.push_back(std::move(*std::get<2>(t)));
      return v;
    });
  }
  case 9: {
    d = "uniquely owned";
    return gen::map(gen::container<std::vector<std::unique_ptr<Val>>>(gen::makeUnique<Val>(x)),
                    [](std::vector<std::unique_ptr<Val>> &&v) {
                      Vec out;
                      for (auto &p : v)
                        out.push_back(std::move(*p));
                      return out;
                    });
  }
  default: {
    d = "pair";
    return gen::map(gen::pair(gen::container<std::array<Val, 2>>(x), x),
                    [](std::pair<std::array<Val, 2>, Val> &&p) {
                      return Vec{p.first[0], p.first[1], p.second};
                    });
  }
  }
}
} // namespace
void makeGen(Src &s, World &w, Val *) {
  int cost = 0;
  std::string d;
  Gen<Val> g = s.flag() ? leafVal(s, w, cost, d) : genericGen<Val>(s, w, cost, d);
  w.last = d;
  const State st = made();
  throwIn = 0;
  if (s.draw(4) == 0)
    g = g.as("name");
  w.a.gens.add(std::move(g), cost, d, st);
}
void makeGen(Src &s, World &w, Vec *) {
  int cost = 0;
  std::string d;
  Gen<Vec> g = s.draw(2) ? leafVec(s, w, cost, d) : genericGen<Vec>(s, w, cost, d);
  w.last = d;
  const State st = made();
  throwIn = 0;
  w.b.gens.add(std::move(g), cost, d, st);
}
} // namespace c33
