#pragma once
#include "C14.h"

namespace {
// A key that can only be ordered.
struct OnlyLess {
  int k;
  bool operator<(const OnlyLess &o) const { return k < o.k; }
};
struct KeyFn {
  int kind, n; // 0 identity, 1 modulo, 2 quotient, 3 constant
  int operator()(int x) const { return kind == 0 ? x : kind == 1 ? x % n : kind == 2 ? x / n : 0; }
};
int raw(int x) { return x; }
int raw(const std::unique_ptr<int> &x) { return *x; }

template <typename C, typename MakeGen> void uniq(Src &s, Ctx &c, const char *name, int fixedCount, MakeGen make, bool plain = false) {
  const Elem e = anyElem(s, 1000);
  const KeyFn key = plain ? KeyFn{0, 1} : KeyFn{int(s.oneOf({1, 2, 0, 3, 1})), int(2 + s.draw(9))};
  const int size = s.draw(3) == 0 ? int(s.draw(40)) : int(s.draw(8));
  const bool fixed = fixedCount >= 0 || s.draw(2) == 0;
  const size_t count = fixedCount >= 0 ? size_t(fixedCount) : fixed ? (s.draw(5) == 0 ? s.draw(30) : s.draw(6)) : 0;
  std::set<int> classes;
  for (int v = 0; v < e.d; v++)
    classes.insert(key(e.base + v));
  const std::string what = cat(name, fixed ? cat(" of ", count) : "", " size ", size, " domain ", e.d, e.sized ? " sized" : "", " shrink kind ", e.kind,
                               " key ", key.kind, "/", key.n);
  c.label(cat(name, fixed ? " fixed" : ""));
  const Gen<C> g = make(e, key, fixed, count);
  Maybe<Shrinkable<C>> got;
  try {
    auto sh = g(anyRandom(s), size);
    sh.value();
    got = sh;
  } catch (const GenerationFailure &) {
    REQ((fixed ? count : size_t(size)) * 4 > classes.size() || e.sized, "generation failed for ", what);
    c.label("generation failed");
    return;
  }
  REQ(!fixed || count <= classes.size(), "yielded a value for ", what);
  const auto get = [&](const Shrinkable<C> &sh) {
    std::vector<int> out;
    const auto v = sh.value();
    for (auto &x : v)
      out.push_back(raw(x));
    return out;
  };
  const auto validate = [&](const std::vector<int> &x) {
    REQ(fixed ? x.size() == count : x.size() <= size_t(size), "length ", x.size(), " in ", what);
    std::set<int> keys;
    for (int v : x) {
      REQ(v >= e.base && v < e.base + e.d, v, " is not from the generator in ", what);
      REQ(keys.insert(key(v)).second, "duplicate key ", key(v), " in ", listStr(x), " of ", what);
    }
    return keys;
  };
  int budget = 300;
  randomWalk(s, *got, 10, 8, [&](const Shrinkable<C> &n, int) {
    const auto x = get(n);
    const auto keys = validate(x);
    // The shrinks there have to be, as a set.
    std::multiset<std::vector<int>> expect;
    if (!fixed)
      for (size_t a = 0; a < x.size(); a++)
        for (size_t b = a + 1; b <= x.size(); b++) {
          auto y = x;
          y.erase(y.begin() + a, y.begin() + b);
          expect.insert(y);
        }
    for (size_t i = 0; i < x.size(); i++)
      for (int v : e.shrinks(x[i]))
        if (key(v) == key(x[i]) || !keys.count(key(v))) {
          auto y = x;
          y[i] = v;
          expect.insert(y);
          c.nontrivial(x.size() > 1);
        }
    auto seq = n.shrinks();
    while (budget-- > 0) {
      auto k = seq.next();
      if (!k) {
        REQ(expect.empty(), "missing shrink ", listStr(*expect.begin()), " of ", listStr(x), " in ", what);
        break;
      }
      const auto y = get(*k);
      validate(y);
      const auto it = expect.find(y);
      REQ(it != expect.end(), "unexpected shrink ", listStr(y), " of ", listStr(x), " in ", what);
      expect.erase(it);
    }
  });
  const auto full = get(*got);
  if (e.kind == 1 && !fixed && !full.empty()) {
    const int thr = std::max(e.base, full[s.below(full.size())] - int(s.draw(3)));
    int steps = 0;
    const auto min = get(greedy(*got, [&](const Shrinkable<C> &x) {
      for (int v : get(x))
        if (v >= thr)
          return true;
      return false;
    }, steps, 300000));
    REQ(steps >= 300000 || (min.size() == 1 && min[0] == thr), "an element >= ", thr, " minimised to ", listStr(min), " from ", listStr(full), " in ", what);
  }
  c.sample(cat(what, ": ", listStr(full)));
}
template <typename C> Gen<C> byKey(const Elem &e, const KeyFn &key, bool fixed, size_t count) {
  return fixed ? gen::uniqueBy<C>(count, e.gen(), key) : gen::uniqueBy<C>(e.gen(), key);
}
} // namespace
