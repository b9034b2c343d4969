#include "C15.h"

FACET(plain, 2) {
  using V = std::vector<int>;
  if (s.flag())
    uniq<V>(s, c, "unique vector", -1, [](const Elem &e, const KeyFn &, bool fixed, size_t n) {
      return fixed ? gen::unique<V>(n, e.gen()) : gen::unique<V>(e.gen());
    }, true);
  else
    uniq<std::forward_list<int>>(s, c, "unique forward_list", -1, [](const Elem &e, const KeyFn &, bool fixed, size_t n) {
      return fixed ? gen::unique<std::forward_list<int>>(n, e.gen()) : gen::unique<std::forward_list<int>>(e.gen());
    }, true);
}

// Keys that are only ordered, keys that are strings, elements that only move.
FACET(keys, 3) {
  switch (s.draw(2)) {
  case 0: {
    using V = std::vector<int>;
    uniq<V>(s, c, "only-less key", -1, [](const Elem &e, const KeyFn &k, bool fixed, size_t n) {
      const auto f = [k](int x) { return OnlyLess{k(x)}; };
      return fixed ? gen::uniqueBy<V>(n, e.gen(), f) : gen::uniqueBy<V>(e.gen(), f);
    });
    break;
  }
  case 1: {
    using V = std::list<int>;
    uniq<V>(s, c, "string key", -1, [](const Elem &e, const KeyFn &k, bool fixed, size_t n) {
      const auto table = std::make_shared<std::map<int, std::string>>();
      const auto f = [k, table](int x) -> const std::string & { return (*table)[x] = std::string(40, 'k') + std::to_string(k(x)); };
      return fixed ? gen::uniqueBy<V>(n, e.gen(), f) : gen::uniqueBy<V>(e.gen(), f);
    });
    break;
  }
  default: {
    using P = std::unique_ptr<int>;
    using V = std::vector<P>;
    uniq<V>(s, c, "move-only elements", -1, [](const Elem &e, const KeyFn &k, bool fixed, size_t n) {
      const auto f = [k](const P &x) { return k(*x); };
      const auto g = gen::map(e.gen(), [](int x) { return P(new int(x)); });
      return fixed ? gen::uniqueBy<V>(n, g, f) : gen::uniqueBy<V>(g, f);
    });
  }
  }
}

// Many elements: every shrink, in all parts of the container.
FACET(many, 1) {
  const size_t n = 20 + s.draw(s.flag() ? 30 : 160);
  const int key = int(s.draw(2)), span = int(n + 1 + s.draw(n)) * (key == 1 ? 3 : 1);
  const auto keyOf = [key](int x) { return key == 0 ? x : key == 1 ? x / 3 : -x; };
  const bool plain = key == 0 && s.flag(), sized = s.draw(2) == 0;
  const uint64_t salt = s.draw(1000);
  // Values shrink to random smaller ones, so that collisions are everywhere.
  const Gen<int> elem([=](const Random &random, int) {
    Random r(random);
    return shrinkable::shrinkRecur(int(r.next() % uint64_t(span)), [=](int x) {
      std::vector<int> to;
      for (uint64_t i = 0; i < 3 && x > 0; i++)
        to.push_back(int(hash64(salt + i, uint64_t(x)) % uint64_t(x)));
      return seq::fromContainer(to);
    });
  });
  const auto shrinksOf = [=](int x) {
    std::vector<int> to;
    for (uint64_t i = 0; i < 3 && x > 0; i++)
      to.push_back(int(hash64(salt + i, uint64_t(x)) % uint64_t(x)));
    return to;
  };
  using V = std::vector<int>;
  const auto g = plain ? (sized ? gen::unique<V>(elem) : gen::unique<V>(n, elem)) : sized ? gen::uniqueBy<V>(elem, keyOf) : gen::uniqueBy<V>(n, elem, keyOf);
  Maybe<Shrinkable<V>> cur;
  try {
    auto sh = g(anyRandom(s), int(n));
    sh.value();
    cur = sh;
  } catch (const GenerationFailure &) {
    c.label("generation failed");
    return;
  }
  for (int level = 0; level < 3; level++) {
    const V x = cur->value();
    std::set<int> keys;
    for (int v : x)
      REQ(keys.insert(keyOf(v)).second, "duplicate key in ", listStr(x), " after ", level, " shrinks");
    REQ(sized ? x.size() <= n : x.size() == n, x.size(), " elements instead of ", n);
    // Element shrinks only: those that remove elements come first.
    std::vector<std::pair<size_t, int>> want;
    for (size_t i = 0; i < x.size(); i++)
      for (int v : shrinksOf(x[i]))
        if (keyOf(v) == keyOf(x[i]) || !keys.count(keyOf(v)))
          want.emplace_back(i, v);
    auto q = cur->shrinks();
    const size_t stop = want.empty() ? 0 : s.below(want.size());
    Maybe<Shrinkable<V>> next;
    size_t at = 0;
    while (auto k = q.next()) {
      const V y = k->value();
      if (y.size() < x.size()) {
        REQ(sized, "a shrink has ", y.size(), " elements instead of ", n);
        if (!next && s.draw(20) == 0)
          next = *k;
        continue;
      }
      REQ(at < want.size(), "more than ", want.size(), " shrinks of elements of ", listStr(x));
      size_t i = 0;
      while (i < x.size() && y[i] == x[i])
        i++;
      REQ(i == want[at].first && y[i] == want[at].second, "element ", i, " shrunk to ", i < y.size() ? y[i] : 0, " instead of element ", want[at].first,
          " to ", want[at].second, " in ", listStr(x));
      while (++i < x.size())
        REQ(y[i] == x[i], "another element changed too in ", listStr(y));
      if (at++ == stop)
        next = std::move(*k);
    }
    REQ_EQ(at, want.size(), "shrinks of elements of ", listStr(x));
    if (x.size() > 32)
      c.nontrivial(true);
    if (!next)
      break;
    cur = std::move(next);
  }
  c.label(sized ? "many, sized" : "many, fixed");
}
