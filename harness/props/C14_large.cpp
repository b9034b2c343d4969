#include "C14.h"

namespace {
// Elements of which only a few can shrink, so that all shrinks of a large
// container can be looked at.
struct Rare {
  uint64_t salt;
  int span, rare;
  std::vector<int> shrinks(int x) const {
    if (x <= 1 || hash64(salt, uint64_t(x)) % uint64_t(rare) != 0)
      return {};
    if (x % 3 == 0)
      return {x / 2};
    return x / 2 == x - 1 ? std::vector<int>{x / 2} : std::vector<int>{x / 2, x - 1};
  }
  Gen<int> gen() const {
    const Rare e = *this;
    return Gen<int>([e](const Random &random, int) {
      Random r(random);
      return shrinkable::shrinkRecur(int(r.next() % uint64_t(e.span)), [e](int x) { return seq::fromContainer(e.shrinks(x)); });
    });
  }
};

template <typename C> Gen<C> make(bool fixed, size_t n, const Rare &e, const Rare &, std::true_type) {
  return fixed ? gen::container<C>(n, e.gen()) : gen::container<C>(e.gen());
}
template <typename C> Gen<C> make(bool fixed, size_t n, const Rare &e, const Rare &v, std::false_type) {
  return fixed ? gen::container<C>(n, e.gen(), v.gen()) : gen::container<C>(e.gen(), v.gen());
}

template <typename C> void large(Src &s, Ctx &c, const char *name, bool ordered, bool unique, bool map) {
  const bool fixed = s.draw(3) != 0;
  const size_t n = fixed ? s.draw(s.flag() ? 300 : 2500) : 0;
  const int size = fixed ? int(s.draw(100)) : int(s.draw(110));
  const Rare e{s.draw(100000), unique ? int(4 * std::max<size_t>(n, 200)) : int(s.oneOf({50, 100000})), int(fixed ? std::max<size_t>(1, n / 12) : 1 + s.draw(8))};
  const Rare v{s.draw(100000), 1000, 40};
  const Gen<C> g = make<C>(fixed, n, e, v, std::is_same<typename C::value_type, int>());
  const auto root = g(anyRandom(s), size);
  auto node = root;
  const std::string what = cat(name, fixed ? cat(" of ", n) : "", " at size ", size);
  size_t most = 0, kids = 0;
  for (int depth = 0; depth < 3; depth++) {
    const Items x = items(node.value(), ordered);
    most = std::max(most, x.size());
    if (fixed)
      REQ_EQ(x.size(), n, "length of ", what);
    else
      REQ(x.size() <= size_t(size), "length ", x.size(), " of ", what);
    std::set<int> keys;
    if (unique)
      for (auto &i : x)
        REQ(keys.insert(i.first).second, "key ", i.first, " twice in ", what);
    // Which element shrinks there are.
    std::multiset<std::pair<Item, Item>> want;
    for (auto &i : x) {
      for (int y : e.shrinks(i.first))
        if (!unique || !keys.count(y))
          want.insert({i, Item{y, i.second}});
      if (map)
        for (int y : v.shrinks(i.second))
          want.insert({i, Item{i.first, y}});
    }
    const size_t total = want.size();
    size_t removed = 0;
    auto q = node.shrinks();
    std::vector<Shrinkable<C>> some;
    const size_t removals = fixed ? 0 : x.size() * (x.size() + 1) / 2;
    for (size_t k = 0;; k++) {
      auto kid = q.next();
      if (!kid)
        break;
      REQ(k < removals + total, "too many shrinks of ", what);
      const Items y = items(kid->value(), ordered);
      REQ(y.size() <= x.size(), "a shrink grows: ", what);
      if (y.size() < x.size()) {
        REQ(!fixed, "a shrink of ", what, " has ", y.size());
        removed++;
        const size_t gone = x.size() - y.size();
        if (ordered) {
          size_t at = 0;
          while (at < y.size() && y[at] == x[at])
            at++;
          for (size_t i = at; i < y.size(); i++)
            REQ(y[i] == x[i + gone], "not a contiguous removal of ", gone, " of ", x.size(), ": ", what);
        } else {
          REQ(std::includes(x.begin(), x.end(), y.begin(), y.end()), "not a removal of ", gone, " of ", x.size(), ": ", what);
        }
      } else {
        Items a, b;
        if (ordered) {
          for (size_t i = 0; i < x.size(); i++)
            if (x[i] != y[i]) {
              a.push_back(x[i]);
              b.push_back(y[i]);
            }
        } else {
          std::set_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(a));
          std::set_difference(y.begin(), y.end(), x.begin(), x.end(), std::back_inserter(b));
        }
        REQ(a.size() == 1 && b.size() == 1, a.size(), " of ", x.size(), " elements differ in a shrink of ", what);
        const auto it = want.find({a[0], b[0]});
        REQ(it != want.end(), a[0].first, ":", a[0].second, " becomes ", b[0].first, ":", b[0].second, " or does again in ", what);
        want.erase(it);
      }
      if (some.size() < 3 ? s.draw(2) == 0 : s.draw(40) == 40)
        some.push_back(std::move(*kid));
      kids++;
    }
    REQ_EQ(removed, removals, "removals of ", x.size(), " in ", what);
    REQ(want.empty(), want.size(), " element shrinks are missing, one of ", want.begin()->first.first, " to ", want.begin()->second.first, " in ", what, " of ", x.size());
    if (some.empty())
      break;
    node = some[s.below(some.size())];
  }
  c.nontrivial(most > 60 && kids > 2);
  if (c.wantSample())
    c.sample(cat(what, ": ", kids, " shrinks"));
}
} // namespace
// Containers far larger than the others.
FACET(large, 1) {
  if (s.draw(9)) // they take their time
    return;
  switch (s.draw(6)) {
  case 0: large<std::vector<int>>(s, c, "vector", true, false, false); break;
  case 1: large<std::list<int>>(s, c, "list", true, false, false); break;
  case 2: large<std::deque<int>>(s, c, "deque", true, false, false); break;
  case 3: large<std::set<int>>(s, c, "set", false, true, false); break;
  case 4: large<std::unordered_set<int>>(s, c, "unordered_set", false, true, false); break;
  case 5: large<std::map<int, int>>(s, c, "map", false, true, true); break;
  default: large<std::unordered_map<int, int>>(s, c, "unordered_map", false, true, true);
  }
}
