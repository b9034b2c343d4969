#include "C14.h"

// The default generators of container types: lengths, uniqueness and nesting.
FACET(defaults, 2) {
  const int size = s.draw(3) == 0 ? int(s.draw(100)) : int(s.draw(10));
  const Random random = anyRandom(s);
  const auto len = [&](size_t n, const char *t) { REQ(n <= size_t(size), t, " of ", n, " elements at size ", size); };
  switch (s.draw(6)) {
  case 0: {
    using C = std::vector<std::set<uint8_t>>;
    randomWalk(s, gen::arbitrary<C>()(random, std::min(size, 40)), 6, 3, [&](const Shrinkable<C> &n, int) {
      const auto v = n.value();
      len(v.size(), "vector");
      for (auto &x : v)
        len(x.size(), "inner set");
    });
    break;
  }
  case 1: {
    using C = std::map<int16_t, std::deque<bool>>;
    randomWalk(s, gen::arbitrary<C>()(random, std::min(size, 40)), 6, 3, [&](const Shrinkable<C> &n, int) {
      const auto v = n.value();
      len(v.size(), "map");
      for (auto &x : v)
        len(x.second.size(), "inner deque");
    });
    break;
  }
  case 2: {
    using C = std::unordered_multimap<bool, std::list<char>>;
    randomWalk(s, gen::arbitrary<C>()(random, std::min(size, 40)), 6, 3, [&](const Shrinkable<C> &n, int) {
      const auto v = n.value();
      len(v.size(), "unordered_multimap");
      for (auto &x : v)
        len(x.second.size(), "inner list");
    });
    break;
  }
  case 3: {
    using C = std::array<std::forward_list<int>, 3>;
    randomWalk(s, gen::arbitrary<C>()(random, size), 6, 3, [&](const Shrinkable<C> &n, int) {
      for (auto &x : n.value())
        len(size_t(std::distance(x.begin(), x.end())), "forward_list");
    });
    break;
  }
  case 4: {
    using C = std::multiset<int>;
    randomWalk(s, gen::arbitrary<C>()(random, size), 6, 3, [&](const Shrinkable<C> &n, int) { len(n.value().size(), "multiset"); });
    using D = std::unordered_multiset<int>;
    randomWalk(s, gen::arbitrary<D>()(random, size), 6, 3, [&](const Shrinkable<D> &n, int) { len(n.value().size(), "unordered_multiset"); });
    break;
  }
  case 5: {
    using C = std::unordered_set<int>;
    randomWalk(s, gen::arbitrary<C>()(random, size), 6, 3, [&](const Shrinkable<C> &n, int) { len(n.value().size(), "unordered_set"); });
    using D = std::unordered_map<int, int>;
    randomWalk(s, gen::arbitrary<D>()(random, size), 6, 3, [&](const Shrinkable<D> &n, int) { len(n.value().size(), "unordered_map"); });
    break;
  }
  default: {
    using C = std::multimap<int, int>;
    randomWalk(s, gen::arbitrary<C>()(random, size), 6, 3, [&](const Shrinkable<C> &n, int) { len(n.value().size(), "multimap"); });
  }
  }
  c.nontrivial(size > 2);
}

// At any size, small and large containers occur.
FACET(spread, 1) {
  Random r = anyRandom(s);
  const int size = s.flag() ? int(s.oneOf({100, 200, 64, 128, 1})) : 1 + int(s.draw(200));
  size_t low = SIZE_MAX, high = 0;
  const uint64_t kind = s.draw(5);
  const auto one = gen::just(0);
  const auto many = Gen<uint64_t>([](const Random &x, int) { return shrinkable::just(Random(x).next()); });
  for (int i = 0; i < 400; i++) {
    const Random x = r.split();
    size_t n = 0;
    switch (kind) {
    case 0: n = gen::container<std::vector<int>>(one)(x, size).value().size(); break;
    case 1: n = gen::container<std::deque<int>>(one)(x, size).value().size(); break;
    case 2: n = gen::container<std::set<uint64_t>>(many)(x, size).value().size(); break;
    case 3: n = gen::container<std::unordered_map<uint64_t, int>>(many, one)(x, size).value().size(); break;
    case 4: n = gen::unique<std::vector<uint64_t>>(many)(x, size).value().size(); break;
    default: n = gen::container<std::string>(gen::just('a'))(x, size).value().size();
    }
    low = std::min(low, n);
    high = std::max(high, n);
  }
  REQ(low * 10 <= size_t(size) && high * 10 >= size_t(size) * 9 && high <= size_t(size),
      "lengths of 400 containers of kind ", kind, " at size ", size, " are ", low, " to ", high);
  c.nontrivial(size > 9);
}

// Generators of which every third draw is new suffice for containers of unique
// elements of any count.
FACET(repeats, 1) {
  const int share = int(s.draw(1)); // a half or a third are new
  const size_t n = s.length(400);
  const bool fixed = s.flag();
  const int size = fixed ? int(s.draw(100)) : int(n);
  const Gen<int64_t> g = Gen<int64_t>([=](const Random &random, int) {
    Random r(random);
    const uint64_t h = r.next();
    return shrinkable::just(h % uint64_t(share + 2) ? int64_t(-1) : int64_t(h >> 8));
  });
  const Random random = anyRandom(s);
  const uint64_t kind = s.draw(4);
  const auto len = [&](size_t m) {
    REQ(fixed ? m == n : m <= n, m, " elements instead of ", n, " in kind ", kind);
    c.nontrivial(m > 100);
  };
  const auto id = [](int64_t x) { return x; };
  using S = std::set<int64_t>;
  using U = std::unordered_set<int64_t>;
  using M = std::map<int64_t, int>;
  using V = std::vector<int64_t>;
  const auto v = gen::just(1);
  try {
    switch (kind) {
    case 0: len((fixed ? gen::container<S>(n, g) : gen::container<S>(g))(random, size).value().size()); break;
    case 1: len((fixed ? gen::container<U>(n, g) : gen::container<U>(g))(random, size).value().size()); break;
    case 2: len((fixed ? gen::container<M>(n, g, v) : gen::container<M>(g, v))(random, size).value().size()); break;
    case 3: len((fixed ? gen::unique<V>(n, g) : gen::unique<V>(g))(random, size).value().size()); break;
    default: len((fixed ? gen::uniqueBy<V>(n, g, id) : gen::uniqueBy<V>(g, id))(random, size).value().size());
    }
  } catch (const GenerationFailure &e) {
    c.fail(cat("gave up although one draw in ", share + 2, " is new: ", e.what(), "; kind ", kind));
  }
}
