#include "C14.h"

// Elements that can only be moved.
FACET(moveOnly, 1) {
  const auto ptrs = [](const Elem &e) { return gen::map(e.gen(), [](int x) { return std::unique_ptr<int>(new int(x)); }); };
  if (s.flag()) {
    sequence<std::vector<std::unique_ptr<int>>>(s, c, Kind{"vector of unique_ptr", true, false, 0}, ptrs);
  } else {
    const Model m = anyModel(s, Kind{"map to unique_ptr", false, true, PLAIN});
    using C = std::map<int, std::unique_ptr<int>>;
    check<C>(s, c, m, [&] { return m.fixed ? gen::container<C>(m.count, m.e.gen(), ptrs(m.v)) : gen::container<C>(m.e.gen(), ptrs(m.v)); });
  }
}

namespace {
template <size_t N> void arrayN(Src &s, Ctx &c) {
  using C = std::array<int, N>;
  Model m = anyModel(s, Kind{"array", true, false, 0}, false);
  m.fixed = true;
  m.count = N;
  const bool counted = s.flag();
  const size_t ask = s.flag() ? N : s.draw(N + 2);
  if (counted && ask != N) {
    bool failed = false;
    try {
      gen::container<C>(ask, m.e.gen())(anyRandom(s), m.size).value();
    } catch (const GenerationFailure &) {
      failed = true;
    }
    REQ(failed, "array of ", N, " generated for count ", ask);
    return;
  }
  check<C>(s, c, m, [&] { return counted ? gen::container<C>(ask, m.e.gen()) : gen::container<C>(m.e.gen()); });
}
} // namespace
FACET(arrays, 1) {
  switch (s.draw(4)) {
  case 0: arrayN<0>(s, c); break;
  case 1: arrayN<1>(s, c); break;
  case 2: arrayN<2>(s, c); break;
  case 3: arrayN<3>(s, c); break;
  default: arrayN<7>(s, c);
  }
}


namespace {
template <typename Set, typename Make>
void retries(Src &s, Ctx &c, const char *what, Make make) {
  const int top = std::numeric_limits<int>::max();
  const int size = s.draw(2) ? top - int(s.draw(4)) : int(s.draw(200));
  const size_t count = s.draw(9);
  const uint64_t span = 1 + s.draw(12);
  const auto sizes = std::make_shared<std::vector<int>>();
  const Gen<int> elem([=](const Random &random, int n) {
    sizes->push_back(n);
    Random r(random);
    return shrinkable::just(int(r.next() % span));
  });
  const auto sh = make(count, elem)(anyRandom(s), size);
  bool failed = false;
  try {
    const Set v = sh.value();
    REQ_EQ(size_t(v.size()), count, "elements of a ", what, " at size ", size);
  } catch (const GenerationFailure &) {
    failed = true;
  }
  REQ(failed || count <= span, count, " different elements out of ", span);
  if (count == 0)
    REQ(!failed, "no elements cannot be generated");
  for (int n : *sizes)
    REQ(n >= size, "an element of a ", what, " was asked for at size ", n, " instead of ", size);
  c.nontrivial(sizes->size() > count);
  c.label(failed ? "failed" : "made");
  if (c.wantSample())
    c.sample(cat(what, " of ", count, " out of ", span, " at size ", size));
}
} // namespace
// Elements that are there already are generated again, also at the largest size.
FACET(retries, 1) {
  switch (s.draw(4)) {
  case 0: retries<std::set<int>>(s, c, "set", [](size_t n, const Gen<int> &g) { return gen::container<std::set<int>>(n, g); }); break;
  case 1: retries<std::unordered_set<int>>(s, c, "unordered_set", [](size_t n, const Gen<int> &g) { return gen::container<std::unordered_set<int>>(n, g); }); break;
  case 2: retries<std::map<int, int>>(s, c, "map", [](size_t n, const Gen<int> &g) { return gen::container<std::map<int, int>>(n, g, gen::just(1)); }); break;
  case 3: retries<std::unordered_map<int, int>>(s, c, "unordered_map", [](size_t n, const Gen<int> &g) { return gen::container<std::unordered_map<int, int>>(n, g, gen::just(1)); }); break;
  default: retries<std::vector<int>>(s, c, "unique vector", [](size_t n, const Gen<int> &g) { return gen::unique<std::vector<int>>(n, g); });
  }
}
