// What a combinator's parts are generated from depends on what the combinator
// was given: no random state is used twice, or for two different roots.
#pragma once
#include "rcx.h"
#include <algorithm>

namespace rcx {
// make: turns a generator of numbers into the one to look at. The states must
// be different within one use too if `distinct`.
template <typename Make>
void fresh(pbt::Src &s, pbt::Ctx &c, const std::string &what, bool distinct, Make make, int size = -1) {
  const auto seen = std::make_shared<std::vector<rc::Random>>();
  const rc::Gen<int> probe([seen](const rc::Random &r, int) {
    seen->push_back(r);
    rc::Random x(r);
    return rc::shrinkable::just(int(x.next() % 100000));
  });
  const auto g = make(probe);
  if (size < 0)
    size = anySize(s);
  const uint64_t one = s.word(), other = one ^ (1 + s.draw(1000));
  const auto statesFor = [&](uint64_t seed) {
    seen->clear();
    try {
      g(rc::Random(seed), size).value();
    } catch (const rc::GenerationFailure &) {
    }
    auto all = *seen; // maps make one value, from the default state, to have an element to start with
    const auto dummy = std::find(all.begin(), all.end(), rc::Random());
    if (what.find("map of") == 0 && dummy != all.end())
      all.erase(dummy);
    return all;
  };
  const auto a = statesFor(one), b = statesFor(other), again = statesFor(one);
  REQ(a == again, "other random states for the same seed ", one, " in ", what);
  for (size_t i = 0; i < a.size(); i++) {
    for (size_t j = 0; distinct && j < i; j++)
      REQ(a[i] != a[j], "parts ", j, " and ", i, " share a random state in ", what, " at size ", size);
    for (auto &x : b)
      REQ(a[i] != x, "part ", i, " has the same random state for seeds ", one, " and ", other, " in ", what, " at size ", size);
  }
  c.nontrivial(a.size() > 1 || (!distinct && !a.empty()));
  c.label(what);
  if (c.wantSample())
    c.sample(pbt::cat(what, ": ", a.size(), " draws at size ", size));
}
} // namespace rcx
