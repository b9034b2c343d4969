// C21: optional value generators yield nothing or the wrapped generator's values.
#include "genexpr.h"
#include "source.h"
#include <boost/optional.hpp>
#include <rapidcheck/boost.h>
using namespace pbt;
using namespace rc;
using namespace rcx;

namespace {
// Printable and comparable form of an optional value.
template <typename T> std::string form(const Maybe<T> &m) { return m ? cat("just ", *m) : std::string("nothing"); }
template <typename T> std::string form(const boost::optional<T> &m) { return m ? cat("just ", *m) : std::string("nothing"); }
template <typename T> std::string form(const Maybe<Maybe<T>> &m) { return m ? "just " + form(*m) : std::string("nothing"); }
// Reference: nothing first at every node, then the wrapped shrinks.
Lazy<std::string> withNothing(const Lazy<std::string> &r) {
  return Lazy<std::string>{"just " + r.v, [r] {
    std::vector<Lazy<std::string>> out{leaf<std::string>("nothing")};
    for (auto &k : r.kids())
      out.push_back(withNothing(k));
    return out;
  }};
}
template <typename T> Lazy<std::string> texts(const RoseP<T> &r) {
  return lazyMap<T>(lazy<T>(r), [](const T &x) { return str(x); });
}
template <typename S> void compare(Ctx &c, const S &sh, const Lazy<std::string> &ref, const std::string &what) {
  int budget = 800;
  const auto d = lazyDiff<std::string>(sh, ref, budget);
  REQ(d.empty(), d, "; expected ", lazyStr<std::string>(ref), " in ", what);
  c.nontrivial(budget < 797);
  if (c.wantSample())
    c.sample(cat(what, ": ", lazyStr<std::string>(ref).substr(0, 300)));
}
int optSize(Src &s) {
  switch (s.draw(5)) {
  case 0: return 0;
  case 1: return int(s.draw(3));
  case 2: return std::numeric_limits<int>::max() - int(s.draw(1));
  default: return int(s.draw(200));
  }
}
template <typename T, typename Make> void tree(Src &s, Ctx &c, Make make, const std::string &what) {
  const auto src = anySrc<T>(s, 12);
  const Random random = anyRandom(s);
  const int size = optSize(s);
  const auto g = make(src.gen());
  const auto sh = shrinkable::map(g(random, size), [](const decltype(g(random, size).value()) &m) { return form(m); });
  const auto root = sh.value();
  if (src.calls->empty() || root == "nothing") {
    REQ_EQ(root, "nothing", "the wrapped generator was not used in ", what);
    REQ(!sh.shrinks().next(), "nothing has shrinks in ", what);
    c.label("nothing");
    return;
  }
  for (auto &x : *src.calls) {
    REQ_EQ(x.size, size, "size of the wrapped generator in ", what);
    REQ(x.random == src.calls->front().random, "wrapped generator used with two random states in ", what);
  }
  compare(c, sh, withNothing(texts<T>(src.calls->front().tree)), what);
}
} // namespace

FACET(trees, 5) {
  switch (s.draw(3)) {
  case 0: tree<int64_t>(s, c, [](Gen<int64_t> g) { return gen::maybe(std::move(g)); }, "maybe"); break;
  case 1: tree<std::string>(s, c, [](Gen<std::string> g) { return gen::maybe(std::move(g)); }, "maybe of text"); break;
  case 2: tree<int64_t>(s, c, [](Gen<int64_t> g) { return gen::boost::optional(std::move(g)); }, "boost optional"); break;
  default: tree<std::string>(s, c, [](Gen<std::string> g) { return gen::boost::optional(std::move(g)); }, "boost optional of text");
  }
}

FACET(nested, 2) {
  const auto src = anySrc<int64_t>(s, 6);
  const Random random = anyRandom(s);
  const int size = optSize(s);
  const auto sh = shrinkable::map(gen::maybe(gen::maybe(src.gen()))(random, size), [](const Maybe<Maybe<int64_t>> &m) { return form(m); });
  if (sh.value() == "nothing") {
    REQ(!sh.shrinks().next(), "nothing has shrinks");
    return;
  }
  if (src.calls->empty()) {
    compare(c, sh, withNothing(leaf<std::string>("nothing")), "maybe of maybe");
    return;
  }
  compare(c, sh, withNothing(withNothing(texts<int64_t>(src.calls->front().tree))), "maybe of maybe");
}

FACET(move_only, 1) {
  const auto src = anySrc<int64_t>(s, 6);
  const Random random = anyRandom(s);
  const int size = optSize(s);
  const auto g = gen::maybe(gen::map(src.gen(), [](int64_t x) { return std::unique_ptr<int64_t>(new int64_t(x)); }));
  const auto sh = shrinkable::map(g(random, size), [](Maybe<std::unique_ptr<int64_t>> &&m) { return m ? cat("just ", **m) : std::string("nothing"); });
  if (sh.value() == "nothing") {
    REQ(!sh.shrinks().next(), "nothing has shrinks");
    return;
  }
  compare(c, sh, withNothing(texts<int64_t>(src.calls->front().tree)), "maybe of unique_ptr");
}

// The Boost form has the same tree as the library's own, for any generator.
FACET(forms, 2) {
  const Random random = anyRandom(s);
  const int size = optSize(s) % 300;
  const auto run = [&](auto g, const std::string &what) {
    using T = decltype(g(random, size).value());
    const auto a = shrinkable::map(gen::maybe(g)(random, size), [](Maybe<T> &&m) { std::vector<T> v; if (m) v.push_back(std::move(*m)); return v; });
    const auto b = shrinkable::map(gen::boost::optional(g)(random, size), [](boost::optional<T> &&m) { std::vector<T> v; if (m) v.push_back(std::move(*m)); return v; });
    int budget = 300;
    const auto d = sameTree<std::vector<T>>(a, b, budget, 4);
    REQ(d.empty(), d, " between maybe and boost optional of ", what);
    c.nontrivial(budget < 298);
  };
  switch (s.draw(3)) {
  case 0: run(gen::arbitrary<int>(), "int"); break;
  case 1: run(gen::arbitrary<std::string>(), "string"); break;
  case 2: run(gen::arbitrary<std::vector<uint8_t>>(), "vector"); break;
  default: {
    int budget = 300;
    const auto d = sameTree<Maybe<std::string>>(gen::arbitrary<Maybe<std::string>>()(random, size), gen::maybe(gen::arbitrary<std::string>())(random, size), budget, 4);
    REQ(d.empty(), d, " in arbitrary maybe");
    budget = 300;
    const auto e = sameTree<boost::optional<int>>(gen::arbitrary<boost::optional<int>>()(random, size), gen::boost::optional(gen::arbitrary<int>())(random, size), budget, 4);
    REQ(e.empty(), e, " in arbitrary boost optional");
    c.nontrivial(budget < 298);
  }
  }
}

FACET(frequency, 1) {
  Random r = anyRandom(s);
  const bool viaBoost = s.flag();
  const int n = 2000;
  const auto absent = [&](int size) {
    int out = 0;
    for (int i = 0; i < n; i++)
      out += viaBoost ? !gen::boost::optional(gen::just(1))(r.split(), size).value() : !gen::maybe(gen::just(1))(r.split(), size).value();
    return out;
  };
  const int small = int(s.draw(8)), large = 4 * (small + 1) + int(s.draw(150));
  const int a = absent(small), b = absent(large), zero = absent(0);
  REQ(zero > n / 3, "absent only ", zero, " of ", n, " times at size 0");
  REQ(a > b, "absent ", a, " of ", n, " times at size ", small, " but ", b, " at size ", large);
  REQ(b < n / 2, "absent ", b, " of ", n, " times at size ", large);
  if (small > 0)
    REQ(a < n, "never present at size ", small);
  if (large <= 60)
    REQ(b > 0, "never absent at size ", large);
  c.nontrivial();
  c.sample(cat("absent ", zero, "/", a, "/", b, " of ", n, " at sizes 0/", small, "/", large));
}

// Absence is decided independently of what the wrapped generator draws.
FACET(independence, 1) {
  Random r = anyRandom(s);
  const bool viaBoost = s.flag();
  const int size = int(s.draw(5)), n = 3000;
  if (s.flag()) {
    // An inner optional is absent about as often as an outer one. Each share is off by 0.1 with p < 1e-7 or so at
    // these counts, 0.25 leaves a wide margin.
    int present = 0, innerAbsent = 0, absent = 0;
    for (int i = 0; i < n; i++) {
      if (viaBoost) {
        const auto v = gen::boost::optional(gen::boost::optional(gen::just(1)))(r.split(), size).value();
        present += !!v;
        innerAbsent += v && !*v;
      } else {
        const auto v = gen::maybe(gen::maybe(gen::just(1)))(r.split(), size).value();
        present += !!v;
        innerAbsent += v && !*v;
      }
      absent += !gen::maybe(gen::just(1))(r.split(), size).value();
    }
    if (present < 500)
      return;
    const double outer = double(absent) / n, inner = double(innerAbsent) / present;
    REQ(std::abs(outer - inner) < 0.25, "an optional is absent with ", outer, ", one within a present optional with ", inner, " at size ", size);
    REQ(innerAbsent > 0, "an optional within a present one is never absent in ", n, " tries at size ", size);
    c.nontrivial();
    c.sample(cat("absent ", outer, " inner ", inner, " at size ", size));
    return;
  }
  const int m = 2 + int(s.draw(5));
  const Gen<int> raw([=](const Random &random, int) { return shrinkable::just(int(Random(random).next() % uint64_t(m))); });
  std::vector<int> seen(static_cast<size_t>(m));
  int present = 0;
  for (int i = 0; i < n; i++) {
    const int v = viaBoost ? gen::boost::optional(raw)(r.split(), size).value().value_or(-1)
                           : [](Maybe<int> x) { return x ? *x : -1; }(gen::maybe(raw)(r.split(), size).value());
    present += v >= 0;
    if (v >= 0)
      seen[size_t(v)]++;
  }
  if (present < 500)
    return;
  for (int i = 0; i < m; i++)
    REQ(seen[size_t(i)] > 0, "wrapped value ", i, " of ", m, " never occurs in ", present, " present values at size ", size);
  c.nontrivial();
}
