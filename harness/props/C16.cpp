// C16: filtered generators only ever yield values satisfying the predicate.
#include "genexpr.h"
#include "detail/Testing.h"
#include <rapidcheck/detail/TestListenerAdapter.h>
#include <set>
using namespace pbt;
using namespace rc;
using namespace rc::detail;
using namespace rcx;

namespace {
// A predicate over integers, with a given density.
struct Pred {
  int kind;
  int64_t a, b;
  bool operator()(int64_t x) const {
    switch (kind) {
    case 0: return x % a != b;
    case 1: return x % a == b % a;
    case 2: return x >= a;
    case 3: return x <= a;
    case 4: return x != a;
    case 5: return false;
    case 6: return hash64(uint64_t(a), uint64_t(x)) % uint64_t(b + 1) == 0;
    default: return true;
    }
  }
};
Pred anyPred(Src &s) {
  return Pred{int(s.draw(7)), int64_t(2 + s.draw(7)), int64_t(s.draw(30))};
}
RoseP<int64_t> filterRose(const RoseP<int64_t> &r, const std::function<bool(int64_t)> &p) {
  std::vector<RoseP<int64_t>> kids;
  for (auto &k : r->kids)
    if (p(k->v))
      kids.push_back(filterRose(k, p));
  return rose<int64_t>(r->v, std::move(kids));
}
bool dropped(const RoseP<int64_t> &r, const std::function<bool(int64_t)> &p) {
  for (auto &k : r->kids)
    if (!p(k->v) || dropped(k, p))
      return true;
  return false;
}

// A generator over explicit trees which records how it is called. The tree is a
// function of the random state and the size.
struct Source {
  std::vector<RoseP<int64_t>> trees;
  int minSize; // below this size only trees[0] is produced
  struct Call { Random random; int size; RoseP<int64_t> tree; };
  std::shared_ptr<std::vector<Call>> calls = std::make_shared<std::vector<Call>>();
  Gen<int64_t> gen() const {
    const Source me = *this;
    return Gen<int64_t>([me](const Random &random, int size) {
      Random r(random);
      const auto t = size < me.minSize ? me.trees[0] : me.trees[r.next() % me.trees.size()];
      me.calls->push_back(Call{random, size, t});
      return toShrinkable<int64_t>(t);
    });
  }
};
Source anySource(Src &s) {
  Source src;
  for (size_t i = 0, n = 1 + s.draw(6); i < n; i++) {
    int budget = int(s.draw(14));
    src.trees.push_back(genRose(s, [&](int) { return int64_t(s.draw(40)); }, budget));
  }
  src.minSize = s.draw(2) == 0 ? int(s.draw(140)) : 0;
  return src;
}

void checkFilter(Src &s, Ctx &c, const Source &src, const Gen<int64_t> &g, const std::function<bool(int64_t)> &p, const std::string &what) {
  const Random random = anyRandom(s);
  const int size = s.draw(4) == 0 ? 2147483647 - int(s.draw(120)) : anySize(s);
  const std::string where = cat(what, " at size ", size);
  src.calls->clear();
  Maybe<Shrinkable<int64_t>> got;
  std::string err;
  try {
    auto sh = g(random, size);
    sh.value();
    got = sh;
  } catch (const GenerationFailure &e) {
    err = e.what();
  }
  const auto calls = *src.calls;
  REQ(!calls.empty() && calls.size() <= 1000, calls.size(), " tries in ", where);
  REQ(calls[0].size == size, "first try at size ", calls[0].size, " in ", where);
  for (size_t i = 0; i < calls.size(); i++) {
    const bool last = i + 1 == calls.size();
    REQ(p(calls[i].tree->v) == (last && bool(got)), "try ", i + 1, " of ", calls.size(), " had root ", calls[i].tree->v, " in ", where);
    if (i) {
      REQ(calls[i].size >= calls[i - 1].size, "size decreases in ", where);
      REQ(calls[i].random != calls[i - 1].random, "try ", i + 1, " repeats the random state in ", where);
    }
  }
  if (!got) {
    c.label("gave up");
    REQ(calls.size() >= 10, "gave up after ", calls.size(), " tries in ", where);
    REQ(calls.back().size > size || size == 2147483647, "size never grows in ", where);
    return;
  }
  if (calls.size() > 1)
    c.label("retried");
  const auto ref = filterRose(calls.back().tree, p);
  int budget = 3000;
  const auto d = treeDiff<int64_t>(*got, ref, budget);
  REQ(d.empty(), d, "; tree ", roseStr<int64_t>(calls.back().tree), " filtered should be ", roseStr<int64_t>(ref), " in ", where);
  c.nontrivial(dropped(calls.back().tree, p) && roseSize<int64_t>(ref) > 1);
  c.sample(cat(where, ": ", calls.size(), " tries, ", roseStr<int64_t>(calls.back().tree), " -> ", roseStr<int64_t>(ref)));
}
} // namespace

FACET(trees, 6) {
  const Source src = anySource(s);
  const Pred p = anyPred(s);
  checkFilter(s, c, src, gen::suchThat(src.gen(), p), p, cat("suchThat kind ", p.kind, " ", p.a, " ", p.b));
}

FACET(distinct, 2) {
  const Source src = anySource(s);
  const int64_t x = src.trees[s.below(src.trees.size())]->v;
  checkFilter(s, c, src, gen::distinctFrom(src.gen(), x), [x](int64_t y) { return y != x; }, cat("distinctFrom ", x));
}

// Values with very many shrinks of which few, or few in a row, satisfy the
// predicate: none of them may be lost.
FACET(sparse, 1) {
  const int64_t n = int64_t(s.draw(s.draw(3) ? 3000 : 40000));
  const int64_t first = int64_t(s.draw(uint64_t(n))), step = 1 + int64_t(s.draw(2000));
  const int64_t deep = int64_t(s.draw(3));
  // Node k has the children k + 1 ... n; the root, -1, has all.
  const auto p = [=](int64_t x) { return x < 0 || (x >= first && (x - first) % step == 0); };
  const auto source = gen::shrink(gen::just<int64_t>(-1), [=](int64_t x) { return x < deep ? seq::range<int64_t>(x + 1, n) : Seq<int64_t>(); });
  const bool distinct = s.draw(3) == 0;
  const auto sh = (distinct ? gen::distinctFrom(source, int64_t(first)) : gen::suchThat(source, p))(anyRandom(s), anySize(s));
  auto q = sh.shrinks();
  int64_t seen = 0;
  for (int64_t x = 0; x < n; x++) {
    if (distinct ? x == first : !p(x))
      continue;
    const auto k = q.next();
    REQ(k, "the shrinks end after ", seen, " before ", x, " of ", n, " from ", first, " step ", step);
    REQ_EQ(k->value(), x, "shrink ", seen, " of ", n, " from ", first, " step ", step);
    seen++;
  }
  REQ(!q.next(), "more than ", seen, " shrinks");
  c.nontrivial(seen > 0 && n > 500);
  if (c.wantSample())
    c.sample(cat(seen, " of ", n, " shrinks pass"));
}

// A filter of a filter is the filter of both, whenever neither has to retry.
FACET(nested, 2) {
  const Source src = anySource(s);
  const Pred p = anyPred(s), q = anyPred(s);
  const auto both = [=](int64_t x) { return p(x) && q(x); };
  const auto g = gen::suchThat(gen::suchThat(src.gen(), p), q);
  src.calls->clear();
  try {
    const auto sh = g(anyRandom(s), anySize(s));
    sh.value();
    const auto t = src.calls->back().tree;
    REQ(both(t->v), "root ", t->v);
    int budget = 3000;
    const auto ref = filterRose(t, both);
    const auto d = treeDiff<int64_t>(sh, ref, budget);
    REQ(d.empty(), d, "; tree ", roseStr<int64_t>(t), " should be ", roseStr<int64_t>(ref));
    c.nontrivial(dropped(t, both) && roseSize<int64_t>(ref) > 1);
  } catch (const GenerationFailure &) {
    REQ(src.calls->size() >= 10, "gave up at once");
    c.label("gave up");
  }
}

// Library generators: typed forms, containers, shrink search.
FACET(library, 3) {
  const Random random = anyRandom(s);
  const int size = anySize(s, 60);
  switch (s.draw(5)) {
  case 0: {
    const int64_t k = int64_t(2 + s.draw(9)), rem = int64_t(s.draw(uint64_t(k) - 1));
    const auto p = [=](int x) { return x % k != rem; };
    randomWalk(s, gen::suchThat<int>(p)(random, size), 12, 6, [&](const Shrinkable<int> &n, int) { REQ(p(n.value()), n.value(), " mod ", k); });
    break;
  }
  case 1: {
    using C = std::vector<int>;
    randomWalk(s, gen::nonEmpty<C>()(random, size), 8, 6, [&](const Shrinkable<C> &n, int) { REQ(!n.value().empty(), "empty"); });
    randomWalk(s, gen::nonEmpty(gen::container<C>(gen::inRange(0, 9)))(random, size), 8, 6, [&](const Shrinkable<C> &n, int) { REQ(!n.value().empty(), "empty"); });
    int steps = 0;
    const auto min = greedy(gen::nonEmpty<C>()(random, size), [](const Shrinkable<C> &) { return true; }, steps);
    const C mv = min.value();
    REQ(mv == C{0}, "greedy minimum of non-empty ", listStr(mv));
    break;
  }
  case 2: {
    const int8_t x = int8_t(s.range(-3, 3));
    randomWalk(s, gen::distinctFrom(x)(random, size), 12, 6, [&](const Shrinkable<int8_t> &n, int) { REQ(n.value() != x, "equals ", int(x)); });
    break;
  }
  case 3: {
    randomWalk(s, gen::nonEmpty<std::string>()(random, size), 8, 6, [&](const Shrinkable<std::string> &n, int) { REQ(!n.value().empty(), "empty"); });
    const std::string x = s.ascii(2);
    randomWalk(s, gen::distinctFrom(x)(random, size), 8, 6, [&](const Shrinkable<std::string> &n, int) { REQ(n.value() != x, "equals ", quote(x)); });
    break;
  }
  case 4: { // the threshold is found even though values around it are filtered out
    const int m = int(2 + s.draw(5));
    const int max = int(1 + s.draw(5000));
    const auto sh = gen::suchThat(gen::inRange(0, max * m + 1), [=](int x) { return x % m == 0; })(random, 100);
    int steps = 0;
    const int v = sh.value();
    REQ(v % m == 0 && v >= 0 && v <= max * m, v);
    const auto all = [&](const Shrinkable<int> &x) { REQ(x.value() % m == 0, x.value(), " mod ", m); return true; };
    REQ_EQ(greedy(sh, all, steps).value(), 0, "greedy minimum");
    break;
  }
  default: { // giving up discards the case
    const Pred never{5, 0, 0};
    int bodies = 0;
    const bool wrapped = s.flag();
    const auto prop = toProperty([&] {
      bodies++;
      const int x = wrapped ? (*gen::container<std::vector<int>>(1, gen::suchThat<int>([](int) { return false; })))[0]
                            : *gen::suchThat<int>([](int) { return false; });
      RC_FAIL(cat("reached with ", x));
    });
    const auto d = prop(random, size).value();
    REQ(d.result.type == CaseResult::Type::Discard, "result ", d.result);
    TestParams p;
    p.maxSuccess = int(1 + s.draw(20));
    p.maxDiscardRatio = int(s.draw(5));
    p.seed = s.anyBits();
    TestListenerAdapter l;
    const auto r = testProperty(prop, TestMetadata(), p, l);
    REQ(r.is<GaveUpResult>(), "result ", r);
  }
  }
  c.nontrivial(size > 1);
}

// Filtering an arbitrary generator expression keeps exactly the satisfying nodes.
FACET(expressions, 2) {
  const auto g = anyGX(s, 2);
  const uint64_t salt = s.draw(1000), mod = 2 + s.draw(4);
  const auto p = [=](const Val &v) {
    uint64_t h = salt;
    for (auto x : v)
      h = hash64(h, uint64_t(x));
    return h % mod != 0;
  };
  const auto calls = std::make_shared<std::vector<std::pair<Random, int>>>();
  const auto inner = g.gen;
  const Gen<Val> spy([=](const Random &r, int size) {
    calls->push_back({r, size});
    return inner(r, size);
  });
  const auto f = gen::suchThat(spy, p);
  const Random random = anyRandom(s);
  const int size = anySize(s, 20);
  try {
    const auto sh = f(random, size);
    sh.value();
    const auto last = calls->back();
    std::function<void(const Shrinkable<Val> &, const Shrinkable<Val> &, int &, int)> cmp =
        [&](const Shrinkable<Val> &a, const Shrinkable<Val> &b, int &budget, int depth) {
          const Val v = a.value();
          REQ(v == b.value(), "value differs in ", g.desc);
          REQ(p(v), listStr(v), " does not satisfy the predicate in ", g.desc);
          if (depth == 0)
            return;
          auto sa = a.shrinks(), sb = b.shrinks();
          while (budget-- > 0) {
            auto kb = sb.next();
            while (kb && !p(kb->value())) {
              c.nontrivial();
              kb = sb.next();
              if (budget-- <= 0)
                return;
            }
            auto ka = sa.next();
            REQ(bool(ka) == bool(kb), "different number of shrinks in ", g.desc);
            if (!ka)
              return;
            cmp(*ka, *kb, budget, depth - 1);
          }
        };
    int budget = 150;
    cmp(sh, inner(last.first, last.second), budget, 3);
    c.sample(g.desc);
  } catch (const GenerationFailure &) {
    c.label("failed");
  }
}
