// C18: combined generators obey map, bind and tuple laws over whole shrink trees.
#include "genexpr.h"
#include "source.h"
#include <array>
using namespace pbt;
using namespace rc;
using namespace rcx;

namespace {
template <typename T> void checkTree(Ctx &c, const Shrinkable<T> &sh, const Lazy<T> &ref, const std::string &what) {
  int budget = 1500;
  const auto d = lazyDiff<T>(sh, ref, budget);
  REQ(d.empty(), d, " in ", what);
  c.nontrivial(budget < 1498);
}
// Every call of a component was made at this size with this one random state.
template <typename T> SrcCall<T> theCall(Ctx &c, const Source<T> &src, int size, const std::string &what) {
  REQ(!src.calls->empty(), "a component was never generated in ", what);
  const auto &first = src.calls->front();
  for (auto &x : *src.calls) {
    REQ_EQ(x.size, size, "size of a component in ", what);
    REQ(x.random == first.random, "a component was generated from two random states in ", what);
  }
  return first;
}
void independent(Ctx &c, const std::vector<Random> &rs, const std::string &what) {
  for (size_t i = 0; i < rs.size(); i++)
    for (size_t j = 0; j < i; j++) {
      REQ(rs[i] != rs[j], "components ", j, " and ", i, " share a random state in ", what);
      // Not even the same stream at another position.
      Random a = rs[i], b = rs[j];
      std::vector<uint64_t> xa, xb;
      for (int k = 0; k < 8; k++) {
        xa.push_back(a.next());
        xb.push_back(b.next());
      }
      for (auto x : xa)
        for (auto y : xb)
          REQ(x != y, "components ", j, " and ", i, " have overlapping streams in ", what);
    }
}
std::string fstr(int64_t x) { return "<" + std::to_string(x % 7) + ">"; }
} // namespace

FACET(map, 3) {
  const auto src = anySrc<int64_t>(s, 12);
  const Random random = anyRandom(s);
  const int size = anySize(s);
  switch (s.draw(3)) {
  case 0: {
    const auto sh = gen::map(src.gen(), &fstr)(random, size);
    checkTree<std::string>(c, sh, lazyMap<int64_t>(lazy<int64_t>(theCall(c, src, size, "map").tree), &fstr), "map");
    break;
  }
  case 1: { // move-only results
    const auto sh = gen::map(src.gen(), [](int64_t x) { return std::unique_ptr<int64_t>(new int64_t(x * 2)); })(random, size);
    const auto back = shrinkable::map(sh, [](std::unique_ptr<int64_t> &&p) { return *p; });
    checkTree<int64_t>(c, back, lazyMap<int64_t>(lazy<int64_t>(theCall(c, src, size, "map").tree), [](int64_t x) { return x * 2; }), "map to unique_ptr");
    break;
  }
  case 2: { // composition
    const auto f = [](int64_t x) { return x / 3; };
    const auto sh = gen::map(gen::map(src.gen(), f), &fstr)(random, size);
    checkTree<std::string>(c, sh, lazyMap<int64_t>(lazy<int64_t>(theCall(c, src, size, "map").tree), [=](int64_t x) { return fstr(f(x)); }), "map of map");
    break;
  }
  default: {
    const auto sh = gen::cast<short>(src.gen())(random, size);
    checkTree<short>(c, sh, lazyMap<int64_t>(lazy<int64_t>(theCall(c, src, size, "cast").tree), [](int64_t x) { return short(x); }), "cast");
  }
  }
}

FACET(bind, 5) {
  const auto outer = anySrc<int64_t>(s, 7), inner = anySrc<int64_t>(s, 5, 5);
  const Random random = anyRandom(s);
  const int size = anySize(s);
  const bool viaJoin = s.flag();
  const std::string what = viaJoin ? "join" : "mapcat";
  const auto f = [inner](int64_t x) { return inner.gen(uint64_t(x)); };
  const Shrinkable<int64_t> sh = viaJoin ? gen::join(gen::map(outer.gen(), f))(random, size) : gen::mapcat(outer.gen(), f)(random, size);
  sh.value();
  const auto r1 = theCall(c, outer, size, what), r2 = theCall(c, inner, size, what);
  const auto ref = lazyBind<int64_t>(lazy<int64_t>(r1.tree), [&](int64_t x) { return lazy<int64_t>(inner.at(r2.random, size, uint64_t(x))); });
  int budget = 1500;
  const auto d = lazyDiff<int64_t>(sh, ref, budget);
  REQ(d.empty(), d, "; outer ", roseStr<int64_t>(r1.tree), " should give ", lazyStr<int64_t>(ref), " in ", what);
  const auto again = theCall(c, inner, size, what);
  independent(c, {r1.random, again.random}, what);
  c.nontrivial(!r1.tree->kids.empty() && 1500 - budget >= int(roseSize<int64_t>(r1.tree)));
  c.sample(cat(what, ": ", roseStr<int64_t>(r1.tree), " -> ", lazyStr<int64_t>(ref)));
}

FACET(laws, 3) {
  auto g = anySrc<int64_t>(s, 6), f = anySrc<int64_t>(s, 4), h = anySrc<int64_t>(s, 4);
  g.ignoreRandom = f.ignoreRandom = h.ignoreRandom = true; // so that both sides use equal trees
  const Random random = anyRandom(s);
  const int size = anySize(s);
  const auto fg = [f](int64_t x) { return f.gen(uint64_t(x)); };
  const auto hg = [h](int64_t x) { return h.gen(uint64_t(x)); };
  const auto gt = lazy<int64_t>(g.at(random, size, 0));
  const auto fr = [&](int64_t x) { return lazy<int64_t>(f.at(random, size, uint64_t(x))); };
  const auto hr = [&](int64_t x) { return lazy<int64_t>(h.at(random, size, uint64_t(x))); };
  const int64_t a = int64_t(s.draw(30));
  switch (s.draw(5)) {
  case 0: checkTree<int64_t>(c, gen::mapcat(g.gen(), [](int64_t x) { return gen::just(x); })(random, size), gt, "bind with just"); break;
  case 1: checkTree<int64_t>(c, gen::mapcat(gen::just(a), fg)(random, size), fr(a), "just then bind"); break;
  case 2: {
    const auto ref = lazyBind<int64_t>(lazyBind<int64_t>(gt, fr), hr);
    checkTree<int64_t>(c, gen::mapcat(gen::mapcat(g.gen(), fg), hg)(random, size), ref, "bind of bind, left");
    checkTree<int64_t>(c, gen::mapcat(g.gen(), [=](int64_t x) { return gen::mapcat(fg(x), hg); })(random, size), ref, "bind of bind, right");
    break;
  }
  case 3: checkTree<int64_t>(c, gen::map(g.gen(), [](int64_t x) { return x; })(random, size), gt, "map identity"); break;
  case 4: checkTree<int64_t>(c, gen::mapcat(g.gen(), [=](int64_t x) { return gen::map(fg(x), [=](int64_t y) { return x * 100 + y; }); })(random, size),
                             lazyBind<int64_t>(gt, [&](int64_t x) { return lazyMap<int64_t>(fr(x), [=](int64_t y) { return x * 100 + y; }); }), "dependent pair");
    break;
  default: checkTree<int64_t>(c, gen::join(gen::just(g.gen()))(random, size), gt, "join of just");
  }
}

FACET(tuples, 5) {
  const auto a = anySrc<int64_t>(s, 4);
  const auto b = anySrc<std::string>(s, 4);
  const auto d = anySrc<short>(s, 3);
  const auto e = anySrc<std::vector<int>>(s, 2);
  const auto f = anySrc<int>(s, 2);
  const Random random = anyRandom(s);
  const int size = anySize(s);
  using V = std::vector<int>;
  const int k = int(s.draw(9));
  const auto call = [&](auto &src) { return theCall(c, src, size, cat("tuple form ", k)); };
  const std::string what = cat("tuple form ", k);
  switch (k) {
  case 0: {
    const auto sh = gen::pair(a.gen(), b.gen())(random, size);
    const auto ra = call(a);
    const auto rb = call(b);
    checkTree<std::pair<int64_t, std::string>>(c, sh, lazyPair<int64_t, std::string>(lazy<int64_t>(ra.tree), lazy<std::string>(rb.tree)), "pair");
    independent(c, {ra.random, rb.random}, what);
    break;
  }
  case 1: {
    const auto sh = gen::tuple(a.gen(), b.gen(), d.gen())(random, size);
    const auto ra = call(a);
    const auto rb = call(b);
    const auto rd = call(d);
    checkTree<std::tuple<int64_t, std::string, short>>(c, sh, lazyTuple<int64_t, std::string, short>(ra.tree, rb.tree, rd.tree), what);
    independent(c, {ra.random, rb.random, rd.random}, what);
    break;
  }
  case 2: {
    const auto sh = gen::tuple(e.gen(), a.gen(), b.gen(), d.gen(), f.gen())(random, size);
    const auto re = call(e);
    const auto ra = call(a);
    const auto rb = call(b);
    const auto rd = call(d);
    const auto rf = call(f);
    checkTree<std::tuple<V, int64_t, std::string, short, int>>(
        c, sh, lazyTuple<V, int64_t, std::string, short, int>(re.tree, ra.tree, rb.tree, rd.tree, rf.tree), what);
    independent(c, {re.random, ra.random, rb.random, rd.random, rf.random}, what);
    break;
  }
  case 3: {
    const auto sh = gen::tuple(f.gen())(random, size);
    checkTree<std::tuple<int>>(c, sh, lazyTuple<int>(call(f).tree), what);
    const auto none = gen::tuple()(random, size);
    REQ(none.value() == std::tuple<>() && !none.shrinks().next(), "empty tuple");
    break;
  }
  case 4: { // the same generator twice: independent draws
    const auto sh = gen::pair(a.gen(), a.gen())(random, size);
    REQ_EQ(a.calls->size(), 2u, "calls of the pair's generator");
    const auto x = (*a.calls)[0], y = (*a.calls)[1];
    const auto v = sh.value();
    const bool inOrder = v.first == x.tree->v && v.second == y.tree->v;
    checkTree<std::pair<int64_t, int64_t>>(c, sh, inOrder ? lazyPair<int64_t, int64_t>(lazy<int64_t>(x.tree), lazy<int64_t>(y.tree)) : lazyPair<int64_t, int64_t>(lazy<int64_t>(y.tree), lazy<int64_t>(x.tree)), what);
    independent(c, {x.random, y.random}, what);
    break;
  }
  case 5: {
    const auto fn = [](int64_t x, std::string y, short z) { return y + std::to_string(x - z); };
    const auto sh = gen::apply(fn, a.gen(), b.gen(), d.gen())(random, size);
    const auto ra = call(a);
    const auto rb = call(b);
    const auto rd = call(d);
    checkTree<std::string>(c, sh, lazyMap<std::tuple<int64_t, std::string, short>>(lazyTuple<int64_t, std::string, short>(ra.tree, rb.tree, rd.tree),
        [&](const std::tuple<int64_t, std::string, short> &t) { return fn(std::get<0>(t), std::get<1>(t), std::get<2>(t)); }), "apply");
    independent(c, {ra.random, rb.random, rd.random}, what);
    break;
  }
  case 6: {
    using H = std::pair<std::string, short>;
    const auto sh = gen::construct<H>(b.gen(), d.gen())(random, size);
    const auto rb = call(b);
    const auto rd = call(d);
    checkTree<H>(c, sh, lazyPair<std::string, short>(lazy<std::string>(rb.tree), lazy<short>(rd.tree)), "construct");
    independent(c, {rb.random, rd.random}, what);
    break;
  }
  case 7: { // nested
    const auto sh = gen::pair(gen::pair(a.gen(), d.gen()), b.gen())(random, size);
    const auto ra = call(a);
    const auto rb = call(b);
    const auto rd = call(d);
    checkTree<std::pair<std::pair<int64_t, short>, std::string>>(
        c, sh, lazyPair<std::pair<int64_t, short>, std::string>(lazyPair<int64_t, short>(lazy<int64_t>(ra.tree), lazy<short>(rd.tree)), lazy<std::string>(rb.tree)), what);
    independent(c, {ra.random, rb.random, rd.random}, what);
    break;
  }
  case 8: { // many components, all different draws
    std::vector<Source<short>> all;
    for (int i = 0; i < 9; i++)
      all.push_back(anySrc<short>(s, 2));
    const auto g = [&](size_t i) { return all[i].gen(); };
    const bool join = s.flag();
    const auto list = [](const std::tuple<short, short, short, short, short, short, short, short, short> &t) {
      return std::vector<int>{std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t), std::get<4>(t),
                              std::get<5>(t), std::get<6>(t), std::get<7>(t), std::get<8>(t)};
    };
    const auto sh = join
        ? gen::apply([](short o, short p, short q, short r, short t, short u, short v, short w, short x) {
            return std::vector<int>{o, p, q, r, t, u, v, w, x};
          }, g(0), g(1), g(2), g(3), g(4), g(5), g(6), g(7), g(8))(random, size)
        : gen::map(gen::tuple(g(0), g(1), g(2), g(3), g(4), g(5), g(6), g(7), g(8)), list)(random, size);
    std::vector<Random> rs;
    std::vector<RoseP<short>> ts;
    for (auto &x : all) {
      const auto one = call(x);
      rs.push_back(one.random);
      ts.push_back(one.tree);
    }
    checkTree<std::vector<int>>(c, sh, lazyMap<std::tuple<short, short, short, short, short, short, short, short, short>>(
        lazyTuple<short, short, short, short, short, short, short, short, short>(
            ts[0], ts[1], ts[2], ts[3], ts[4], ts[5], ts[6], ts[7], ts[8]), list), what);
    independent(c, rs, what);
    break;
  }
  default: { // move-only components
    const auto up = gen::map(a.gen(), [](int64_t x) { return std::unique_ptr<int64_t>(new int64_t(x)); });
    const auto sh = gen::tuple(up, b.gen(), gen::map(d.gen(), [](short x) { return std::unique_ptr<short>(new short(x)); }))(random, size);
    const auto back = shrinkable::map(sh, [](std::tuple<std::unique_ptr<int64_t>, std::string, std::unique_ptr<short>> &&t) {
      return std::make_tuple(*std::get<0>(t), std::get<1>(t), *std::get<2>(t));
    });
    checkTree<std::tuple<int64_t, std::string, short>>(c, back, lazyTuple<int64_t, std::string, short>(call(a).tree, call(b).tree, call(d).tree), what);
  }
  }
  c.label(what);
  c.sample(what);
}

// The laws again over arbitrary library expressions, comparing lazily.
FACET(expressions, 2) {
  const auto g = anyGX(s, 2);
  const Random random = anyRandom(s);
  const int size = anySize(s, 25);
  const auto base = g.gen(random, size);
  if (!observe(base).ok) {
    c.label("failed");
    return;
  }
  int budget = 120;
  const auto same = [&](const Shrinkable<Val> &x, const char *law) {
    int b1 = 120, b2 = 120;
    REQ_EQ(treeHash(x, b1, 4), treeHash(base, b2, 4), "different trees: ", law, " of ", g.desc);
  };
  same(gen::map(g.gen, [](Val v) { return v; })(random, size), "map identity");
  same(gen::map(gen::map(g.gen, [](Val v) { return std::make_pair(v, 1); }), [](const std::pair<Val, int> &p) { return p.first; })(random, size), "map composition");
  // A pair's tree projects to its components' trees.
  const auto p = gen::pair(g.gen, gen::just(1))(random, size);
  std::function<void(const Shrinkable<std::pair<Val, int>> &, int &, int)> walk = [&](const Shrinkable<std::pair<Val, int>> &x, int &b, int depth) {
    try {
      REQ_EQ(int(x.value().second), 1, "constant component of ", g.desc);
    } catch (const GenerationFailure &) {
      return;
    }
    if (depth == 0)
      return;
    auto seq = x.shrinks();
    while (b-- > 0) {
      auto k = seq.next();
      if (!k)
        return;
      walk(*k, b, depth - 1);
    }
  };
  budget = 100;
  if (observe(gen::map(gen::pair(g.gen, gen::just(1)), [](const std::pair<Val, int> &q) { return q.first; })(random, size)).ok)
    walk(p, budget, 3);
  c.nontrivial(g.depth > 0);
  c.sample(g.desc);
}

FACET(arbitrary, 1) {
  const Random random = anyRandom(s);
  const int size = anySize(s, 30);
  int budget = 200;
  using T = std::tuple<int, std::string, std::vector<bool>>;
  auto d = sameTree<T>(gen::arbitrary<T>()(random, size), gen::tuple(gen::arbitrary<int>(), gen::arbitrary<std::string>(), gen::arbitrary<std::vector<bool>>())(random, size), budget, 4);
  REQ(d.empty(), d, " in arbitrary tuple");
  using P = std::pair<const int, char>;
  using Q = std::pair<int, char>;
  budget = 200;
  d = sameTree<Q>(gen::arbitrary<P>()(random, size), gen::pair(gen::arbitrary<int>(), gen::arbitrary<char>())(random, size), budget, 4);
  REQ(d.empty(), d, " in arbitrary pair");
  c.nontrivial(size > 1);
}
