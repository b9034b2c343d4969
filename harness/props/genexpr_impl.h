#include "genexpr.h"
#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

namespace rcx {
namespace {
using namespace rc;
using namespace pbt;

template <typename T> Val toVal(const T &x) { return Val{static_cast<int64_t>(x)}; }
inline Val toVal(const Val &v) { return v; }
inline Val toVal(double x) {
  int64_t b;
  std::memcpy(&b, &x, 8);
  return Val{b};
}
inline Val toVal(float x) { return toVal(static_cast<double>(x)); }
template <typename C> Val seqVal(const C &c) {
  Val out;
  for (const auto &x : c)
    for (auto y : toVal(x))
      out.push_back(y);
  return out;
}
template <typename C> Val nestVal(const C &c) {
  Val out;
  int64_t n = 0;
  for (const Val &x : c) {
    out.push_back(-1000 - static_cast<int64_t>(x.size()));
    out.insert(out.end(), x.begin(), x.end());
    n++;
  }
  out.push_back(n);
  return out;
}
Val catVal(Val a, const Val &b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
int64_t sumVal(const Val &v) {
  uint64_t t = 0;
  for (auto x : v)
    t = t * 31 + static_cast<uint64_t>(x);
  return static_cast<int64_t>(t & 0x7fffffffffffffffULL);
}
struct ValHash {
  size_t operator()(const Val &v) const { return static_cast<size_t>(sumVal(v)); }
};
struct Holder {
  Holder() {}
  Holder(Val x, Val y) : a(std::move(x)), b(std::move(y)) {}
  Val a, b;
  void setB(Val v) { b = std::move(v); }
  void setBoth(Val x, Val y) {
    a = std::move(x);
    b = std::move(y);
  }
};
Val holderVal(const Holder &h) { return catVal(catVal(h.a, Val{7777}), h.b); }

template <typename T> GX arb(const char *name) {
  return GX{gen::map(gen::arbitrary<T>(), [](const T &x) { return toVal(x); }), name, 0};
}

GX leaf(Src &s) {
  switch (s.draw(19)) {
  case 0: {
    const int64_t k = static_cast<int64_t>(s.draw(9));
    return GX{gen::just(Val{k}), cat("just(", k, ")"), 0};
  }
  case 1: {
    const int lo = static_cast<int>(s.range(-20, 20));
    const int hi = lo + 1 + static_cast<int>(s.draw(s.flag() ? 5 : 500));
    return GX{gen::map(gen::inRange(lo, hi), [](int x) { return Val{x}; }),
              cat("inRange(", lo, ",", hi, ")"), 0};
  }
  case 2: return arb<int>("int");
  case 3: return arb<uint8_t>("uint8");
  case 4: return arb<int64_t>("int64");
  case 5: return arb<bool>("bool");
  case 6: return arb<double>("double");
  case 7: return arb<char>("char");
  case 8: return GX{gen::map(gen::element(1, 4, 9, 16), [](int x) { return Val{x}; }), "element", 0};
  case 9: return GX{gen::map(gen::elementOf(std::vector<int>{3, 1, 2}), [](int x) { return Val{x}; }), "elementOf", 0};
  case 10: {
    const size_t w0 = s.draw(3), w1 = 1 + s.draw(3), w2 = s.draw(3);
    return GX{gen::map(gen::weightedElement<int>({{w0, 10}, {w1, 20}, {w2, 30}}), [](int x) { return Val{x}; }),
              cat("weightedElement(", w0, ",", w1, ",", w2, ")"), 0};
  }
  case 11: return GX{gen::map(gen::sizedElement(1, 2, 3, 4, 5, 6), [](int x) { return Val{x}; }), "sizedElement", 0};
  case 12: return GX{gen::map(gen::string<std::string>(), [](const std::string &x) { return seqVal(x); }), "string", 0};
  case 13: return GX{gen::map(gen::nonZero<int8_t>(), [](int8_t x) { return Val{x}; }), "nonZero", 0};
  case 14: return GX{gen::map(gen::positive<int>(), [](int x) { return Val{x}; }), "positive", 0};
  case 15: return GX{gen::arbitrary<std::vector<int64_t>>(), "vector<int64>", 0};
  case 16: return GX{gen::map(gen::arbitrary<std::array<int16_t, 3>>(), [](const std::array<int16_t, 3> &a) { return seqVal(a); }), "array", 0};
  case 17: return GX{gen::map(gen::container<std::set<int>>(gen::inRange(0, 50)), [](const std::set<int> &a) { return seqVal(a); }), "set<int>", 0};
  case 18: return GX{gen::map(gen::unique<std::vector<int>>(gen::inRange(0, 60)), [](const std::vector<int> &a) { return seqVal(a); }), "unique", 0};
  default: return arb<float>("float");
  }
}
} // namespace

GX anyGX(Src &s, int depth) {
  if (depth <= 0 || s.draw(6) == 0)
    return leaf(s);
  const auto sub = [&] { return anyGX(s, depth - 1); };
  switch (s.draw(29)) {
  case 0: {
    const auto g = sub();
    const int64_t k = static_cast<int64_t>(s.draw(9));
    return GX{gen::map(g.gen, [k](Val v) { v.push_back(k); return v; }), cat("map(", g.desc, ")"), g.depth + 1};
  }
  case 1: {
    const auto g = sub();
    const int64_t k = static_cast<int64_t>(2 + s.draw(6));
    return GX{gen::suchThat(g.gen, [k](const Val &v) { return sumVal(v) % k != 0; }),
              cat("suchThat(", g.desc, ",%", k, ")"), g.depth + 1};
  }
  case 2: {
    const auto g = sub();
    return GX{gen::map(gen::container<std::vector<Val>>(g.gen), [](const std::vector<Val> &v) { return nestVal(v); }),
              cat("vector(", g.desc, ")"), g.depth + 1};
  }
  case 3: {
    const auto g = sub();
    const size_t n = s.draw(5);
    return GX{gen::map(gen::container<std::vector<Val>>(n, g.gen), [](const std::vector<Val> &v) { return nestVal(v); }),
              cat("vector(", n, ",", g.desc, ")"), g.depth + 1};
  }
  case 4: {
    const auto g = sub(), h = sub();
    return GX{gen::map(gen::pair(g.gen, h.gen), [](const std::pair<Val, Val> &p) { return catVal(p.first, p.second); }),
              cat("pair(", g.desc, ",", h.desc, ")"), std::max(g.depth, h.depth) + 1};
  }
  case 5: {
    const auto g = sub(), h = sub(), i = sub();
    return GX{gen::map(gen::tuple(g.gen, h.gen, i.gen), [](const std::tuple<Val, Val, Val> &p) {
                return catVal(catVal(std::get<0>(p), std::get<1>(p)), std::get<2>(p));
              }), cat("tuple(", g.desc, ",", h.desc, ",", i.desc, ")"), std::max({g.depth, h.depth, i.depth}) + 1};
  }
  case 6: {
    const auto g = sub(), h = sub();
    return GX{gen::oneOf(g.gen, h.gen), cat("oneOf(", g.desc, ",", h.desc, ")"), std::max(g.depth, h.depth) + 1};
  }
  case 7: {
    const auto g = sub(), h = sub();
    const size_t a = s.draw(2), b = 1 + s.draw(3);
    return GX{gen::weightedOneOf<Val>({{a, g.gen}, {b, h.gen}}),
              cat("weightedOneOf(", a, ":", g.desc, ",", b, ":", h.desc, ")"), std::max(g.depth, h.depth) + 1};
  }
  case 8: {
    const auto g = sub(), h = sub();
    return GX{gen::sizedOneOf(g.gen, h.gen), cat("sizedOneOf(", g.desc, ",", h.desc, ")"), std::max(g.depth, h.depth) + 1};
  }
  case 9: {
    const auto g = sub(), h = sub();
    const auto hg = h.gen;
    return GX{gen::mapcat(g.gen, [hg](const Val &v) {
                const size_t n = static_cast<size_t>(sumVal(v) % 4);
                return gen::map(gen::container<std::vector<Val>>(n, hg),
                                [v](const std::vector<Val> &w) { return catVal(v, nestVal(w)); });
              }), cat("mapcat(", g.desc, ",n*", h.desc, ")"), std::max(g.depth, h.depth) + 1};
  }
  case 10: {
    const auto g = sub();
    const int n = static_cast<int>(s.draw(40));
    return GX{gen::resize(n, g.gen), cat("resize(", n, ",", g.desc, ")"), g.depth + 1};
  }
  case 11: {
    const auto g = sub();
    const double f = s.oneOf({0.0, 0.25, 0.5, 1.0, 1.5, 2.0});
    return GX{gen::scale(f, g.gen), cat("scale(", f, ",", g.desc, ")"), g.depth + 1};
  }
  case 12: {
    const auto g = sub();
    const auto gg = g.gen;
    return GX{gen::withSize([gg](int size) {
                return gen::map(gg, [size](Val v) { v.push_back(size); return v; });
              }), cat("withSize(", g.desc, ")"), g.depth + 1};
  }
  case 13: {
    const auto g = sub();
    return GX{gen::noShrink(g.gen), cat("noShrink(", g.desc, ")"), g.depth + 1};
  }
  case 14: {
    const auto g = sub();
    const auto gg = g.gen;
    return GX{gen::lazy([gg] { return gg; }), cat("lazy(", g.desc, ")"), g.depth + 1};
  }
  case 15: {
    const auto g = sub();
    return GX{g.gen.as("named"), cat("as(", g.desc, ")"), g.depth + 1};
  }
  case 16: {
    const auto g = sub();
    return GX{gen::map(gen::maybe(g.gen), [](const Maybe<Val> &m) { return m ? catVal(Val{1}, *m) : Val{0}; }),
              cat("maybe(", g.desc, ")"), g.depth + 1};
  }
  case 17: {
    const auto g = sub();
    const int64_t k = static_cast<int64_t>(5 + s.draw(60));
    return GX{gen::map(gen::resize(8, gen::uniqueBy<std::vector<Val>>(g.gen, [k](const Val &v) { return sumVal(v) % k; })),
                       [](const std::vector<Val> &v) { return nestVal(v); }),
              cat("uniqueBy(", g.desc, ",%", k, ")"), g.depth + 1};
  }
  case 18: {
    const auto g = sub(), h = sub();
    const auto gg = g.gen, hg = h.gen;
    return GX{gen::exec([gg, hg] {
                Val v = *gg;
                const int64_t n = sumVal(v) % 4;
                for (int64_t i = 0; i < n; i++)
                  v = catVal(v, *hg);
                if (n == 2)
                  v.push_back(*gen::inRange(0, 10));
                return v;
              }), cat("exec(", g.desc, ",n*", h.desc, ")"), std::max(g.depth, h.depth) + 1};
  }
  case 19: {
    const auto g = sub(), h = sub();
    return GX{gen::join(gen::element(g.gen, h.gen)), cat("join(", g.desc, ",", h.desc, ")"), std::max(g.depth, h.depth) + 1};
  }
  case 20: {
    const auto g = sub();
    return GX{gen::map(gen::container<std::set<Val>>(g.gen), [](const std::set<Val> &v) { return nestVal(v); }),
              cat("set(", g.desc, ")"), g.depth + 1};
  }
  case 21: {
    const auto g = sub(), h = sub();
    return GX{gen::map(gen::container<std::map<Val, Val>>(g.gen, h.gen), [](const std::map<Val, Val> &m) {
                Val out;
                for (auto &p : m)
                  out = catVal(catVal(out, p.first), catVal(Val{-5}, p.second));
                return out;
              }), cat("map<>(", g.desc, ",", h.desc, ")"), std::max(g.depth, h.depth) + 1};
  }
  case 22: {
    const auto g = sub();
    return GX{gen::shrink(g.gen, [](const Val &v) {
                return v.empty() ? Seq<Val>() : seq::just(Val(v.begin() + 1, v.end()));
              }), cat("shrink(", g.desc, ")"), g.depth + 1};
  }
  case 23: {
    const auto g = sub(), h = sub();
    return GX{gen::map(gen::construct<Holder>(g.gen, h.gen), &holderVal),
              cat("construct(", g.desc, ",", h.desc, ")"), std::max(g.depth, h.depth) + 1};
  }
  case 24: {
    const auto g = sub(), h = sub();
    return GX{gen::map(gen::build<Holder>(gen::set(&Holder::a, g.gen), gen::set(&Holder::setB, h.gen)), &holderVal),
              cat("build(", g.desc, ",", h.desc, ")"), std::max(g.depth, h.depth) + 1};
  }
  case 25: {
    const auto g = sub(), h = sub();
    return GX{gen::map(gen::build<Holder>(gen::construct<Holder>(h.gen, g.gen),
                                          gen::set(&Holder::setBoth, gen::tuple(g.gen, h.gen))), &holderVal),
              cat("build2(", g.desc, ",", h.desc, ")"), std::max(g.depth, h.depth) + 1};
  }
  case 26: {
    const auto g = sub(), h = sub();
    return GX{gen::map(gen::makeShared<Holder>(g.gen, h.gen), [](const std::shared_ptr<Holder> &p) { return holderVal(*p); }),
              cat("makeShared(", g.desc, ",", h.desc, ")"), std::max(g.depth, h.depth) + 1};
  }
  case 27: {
    const auto g = sub(), h = sub();
    return GX{gen::map(gen::makeUnique<Holder>(g.gen, h.gen), [](const std::unique_ptr<Holder> &p) { return holderVal(*p); }),
              cat("makeUnique(", g.desc, ",", h.desc, ")"), std::max(g.depth, h.depth) + 1};
  }
  case 28: {
    const auto g = sub(), h = sub();
    return GX{gen::apply([](const Val &a, const Val &b) { return catVal(b, a); }, g.gen, h.gen),
              cat("apply(", g.desc, ",", h.desc, ")"), std::max(g.depth, h.depth) + 1};
  }
  default: {
    const auto g = sub();
    return GX{gen::map(gen::container<std::list<Val>>(g.gen), [](const std::list<Val> &v) { return nestVal(v); }),
              cat("list(", g.desc, ")"), g.depth + 1};
  }
  }
}

} // namespace rcx
