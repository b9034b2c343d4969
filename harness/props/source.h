// Recorded generators over explicit trees: the tree is a function of the random
// state, the size and (for bound generators) an extra key.
#pragma once
#include "rose.h"

namespace rcx {

template <typename T> T fromInt(int64_t x);
template <> inline int64_t fromInt<int64_t>(int64_t x) { return x; }
template <> inline int fromInt<int>(int64_t x) { return int(x); }
template <> inline short fromInt<short>(int64_t x) { return short(x); }
template <> inline std::string fromInt<std::string>(int64_t x) { return "s" + std::to_string(x); }
template <> inline std::vector<int> fromInt<std::vector<int>>(int64_t x) { return std::vector<int>(size_t(x % 4), int(x)); }

inline uint64_t randomKey(const rc::Random &random) {
  rc::Random r(random);
  return r.next();
}

template <typename T> struct SrcCall { rc::Random random; int size; RoseP<T> tree; };

template <typename T> struct Source {
  std::vector<RoseP<T>> pool;
  bool ignoreRandom = false;
  std::shared_ptr<std::vector<SrcCall<T>>> calls = std::make_shared<std::vector<SrcCall<T>>>();
  RoseP<T> at(const rc::Random &random, int size, uint64_t key) const {
    const uint64_t h = pbt::hash64(pbt::hash64(ignoreRandom ? 0 : randomKey(random), key), ignoreRandom ? 0 : uint64_t(size));
    return pool[h % pool.size()];
  }
  rc::Gen<T> gen(uint64_t key = 0) const {
    const Source me = *this;
    return rc::Gen<T>([me, key](const rc::Random &random, int size) {
      const auto t = me.at(random, size, key);
      me.calls->push_back(SrcCall<T>{random, size, t});
      return toShrinkable<T>(t);
    });
  }
};
template <typename T> Source<T> anySrc(pbt::Src &s, int maxNodes = 6, size_t maxTrees = 3) {
  Source<T> out;
  for (size_t i = 0, n = 1 + s.draw(maxTrees - 1); i < n; i++) {
    int budget = int(s.draw(uint64_t(maxNodes)));
    out.pool.push_back(genRose(s, [&](int) { return fromInt<T>(int64_t(s.draw(30))); }, budget));
  }
  return out;
}

// Reference trees whose shrinks are listed on demand: products of trees have far
// too many nodes to be written out.
template <typename T> struct Lazy {
  using ValueType = T;
  T v;
  std::function<std::vector<Lazy<T>>()> kids;
};
template <typename T> Lazy<T> leaf(T v) { return Lazy<T>{std::move(v), [] { return std::vector<Lazy<T>>(); }}; }
template <typename T> Lazy<T> lazy(const RoseP<T> &r) {
  return Lazy<T>{r->v, [r] {
    std::vector<Lazy<T>> out;
    for (auto &k : r->kids)
      out.push_back(lazy<T>(k));
    return out;
  }};
}
template <typename T, typename F> auto lazyMap(const Lazy<T> &r, F f) -> Lazy<decltype(f(r.v))> {
  using U = decltype(f(r.v));
  return Lazy<U>{f(r.v), [r, f] {
    std::vector<Lazy<U>> out;
    for (auto &k : r.kids())
      out.push_back(lazyMap<T>(k, f));
    return out;
  }};
}
// f returns a tree; the first tree's shrinks come before the second's.
template <typename T, typename F> auto lazyBind(const Lazy<T> &r, F f) -> decltype(f(r.v)) {
  using L = decltype(f(r.v));
  const L inner = f(r.v);
  return L{inner.v, [r, f, inner] {
    std::vector<L> out;
    for (auto &k : r.kids())
      out.push_back(lazyBind<T>(k, f));
    for (auto &k : inner.kids())
      out.push_back(k);
    return out;
  }};
}
template <typename T> Lazy<T> lazyFilter(const Lazy<T> &r, const std::function<bool(const T &)> &p) {
  return Lazy<T>{r.v, [r, p] {
    std::vector<Lazy<T>> out;
    for (auto &k : r.kids())
      if (p(k.v))
        out.push_back(lazyFilter<T>(k, p));
    return out;
  }};
}
template <typename T> Lazy<T> lazyRecur(T v, std::function<std::vector<T>(const T &)> f) {
  return Lazy<T>{v, [v, f] {
    std::vector<Lazy<T>> out;
    for (auto &k : f(v))
      out.push_back(lazyRecur<T>(k, f));
    return out;
  }};
}
// Product: components shrink one at a time, first component first.
template <size_t I, typename... Ts> void tupleKids(const std::tuple<Lazy<Ts>...> &t, std::vector<Lazy<std::tuple<Ts...>>> &kids);
template <typename... Ts, size_t... I> Lazy<std::tuple<Ts...>> lazyTupleImpl(const std::tuple<Lazy<Ts>...> &t, std::index_sequence<I...>) {
  return Lazy<std::tuple<Ts...>>{std::tuple<Ts...>(std::get<I>(t).v...), [t] {
    std::vector<Lazy<std::tuple<Ts...>>> kids;
    int dummy[] = {0, (tupleKids<I, Ts...>(t, kids), 0)...};
    (void)dummy;
    return kids;
  }};
}
template <size_t I, typename... Ts> void tupleKids(const std::tuple<Lazy<Ts>...> &t, std::vector<Lazy<std::tuple<Ts...>>> &kids) {
  for (auto &k : std::get<I>(t).kids()) {
    auto u = t;
    std::get<I>(u) = k;
    kids.push_back(lazyTupleImpl<Ts...>(u, std::index_sequence_for<Ts...>()));
  }
}
template <typename... Ts> Lazy<std::tuple<Ts...>> lazyTuple(const RoseP<Ts> &... rs) {
  return lazyTupleImpl<Ts...>(std::make_tuple(lazy<Ts>(rs)...), std::index_sequence_for<Ts...>());
}
template <typename A, typename B> Lazy<std::pair<A, B>> lazyPair(const Lazy<A> &a, const Lazy<B> &b) {
  return lazyMap<std::tuple<A, B>>(lazyTupleImpl<A, B>(std::make_tuple(a, b), std::index_sequence_for<A, B>()),
                                   [](const std::tuple<A, B> &t) { return std::make_pair(std::get<0>(t), std::get<1>(t)); });
}

// Compares a library tree with a reference tree, up to a node budget; nodes are
// visited in full at the top and then depth first.
template <typename T> std::string lazyDiff(const rc::Shrinkable<T> &sh, const Lazy<T> &r, int &budget, const std::string &path = "root") {
  if (!(sh.value() == r.v))
    return pbt::cat("value differs at ", path);
  if (budget <= 0)
    return "";
  const auto want = r.kids();
  auto seq = sh.shrinks();
  std::vector<rc::Shrinkable<T>> kids;
  for (size_t i = 0; i < want.size(); i++) {
    auto k = seq.next();
    if (!k)
      return pbt::cat("only ", i, " shrinks instead of ", want.size(), " at ", path);
    if (!(k->value() == want[i].v))
      return pbt::cat("value differs at ", path, "/", i);
    kids.push_back(std::move(*k));
    budget--;
  }
  if (seq.next())
    return pbt::cat("more than ", want.size(), " shrinks at ", path);
  if (seq.next())
    return pbt::cat("sequence of shrinks restarts after its end at ", path);
  // Share the budget among the children so that later ones are visited too.
  for (size_t i = 0; i < want.size() && budget > 0; i++) {
    int share = std::max(1, budget / int(want.size() - i));
    const int before = share;
    const auto d = lazyDiff<T>(kids[i], want[i], share, pbt::cat(path, "/", i));
    budget -= before - share;
    if (!d.empty())
      return d;
  }
  return "";
}
template <typename T> std::string lazyStr(const Lazy<T> &r, int &budget) {
  std::string out = pbt::str(r.v);
  const auto kids = r.kids();
  if (kids.empty())
    return out;
  out += "(";
  for (size_t i = 0; i < kids.size(); i++) {
    if (budget-- <= 0)
      return out + "...";
    out += (i ? " " : "") + lazyStr<T>(kids[i], budget);
  }
  return out + ")";
}
template <typename T> std::string lazyStr(const Lazy<T> &r) {
  int budget = 40;
  return lazyStr<T>(r, budget);
}

} // namespace rcx
