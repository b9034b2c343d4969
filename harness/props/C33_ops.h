#pragma once
#include "C33.h"

namespace c33 {
enum State { KNOWN, UNKNOWN, GONE }; // GONE: moved from
template <typename H> struct Slot {
  std::unique_ptr<H> h; // on the heap: dangling references show
  Fp fp;
  State state;
  int cost;
  std::string desc;
};

// Fingerprints of the three kinds of holders.
const int SIZES[2] = {3, 12};
template <typename V> Fp print(const Gen<V> &g) {
  Fp out;
  for (int k = 0; k < 2; k++)
    fpOf(g(Random(static_cast<uint64_t>(41 + k)), SIZES[k]), 2, out);
  return out;
}
template <typename V> Fp print(const Shrinkable<V> &s) {
  Fp out;
  fpOf(s, 2, out);
  return out;
}
template <typename V> int64_t item(const V &v) { return code(v); }
template <typename V> int64_t item(const Shrinkable<V> &s) {
  Fp f;
  fpOf(s, 0, f);
  return f[0];
}
const int SEQ_CAP = 10;
template <typename V> Fp print(const Seq<V> &q) {
  Fp out;
  Seq<V> copy(q);
  for (int i = 0; i < SEQ_CAP; i++) {
    auto x = copy.next();
    if (!x)
      return out;
    out.push_back(item(*x));
  }
  out.push_back(CUT);
  return out;
}

template <typename H> struct Pool {
  std::vector<Slot<H>> v;
  const char *kind;
  explicit Pool(const char *k) : kind(k) {}
  Slot<H> *any(Src &s) { return v.empty() ? nullptr : &v[s.below(v.size())]; }
  // One that can be used.
  Slot<H> *usable(Src &s, int maxCost = 1000) {
    for (int i = 0; i < 3; i++) {
      Slot<H> *x = any(s);
      if (x && x->state != GONE && x->cost <= maxCost)
        return x;
    }
    return nullptr;
  }
  void add(H h, int cost, std::string d, State st = KNOWN) {
    Slot<H> x;
    x.h.reset(new H(std::move(h)));
    x.state = st;
    x.cost = cost;
    x.desc = std::move(d);
    x.fp = print(*x.h);
    v.push_back(std::move(x));
    if (v.size() > 12)
      v.erase(v.begin());
  }
  // The holder as an argument: copied, or moved out of the pool's.
  H arg(Src &s, Slot<H> &x) {
    if (s.draw(3) == 0) {
      x.state = GONE;
      return std::move(*x.h);
    }
    return *x.h;
  }
};

template <typename V> struct Pools {
  Pool<Gen<V>> gens{"generator"};
  Pool<Shrinkable<V>> trees{"tree"};
  Pool<Seq<V>> seqs{"sequence"};
  Pool<Seq<Shrinkable<V>>> kids{"sequence of shrinks"};
  std::vector<std::pair<V, int64_t>> values;
};
struct World {
  Pools<Val> a;
  Pools<Vec> b;
  std::string last;
};

// Makes one more generator, tree or sequence. fault: user objects may throw.
void makeGen(Src &s, World &w, Val *);
void makeGen(Src &s, World &w, Vec *);
void makeTree(Src &s, World &w, Val *);
void makeTree(Src &s, World &w, Vec *);
void makeSeq_(Src &s, World &w, Val *);
void makeSeq_(Src &s, World &w, Vec *);
inline Pools<Val> &pools(World &w, Val *) { return w.a; }
inline Pools<Vec> &pools(World &w, Vec *) { return w.b; }
extern bool faultArmed; // results of a faulty operation are not predictable
inline State made() { return thrown || faultArmed ? UNKNOWN : KNOWN; }

inline Val anyVal(Src &s) { return Val(s.range(-9, 9)); }
inline Vec anyVec(Src &s) {
  Vec v;
  for (uint64_t n = s.draw(4); n > 0; n--)
    v.push_back(anyVal(s));
  return v;
}
inline Val anyV(Src &s, Val *) { return anyVal(s); }
inline Vec anyV(Src &s, Vec *) { return anyVec(s); }

// Generator combinators that work for both kinds of values.
template <typename V> Gen<V> genericGen(Src &s, World &w, int &cost, std::string &d) {
  V *const tag = nullptr;
  auto &P = pools(w, tag);
  const int64_t salt = s.range(0, 6);
  Slot<Gen<V>> *g = P.gens.usable(s, 6);
  const auto kind = g ? s.draw(18) : s.draw(4);
  if (kind >= 5)
    cost = g->cost + 1;
  switch (kind) {
  case 0: d = "just"; return gen::just(anyV(s, tag));
  case 1: {
    d = "elementOf";
    std::vector<V> c;
    for (uint64_t n = 1 + s.draw(3); n > 0; n--)
      c.push_back(anyV(s, tag));
    return s.flag() ? gen::elementOf(std::move(c)) : gen::sizedElementOf(c);
  }
  case 2: d = "element"; return gen::element(anyV(s, tag), anyV(s, tag), anyV(s, tag));
  case 3: d = "weightedElement";
    return gen::weightedElement<V>({{1, anyV(s, tag)}, {3, anyV(s, tag)}});
  case 4: {
    d = "lazy";
    const ThunkFn<V> f(salt, anyV(s, tag));
    return gen::lazy([f] { return gen::just(f()); });
  }
  case 5: d = "map"; return gen::map(P.gens.arg(s, *g), MapFn(salt));
  case 6: d = "suchThat"; return gen::suchThat(P.gens.arg(s, *g), PredFn(salt));
  case 7: d = "noShrink"; return gen::noShrink(P.gens.arg(s, *g));
  case 8: d = "resize"; return gen::resize(static_cast<int>(s.draw(9)), P.gens.arg(s, *g));
  case 9: d = "scale"; return gen::scale(0.7, P.gens.arg(s, *g));
  case 10: d = "shrink"; return gen::shrink(P.gens.arg(s, *g), ShrinkFn<V>(salt));
  case 11: {
    d = "withSize";
    const Gen<V> inner = P.gens.arg(s, *g);
    return gen::withSize([inner](int n) { return n % 2 ? inner : gen::noShrink(inner); });
  }
  case 12: {
    d = "oneOf";
    auto *g2 = P.gens.usable(s, 6);
    const Gen<V> x = *g->h;
    return g2 && g2->state != GONE ? gen::oneOf(x, P.gens.arg(s, *g2), gen::just(anyV(s, tag)))
                                   : gen::sizedOneOf(x, x);
  }
  case 13: {
    d = "weightedOneOf";
    const Gen<V> x = P.gens.arg(s, *g);
    return gen::weightedOneOf<V>({{2, x}, {1, gen::just(anyV(s, tag))}});
  }
  case 14: {
    d = "mapcat";
    auto *g2 = P.gens.usable(s, 4);
    cost += 2 + (g2 ? g2->cost : 0);
    const Gen<V> keep = g2 ? *g2->h : gen::just(anyV(s, tag));
    return gen::mapcat(P.gens.arg(s, *g), GenFn<V>(salt, keep));
  }
  case 15: {
    d = "join";
    cost += 2;
    const Gen<V> x = P.gens.arg(s, *g);
    return gen::join(gen::element(x, gen::noShrink(x), x.as("named")));
  }
  case 16: {
    d = "exec";
    cost += 3;
    const Gen<V> x = P.gens.arg(s, *g);
    const ThunkFn<V> f(salt, anyV(s, tag));
    return gen::exec([x, f] {
      const V a = *x;
      const V b = *x.as("again");
      return code(a) % 2 ? V(b) : code(b) % 3 ? V(a) : f();
    });
  }
  case 17: {
    d = "apply";
    cost += 2;
    auto *g2 = P.gens.usable(s, 6);
    const Gen<V> x = *g->h;
    return gen::apply(ZipFn<V>(salt), x, g2 ? P.gens.arg(s, *g2) : x);
  }
  default: {
    d = "own generator over a tree";
    const V v = anyV(s, tag);
    const Gen<V> x = P.gens.arg(s, *g);
    return Gen<V>([x, v](const Random &r, int n) {
      return shrinkable::just(V(v), seq::just(x(r, n), shrinkable::just(V(v))));
    });
  }
  }
}

template <typename V> Shrinkable<V> genericTree(Src &s, World &w, int &cost, std::string &d) {
  V *const tag = nullptr;
  auto &P = pools(w, tag);
  const int64_t salt = s.range(0, 6);
  auto *t = P.trees.usable(s, 5);
  const auto kind = t ? s.draw(9) : s.draw(3);
  if (kind >= 4)
    cost = t->cost + 1;
  switch (kind) {
  case 0: d = "just"; return shrinkable::just(anyV(s, tag));
  case 1: d = "lambda"; return shrinkable::lambda(ThunkFn<V>(salt, anyV(s, tag)));
  case 2: cost = 2; d = "shrinkRecur"; {
    const V v = anyV(s, tag);
    return shrinkable::shrinkRecur(v, [salt](const V &x) {
      const auto n = code(x) % 7;
      return n > 0 ? seq::just(MapFn(-1 - salt)(x)) : Seq<V>();
    });
  }
  case 3: cost = 1; d = "shrink"; {
    const ShrinkFn<V> f(salt);
    return shrinkable::shrink(ThunkFn<V>(salt, anyV(s, tag)), [f](const V &v) {
      return seq::map(f(v), [](V x) { return shrinkable::just(std::move(x)); });
    });
  }
  case 4: d = "map"; return shrinkable::map(P.trees.arg(s, *t), MapFn(salt));
  case 5: {
    d = "filter";
    auto m = shrinkable::filter(P.trees.arg(s, *t), PredFn(salt));
    return m ? std::move(*m) : shrinkable::just(anyV(s, tag));
  }
  case 6: cost += 2; d = "mapcat"; return shrinkable::mapcat(P.trees.arg(s, *t), ShrinkableFn<V>(salt));
  case 7: {
    d = "mapShrinks";
    const int64_t k = salt;
    return shrinkable::mapShrinks(P.trees.arg(s, *t), [k](Seq<Shrinkable<V>> q) {
      return seq::take(static_cast<size_t>(k + 1), std::move(q));
    });
  }
  case 8: cost += 1; d = "postShrink"; {
    const ShrinkFn<V> f(salt);
    return shrinkable::postShrink(P.trees.arg(s, *t), [f](const V &v) {
      return seq::take(1, f(v));
    });
  }
  default: {
    d = "pair";
    cost += 2;
    auto *t2 = P.trees.usable(s, 5);
    const Shrinkable<V> x = *t->h;
    const ZipFn<V> f(salt);
    return shrinkable::map(shrinkable::pair(x, t2 ? P.trees.arg(s, *t2) : x),
                           [f](const std::pair<V, V> &p) { return f(p.first, p.second); });
  }
  }
}

template <typename V> Seq<V> genericSeq(Src &s, World &w, int &cost, std::string &d) {
  V *const tag = nullptr;
  auto &P = pools(w, tag);
  const int64_t salt = s.range(0, 6);
  auto *q = P.seqs.usable(s, 6);
  const auto kind = q ? s.draw(17) : s.draw(4);
  if (kind >= 5)
    cost = q->cost + 1;
  switch (kind) {
  case 0: d = "just"; return seq::just(anyV(s, tag), anyV(s, tag), anyV(s, tag));
  case 1:
  case 2: {
    d = "fromContainer";
    std::vector<V> c;
    for (uint64_t n = s.draw(5); n > 0; n--)
      c.push_back(anyV(s, tag));
    if (kind == 1)
      return seq::fromContainer(std::move(c));
    return s.flag() ? seq::fromContainer(c) : seq::fromIteratorRange(c.begin(), c.end());
  }
  case 3: d = "iterate"; return seq::take(5, seq::iterate(anyV(s, tag), MapFn(salt)));
  case 4: d = "repeat"; return seq::take(3, seq::repeat(anyV(s, tag)));
  case 5: d = "map"; return seq::map(P.seqs.arg(s, *q), MapFn(salt));
  case 6: d = "filter"; return seq::filter(P.seqs.arg(s, *q), PredFn(salt));
  case 7: d = "takeWhile"; return seq::takeWhile(P.seqs.arg(s, *q), PredFn(salt));
  case 8: d = "dropWhile"; return seq::dropWhile(P.seqs.arg(s, *q), PredFn(salt));
  case 9: d = "take"; return seq::take(s.draw(5), P.seqs.arg(s, *q));
  case 10: d = "drop"; return seq::drop(s.draw(3), P.seqs.arg(s, *q));
  case 11: cost++; d = "mapcat"; return seq::mapcat(P.seqs.arg(s, *q), SeqFn<V>(salt));
  case 12: d = "mapMaybe"; return seq::mapMaybe(P.seqs.arg(s, *q), MaybeFn<V>(salt));
  case 13: d = "cycle"; return seq::take(7, seq::cycle(P.seqs.arg(s, *q)));
  case 14: {
    d = "concat";
    cost++;
    auto *q2 = P.seqs.usable(s, 6);
    const Seq<V> x = *q->h;
    return q2 ? seq::concat(x, P.seqs.arg(s, *q2), x) : seq::concat(x, x);
  }
  case 15: {
    d = "join";
    cost += 2;
    const Seq<V> x = P.seqs.arg(s, *q);
    return seq::join(seq::just(x, Seq<V>(), seq::take(2, x)));
  }
  case 16: {
    d = "zipWith";
    auto *q2 = P.seqs.usable(s, 6);
    const Seq<V> x = *q->h;
    return seq::zipWith(ZipFn<V>(salt), x, q2 ? P.seqs.arg(s, *q2) : x);
  }
  default: {
    d = "immediateShrinks";
    auto *t = P.trees.usable(s, 5);
    return t ? seq::take(6, shrinkable::immediateShrinks(*t->h)) : Seq<V>();
  }
  }
}
} // namespace c33
