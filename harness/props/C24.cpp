// C24: shrink tree operations agree with a reference tree.
#include "source.h"
#include <rapidcheck/shrinkable/Create.h>
#include <rapidcheck/shrinkable/Operations.h>
#include <rapidcheck/shrinkable/Transform.h>
using namespace pbt;
using namespace rc;
using namespace rcx;
namespace {
// Long enough to live on the heap: a moved-from value is visible.
using T = std::string;
T val(uint64_t x) { return "the value number " + std::to_string(x % 40); }
T unval(const T &t) { return t.size() > 17 ? t.substr(17) : "<" + t + ">"; }
struct Tree {
  Shrinkable<T> sh;
  Lazy<T> ref;
  std::string desc;
};
struct Boom {};

RoseP<T> anyRose(Src &s, int nodes) {
  int budget = int(s.draw(uint64_t(nodes)));
  return genRose(s, [&](int) { return val(s.draw(30)); }, budget);
}
// Shrinks of a plain value: fewer each time, so trees stay finite.
std::vector<T> fewer(uint64_t salt, const T &t) {
  const uint64_t n = hash64(salt, hashStr(t)) % 4;
  std::vector<T> out;
  const size_t at = t.rfind('.');
  const size_t depth = at == T::npos ? 0 : size_t(std::count(t.begin(), t.end(), '.'));
  if (depth >= 3)
    return out;
  for (uint64_t i = 0; i < n; i++)
    out.push_back(t + "." + std::to_string((hash64(salt + 1, hashStr(t)) + i) % 7));
  return out;
}
// Lists written against the documented interface of Seq only.
template <typename X> struct ListSeq {
  std::shared_ptr<std::vector<X>> v;
  size_t i;
  Maybe<X> operator()() {
    if (i >= v->size())
      return Nothing;
    return (*v)[i++];
  }
};
template <typename X> Seq<X> listSeq(std::vector<X> v) {
  return makeSeq<ListSeq<X>>(ListSeq<X>{std::make_shared<std::vector<X>>(std::move(v)), 0});
}
// Removes subtrees, as a sequence wrapper.
struct DropNth {
  Seq<Shrinkable<T>> in;
  size_t n, i;
  Maybe<Shrinkable<T>> operator()() {
    auto x = in.next();
    if (x && i++ == n)
      x = in.next();
    return x;
  }
};

Tree anyTree(Src &s, int depth);
Tree baseTree(Src &s) {
  const uint64_t salt = s.draw(1000);
  const auto r = anyRose(s, 12);
  switch (s.draw(7)) {
  case 0: {
    const T v = val(s.draw(30));
    return Tree{shrinkable::just(v), leaf<T>(v), "just(" + unval(v) + ")"};
  }
  case 1: {
    std::vector<Shrinkable<T>> kids;
    for (auto &k : r->kids)
      kids.push_back(toShrinkable<T>(k));
    return Tree{shrinkable::just(r->v, listSeq(kids)), lazy<T>(r), "just(tree)"};
  }
  case 2: {
    return Tree{shrinkable::lambda([r] { return r->v; }, [r] {
      std::vector<Shrinkable<T>> kids;
      for (auto &k : r->kids)
        kids.push_back(toShrinkable<T>(k));
      return listSeq(kids);
    }), lazy<T>(r), "lambda(tree)"};
  }
  case 3: {
    const T v = val(s.draw(30));
    return Tree{shrinkable::lambda([v] { return v; }), leaf<T>(v), "lambda(" + unval(v) + ")"};
  }
  case 4: {
    const T v = val(s.draw(30));
    return Tree{shrinkable::shrinkRecur(v, [salt](const T &x) { return listSeq(fewer(salt, x)); }),
                lazyRecur<T>(v, [salt](const T &x) { return fewer(salt, x); }), "shrinkRecur(" + unval(v) + ")"};
  }
  case 5: {
    const T v = val(s.draw(30));
    Lazy<T> ref{v, [v, salt] {
      std::vector<Lazy<T>> out;
      for (auto &k : fewer(salt, v))
        out.push_back(leaf<T>(k));
      return out;
    }};
    return Tree{shrinkable::shrink([v] { return v; }, [salt](T &&x) {
      const T y(std::move(x));
      std::vector<Shrinkable<T>> kids;
      for (auto &k : fewer(salt, y))
        kids.push_back(shrinkable::just(k));
      return listSeq(kids);
    }), ref, "shrink(" + unval(v) + ")"};
  }
  default:
    return Tree{toShrinkable<T>(r), lazy<T>(r), "rose"};
  }
}
Tree anyTree(Src &s, int depth) {
  if (depth == 0)
    return baseTree(s);
  Tree a = anyTree(s, depth - 1);
  const uint64_t salt = s.draw(1000);
  switch (s.draw(6)) {
  case 0: {
    // Takes its argument by value, rvalue or reference.
    const auto f = [salt](const T &x) { return val(hash64(salt, hashStr(x))); };
    const uint64_t how = s.draw(2);
    Tree out{a.sh, lazyMap<T>(a.ref, f), "map(" + a.desc + ")"};
    if (how == 0)
      out.sh = shrinkable::map(a.sh, f);
    else if (how == 1)
      out.sh = shrinkable::map(a.sh, [f](T &&x) { T y(std::move(x)); return f(y); });
    else
      out.sh = shrinkable::map(std::move(a.sh), [f](T x) { return f(x); });
    return out;
  }
  case 1: {
    const unsigned den = unsigned(1 + s.draw(4));
    const std::function<bool(const T &)> p = [salt, den](const T &x) { return hash64(salt, hashStr(x)) % den != 0 || den == 1; };
    const auto m = shrinkable::filter(a.sh, p);
    if (!p(a.ref.v)) {
      a.desc = m ? "BAD FILTER" : "filter-none(" + a.desc + ")";
      return a;
    }
    if (!m) {
      a.desc = "BAD FILTER";
      return a;
    }
    return Tree{*m, lazyFilter<T>(a.ref, p), "filter(" + a.desc + ")"};
  }
  case 2: {
    std::vector<RoseP<T>> pool;
    for (size_t i = 0, n = 1 + s.draw(2); i < n; i++)
      pool.push_back(anyRose(s, 5));
    const auto f = [salt, pool](const T &x) { return pool[hash64(salt, hashStr(x)) % pool.size()]; };
    Tree out{a.sh, lazyBind<T>(a.ref, [f](const T &x) { return lazy<T>(f(x)); }), "mapcat(" + a.desc + ")"};
    if (s.flag())
      out.sh = shrinkable::mapcat(a.sh, [f](const T &x) { return toShrinkable<T>(f(x)); });
    else
      out.sh = shrinkable::mapcat(std::move(a.sh), [f](T &&x) { T y(std::move(x)); return toShrinkable<T>(f(y)); });
    return out;
  }
  case 3: {
    Tree b = anyTree(s, depth - 1);
    const auto p = shrinkable::pair(a.sh, b.sh);
    const auto join = [](const std::pair<T, T> &x) { return "(" + x.first + "," + x.second + ")"; };
    return Tree{shrinkable::map(p, join), lazyMap<std::pair<T, T>>(lazyPair<T, T>(a.ref, b.ref), join), "pair(" + a.desc + "," + b.desc + ")"};
  }
  case 4: {
    const auto f = [salt](const T &x) { return fewer(salt, x); };
    return Tree{shrinkable::postShrink(a.sh, [f](const T &x) { return listSeq(f(x)); }),
                lazyBind<T>(a.ref, [f](const T &x) { return lazyRecur<T>(x, f); }), "postShrink(" + a.desc + ")"};
  }
  case 5: {
    const size_t n = s.draw(3);
    const Lazy<T> in = a.ref;
    Lazy<T> ref{in.v, [in, n] {
      auto k = in.kids();
      if (n < k.size())
        k.erase(k.begin() + long(n));
      return k;
    }};
    return Tree{shrinkable::mapShrinks(a.sh, [n](Seq<Shrinkable<T>> &&q) { return makeSeq<DropNth>(DropNth{std::move(q), n, 0}); }), ref, "mapShrinks(" + a.desc + ")"};
  }
  default:
    return a;
  }
}

// All nodes in depth-first order, or nothing if there are more than `budget`.
bool nodes(const Lazy<T> &r, std::vector<T> &out, size_t budget) {
  if (out.size() >= budget)
    return false;
  out.push_back(r.v);
  for (auto &k : r.kids())
    if (!nodes(k, out, budget))
      return false;
  return true;
}
RoseP<T> written(const Lazy<T> &r) {
  std::vector<RoseP<T>> kids;
  for (auto &k : r.kids())
    kids.push_back(written(k));
  return rose<T>(r.v, kids);
}
// The same tree with one change at a random place.
RoseP<T> altered(Src &s, const RoseP<T> &r) {
  auto kids = r->kids;
  const size_t k = s.draw(kids.size() + 2);
  if (k < kids.size() && s.draw(3) != 0) {
    kids[k] = altered(s, kids[k]);
    return rose<T>(r->v, kids);
  }
  switch (s.draw(3)) {
  case 0: kids.push_back(rose<T>(val(s.draw(30)))); return rose<T>(r->v, kids);
  case 1:
    if (!kids.empty()) {
      kids.erase(kids.begin() + long(s.below(kids.size())));
      return rose<T>(r->v, kids);
    }
    break;
  case 2:
    if (kids.size() > 1) {
      std::swap(kids[0], kids[1 + s.below(kids.size() - 1)]);
      return rose<T>(r->v, kids);
    }
    break;
  default:;
  }
  return rose<T>(r->v + "'", kids);
}
} // namespace

FACET(trees, 6) {
  const Tree t = anyTree(s, int(s.draw(4)));
  REQ(t.desc.find("BAD FILTER") == T::npos, "filter keeps a tree exactly when its root satisfies the predicate: ", t.desc);
  const auto copy = t.sh;
  int budget = c.thorough() ? 600 : 200;
  auto d = lazyDiff<T>(t.sh, t.ref, budget);
  REQ(d.empty(), d, " of ", t.desc, "; expected ", lazyStr<T>(t.ref));
  budget = 60;
  d = lazyDiff<T>(copy, t.ref, budget);
  REQ(d.empty(), "after a first visit ", d, " of ", t.desc);
  c.nontrivial(t.desc.find('(') != T::npos && t.ref.kids().size() > 1);
  if (c.wantSample())
    c.sample(cat(t.desc, " = ", lazyStr<T>(t.ref).substr(0, 120)));
}

FACET(minimum, 3) {
  const Tree t = anyTree(s, int(s.draw(3)));
  const uint64_t salt = s.draw(1000);
  const unsigned den = unsigned(1 + s.draw(3));
  const auto pred = [&](const T &x) { return den == 1 || hash64(salt, hashStr(x)) % den != 0; };
  Lazy<T> best = t.ref;
  size_t accepted = 0;
  std::vector<Lazy<T>> kids = best.kids();
  for (size_t i = 0; i < kids.size();)
    if (pred(kids[i].v)) {
      accepted++;
      best = kids[i];
      kids = best.kids();
      i = 0;
    } else
      i++;
  const auto got = shrinkable::findLocalMin(t.sh, pred);
  REQ(got.first == best.v, "the minimum of ", t.desc, " is ", got.first, " instead of ", best.v);
  REQ_EQ(got.second, accepted, "accepted values on the way to the minimum of ", t.desc);
  std::vector<T> imm, want;
  for (auto &k : t.ref.kids())
    want.push_back(k.v);
  auto seq = shrinkable::immediateShrinks(t.sh);
  while (auto x = seq.next())
    imm.push_back(*x);
  REQ(imm == want, imm.size(), " immediate shrinks instead of ", want.size(), " or different ones: ", t.desc);
  c.nontrivial(accepted > 1);
}

FACET(paths, 3) {
  const Tree t = anyTree(s, int(s.draw(3)));
  std::vector<size_t> path;
  Lazy<T> cur = t.ref;
  bool valid = true;
  const size_t n = s.draw(6);
  for (size_t i = 0; i < n; i++) {
    const auto kids = cur.kids();
    const bool bad = valid && s.draw(5) == 0;
    if (kids.empty() && !bad)
      break;
    size_t k = bad ? kids.size() + (s.flag() ? 0 : s.draw(3) == 0 ? size_t(s.anyBits() >> 40) : s.draw(4)) : s.below(kids.size());
    path.push_back(k);
    if (bad) {
      valid = false;
      // More steps after the invalid one, including ones that would be valid.
      for (size_t j = 0, m = s.draw(2); j < m; j++)
        path.push_back(s.draw(3));
      break;
    }
    cur = kids[k];
  }
  const auto got = shrinkable::walkPath(t.sh, path);
  REQ_EQ(bool(got), valid, "walking ", listStr(path), " in ", t.desc);
  if (valid) {
    int budget = 60;
    const auto d = lazyDiff<T>(*got, cur, budget);
    REQ(d.empty(), "after walking ", listStr(path), " in ", t.desc, ": ", d);
  }
  int budget = 40;
  const auto d = lazyDiff<T>(t.sh, t.ref, budget);
  REQ(d.empty(), "walking changed the tree: ", d);
  c.nontrivial(path.size() > 1);
  c.label(valid ? "valid" : "invalid");
}

FACET(whole, 3) {
  const Tree t = anyTree(s, int(s.draw(3)));
  std::vector<T> all;
  if (!nodes(t.ref, all, 400))
    return;
  const auto r = written(t.ref);
  // Equality.
  const auto same = toShrinkable<T>(r);
  REQ(t.sh == same && same == t.sh && !(t.sh != same), "a tree differs from the same tree written out: ", t.desc);
  const auto other = altered(s, r);
  const bool eq = roseEq<T>(r, other);
  const auto o = toShrinkable<T>(other);
  REQ_EQ(t.sh == o, eq, t.desc, " compared with ", roseStr<T>(other));
  REQ_EQ(o == t.sh, eq, roseStr<T>(other), " compared with ", t.desc);
  REQ_EQ(t.sh != o, !eq, t.desc, " compared with ", roseStr<T>(other));
  // Every node is visited once, each with its own subtree.
  std::vector<T> seen;
  size_t kids = 0;
  REQ(shrinkable::all(t.sh, [&](const Shrinkable<T> &x) {
    seen.push_back(x.value());
    auto q = x.shrinks();
    while (q.next())
      kids++;
    return true;
  }), "a predicate that always holds does not hold for all nodes of ", t.desc);
  REQ(seen == all, seen.size(), " nodes visited instead of ", all.size(), " or in a different order: ", t.desc);
  REQ_EQ(kids, all.size() - 1, "shrinks of all visited nodes of ", t.desc);
  // One node that fails decides.
  const T bad = s.pick(all);
  size_t visits = 0, first = 0;
  while (all[first] != bad)
    first++;
  REQ(!shrinkable::all(t.sh, [&](const Shrinkable<T> &x) { visits++; return x.value() != bad; }), "a predicate that fails for ", bad, " holds for all nodes of ", t.desc);
  REQ(visits >= first + 1, "only ", visits, " visits before the failing node ", first, " of ", t.desc);
  REQ(shrinkable::all(t.sh, [&](const Shrinkable<T> &x) { return x.value() != "absent"; }), "a predicate that holds for every value fails for ", t.desc);
  c.nontrivial(all.size() > 5);
}

// Pairs of different types, and move-only inputs to the constructors.
FACET(pairs, 2) {
  int ba = int(s.draw(12)), bb = int(s.draw(12));
  const auto a = genRose(s, [&](int) { return int(s.draw(30)); }, ba);
  const auto b = genRose(s, [&](int) { return val(s.draw(30)); }, bb);
  const auto p = shrinkable::pair(toShrinkable<int>(a), toShrinkable<T>(b));
  int budget = 300;
  const auto ref = lazyPair<int, T>(lazy<int>(a), lazy<T>(b));
  const auto d = lazyDiff<std::pair<int, T>>(p, ref, budget);
  REQ(d.empty(), d, " of the pair of ", roseStr<int>(a), " and ", roseStr<T>(b));
  // Shrinks of a pair change exactly one side.
  const std::function<bool(const int &)> even = [](const int &x) { return x % 2 == 0; };
  const auto f = shrinkable::filter(toShrinkable<int>(a), [](int x) { return x % 2 == 0; });
  REQ_EQ(bool(f), even(a->v), "filter of ", roseStr<int>(a));
  if (f) {
    budget = 200;
    const auto e = lazyDiff<int>(*f, lazyFilter<int>(lazy<int>(a), even), budget);
    REQ(e.empty(), "filtered ", roseStr<int>(a), ": ", e);
  }
  // Sequences of shrinks copied part way.
  auto q = p.shrinks();
  const auto kids = ref.kids();
  const size_t at = s.draw(kids.size());
  for (size_t i = 0; i < at; i++)
    q.next();
  auto q2 = q;
  for (size_t i = at; i < kids.size(); i++) {
    const auto x = q.next();
    REQ(x && x->value() == kids[i].v, "shrink ", i, " of the pair");
  }
  REQ(!q.next(), "extra shrinks of the pair");
  for (size_t i = at; i < kids.size(); i++) {
    const auto x = q2.next();
    REQ(x && x->value() == kids[i].v, "shrink ", i, " of the pair from a copied sequence");
  }
  REQ(!q2.next(), "extra shrinks of the pair from a copied sequence");
  c.nontrivial(!a->kids.empty() && !b->kids.empty());
}

// Long chains: as deep as shrinking of a large number gets.
FACET(deep, 1) {
  const size_t depth = s.draw(s.flag() ? 60 : 700);
  const uint64_t salt = s.draw(1000);
  const int wide = int(1 + s.draw(2));
  const auto below = [=](int64_t x) {
    std::vector<int64_t> out;
    for (int i = 1; i <= wide; i++)
      if (x - i * (1 + int64_t(hash64(salt, uint64_t(x)) % 2)) >= 0)
        out.push_back(x - i * (1 + int64_t(hash64(salt, uint64_t(x)) % 2)));
    return out;
  };
  auto sh = shrinkable::shrinkRecur(int64_t(depth), [=](int64_t x) { return seq::fromContainer(below(x)); });
  const int kind = int(s.draw(3));
  std::function<std::vector<int64_t>(int64_t)> ref = below;
  if (kind == 1)
    sh = shrinkable::map(shrinkable::map(sh, [](int64_t x) { return x + 5; }), [](int64_t x) { return x - 5; });
  if (kind == 2) {
    auto kept = shrinkable::filter(sh, [depth](int64_t x) { return x % 7 != 3 || x == int64_t(depth); });
    REQ(bool(kept), "a tree whose root satisfies the predicate is filtered out");
    sh = std::move(*kept);
    ref = [=](int64_t x) {
      auto v = below(x);
      v.erase(std::remove_if(v.begin(), v.end(), [](int64_t y) { return y % 7 == 3; }), v.end());
      return v;
    };
  }
  int64_t cur = sh.value();
  const int64_t top = cur;
  std::vector<size_t> path;
  bool valid = true;
  const size_t stop = s.flag() ? depth + 10 : s.draw(depth);
  while (path.size() < stop) {
    const auto kids = ref(cur);
    if (kids.empty()) {
      if (path.size() > 0 && s.draw(3) == 0) {
        path.push_back(s.draw(2));
        valid = false;
      }
      break;
    }
    const size_t k = hash64(salt + 1, path.size()) % kids.size();
    path.push_back(k);
    cur = kids[k];
  }
  const auto got = shrinkable::walkPath(sh, path);
  REQ_EQ(bool(got), valid, "walking ", path.size(), " steps down from ", top);
  if (valid) {
    REQ_EQ(got->value(), cur, "after walking ", path.size(), " steps down from ", top);
    const auto kids = ref(cur);
    auto q = got->shrinks();
    for (auto k : kids) {
      auto x = q.next();
      REQ(x && x->value() == k, "shrinks ", path.size(), " steps down from ", top);
    }
    REQ(!q.next(), "extra shrinks ", path.size(), " steps down from ", top);
  }
  // The way of the greedy search.
  const auto pred = [&](int64_t x) { return hash64(salt + 2, uint64_t(x)) % 9 != 0; };
  int64_t best = top;
  size_t accepted = 0;
  for (bool more = true; more;) {
    more = false;
    for (auto k : ref(best))
      if (pred(k)) {
        best = k;
        accepted++;
        more = true;
        break;
      }
  }
  const auto min = shrinkable::findLocalMin(sh, pred);
  REQ_EQ(min.first, best, "the minimum below ", top);
  REQ_EQ(min.second, accepted, "accepted values on the way from ", top);
  c.nontrivial(path.size() > 100);
}
