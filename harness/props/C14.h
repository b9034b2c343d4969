#pragma once
// C14: generated containers have the promised length and elements at every shrink.
#include "rcx.h"
#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>
using namespace pbt;
using namespace rc;
using namespace rcx;

namespace {
// An element generator with a known shrink relation. Values are base + [0, d).
struct Elem {
  int base, d, kind;
  bool sized;
  std::vector<int> shrinks(int v) const {
    std::vector<int> out;
    const int o = v - base;
    if (o <= 0 || kind == 0)
      return out;
    if (kind == 1) {
      for (int diff = o; diff > 0; diff /= 2)
        out.push_back(base + o - diff);
    } else {
      out.push_back(base + o / 3);
      if (o - 1 != o / 3)
        out.push_back(base + o - 1);
    }
    return out;
  }
  bool can(int v, int size) const { return v >= base && v < base + limit(size); }
  int limit(int size) const { return sized ? std::min(d, size + 1) : d; }
  Gen<int> gen() const {
    const Elem e = *this;
    return Gen<int>([e](const Random &random, int size) {
      Random r(random);
      const int v = e.base + int(r.next() % uint64_t(e.limit(size)));
      return shrinkable::shrinkRecur(v, [e](int x) { return seq::fromContainer(e.shrinks(x)); });
    });
  }
};
Elem anyElem(Src &s, int base) {
  static const int ds[] = {1, 2, 3, 5, 10, 40, 1000};
  return Elem{base, ds[s.draw(6)], int(s.oneOf({1, 1, 2, 0})), s.draw(3) == 0};
}

// Normal form: (key, value) pairs; value 0 where there is none.
using Item = std::pair<int, int>;
using Items = std::vector<Item>;
Item item(int x) { return Item{x, 0}; }
Item item(const std::unique_ptr<int> &x) { return Item{*x, 0}; }
Item item(wchar_t x) { return Item{int(x), 0}; }
template <typename K, typename V> Item item(const std::pair<K, V> &p) { return Item{item(p.first).first, item(p.second).first}; }
template <typename C> Items items(const C &c, bool ordered) {
  Items out;
  for (const auto &x : c)
    out.push_back(item(x));
  if (!ordered)
    std::sort(out.begin(), out.end());
  return out;
}
std::string show(const Items &v) {
  std::string out = "[";
  for (auto &x : v)
    out += cat(x.first, x.second ? cat(":", x.second) : "", " ");
  return out + "]";
}

// What a container type is supposed to do.
struct Kind {
  const char *name;
  bool ordered;    // iteration order is the element order
  bool map;        // holds pairs
  int uniq;        // 0 no, otherwise keys unique modulo this number (1e9: plain)
};

struct Model {
  Kind k;
  Elem e, v;
  int size;
  bool fixed;
  size_t count;
  int keyClass(int key) const { return key % k.uniq; }

  std::string valid(const Items &x) const {
    if (fixed ? x.size() != count : x.size() > size_t(size))
      return cat("length ", x.size());
    std::set<int> seen;
    for (auto &i : x) {
      // Keyed containers retry with a growing size, others do not.
      const int sz = k.uniq ? 1 << 20 : size;
      if (!e.can(i.first, sz))
        return cat("element ", i.first, " is not from the generator");
      if (k.map && !v.can(i.second, size))
        return cat("value ", i.second, " is not from the generator");
      if (k.uniq && !seen.insert(keyClass(i.first)).second)
        return cat("key ", i.first, " is a duplicate");
    }
    return "";
  }
  bool itemShrink(const Item &a, const Item &b) const {
    const auto has = [](const std::vector<int> &l, int y) { return std::find(l.begin(), l.end(), y) != l.end(); };
    if (a.second == b.second && has(e.shrinks(a.first), b.first))
      return true;
    return k.map && a.first == b.first && has(v.shrinks(a.second), b.second);
  }
  // Is y one step simpler than x?
  std::string step(const Items &x, const Items &y) const {
    if (y.size() > x.size())
      return "grows";
    if (y.size() < x.size()) {
      if (k.ordered) { // subsequence
        size_t i = 0;
        for (auto &e : x)
          if (i < y.size() && y[i] == e)
            i++;
        return i == y.size() ? "" : "is not a removal";
      }
      return std::includes(x.begin(), x.end(), y.begin(), y.end()) ? "" : "is not a removal";
    }
    if (x == y)
      return "equals its parent";
    if (k.ordered) {
      int diff = 0;
      bool ok = true;
      for (size_t i = 0; i < x.size(); i++)
        if (x[i] != y[i]) {
          diff++;
          ok &= itemShrink(x[i], y[i]);
        }
      return diff == 1 && ok ? "" : "does not shrink exactly one element";
    }
    Items a, b;
    std::set_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(a));
    std::set_difference(y.begin(), y.end(), x.begin(), x.end(), std::back_inserter(b));
    return a.size() == 1 && b.size() == 1 && itemShrink(a[0], b[0]) ? "" : "does not shrink exactly one element";
  }
};

Model anyModel(Src &s, const Kind &k, bool mayFix = true) {
  Model m{k, anyElem(s, 1000), anyElem(s, 5000), 0, false, 0};
  m.size = s.draw(3) == 0 ? int(s.draw(60)) : int(s.draw(8));
  m.fixed = mayFix && s.draw(2) == 0;
  m.count = m.fixed ? (s.draw(5) == 0 ? s.draw(40) : s.draw(6)) : 0;
  return m;
}

template <typename C> void checkTree(Src &s, Ctx &c, const Model &m, const Shrinkable<C> &sh, const std::string &what) {
  int budget = 400;
  randomWalk(s, sh, 8, 8, [&](const Shrinkable<C> &n, int) {
    const Items x = items(n.value(), m.k.ordered);
    const auto bad = m.valid(x);
    REQ(bad.empty(), bad, ": ", show(x), " in ", what);
    auto seq = n.shrinks();
    size_t cnt = 0, removed = 0;
    bool sawEmpty = false;
    std::set<Items> others;
    while (budget-- > 0) {
      auto kid = seq.next();
      if (!kid) {
        if (!m.fixed) {
          REQ(x.empty() || sawEmpty, show(x), " has no empty shrink in ", what);
          REQ_EQ(removed, x.size() * (x.size() + 1) / 2, "removals of ", show(x), " in ", what);
        }
        // Each element's own shrinks are all proposed unless they collide.
        size_t expect = 0;
        for (size_t i = 0; i < x.size(); i++) {
          for (int y : m.e.shrinks(x[i].first)) {
            bool free = true;
            for (size_t j = 0; j < x.size(); j++)
              free &= !(m.k.uniq && m.keyClass(x[j].first) == m.keyClass(y));
            expect += free;
          }
          if (m.k.map)
            expect += m.v.shrinks(x[i].second).size();
        }
        REQ_EQ(cnt - removed, expect, "element shrinks of ", show(x), " in ", what);
        break;
      }
      const Items y = items(kid->value(), m.k.ordered);
      cnt++;
      removed += y.size() < x.size();
      sawEmpty |= y.empty();
      const auto badY = m.valid(y);
      REQ(badY.empty(), badY, ": ", show(y), " in ", what);
      const auto badStep = m.step(x, y);
      REQ(badStep.empty(), show(y), " ", badStep, ", shrink of ", show(x), " in ", what);
      c.nontrivial(x.size() > 1 && y.size() == x.size());
    }
  });
}

template <typename C, typename MakeGen> void check(Src &s, Ctx &c, const Model &m, MakeGen make) {
  const std::string what = cat(m.k.name, m.fixed ? cat(" of ", m.count) : "", " size ", m.size, " element ", m.e.base, "+", m.e.d,
                               m.e.sized ? " sized" : "", " shrink kind ", m.e.kind);
  c.label(cat(m.k.name, m.fixed ? " fixed" : ""));
  const Gen<C> g = make();
  const Random random = anyRandom(s);
  Maybe<Shrinkable<C>> got;
  try {
    auto sh = g(random, m.size);
    sh.value();
    got = sh;
  } catch (const GenerationFailure &) {
  }
  const size_t classes = size_t(std::min(m.e.d, m.k.uniq ? m.k.uniq : 1 << 30));
  if (!got) {
    // Only keyed containers can run out of elements.
    REQ(m.k.uniq != 0, "generation failed for ", what);
    REQ((m.fixed ? m.count : size_t(m.size)) * 4 > classes || m.e.sized, "generation failed for ", what);
    c.label("generation failed");
    return;
  }
  REQ(!m.k.uniq || !m.fixed || m.count <= classes, "yielded a value for ", what);
  checkTree<C>(s, c, m, *got, what);
  // Greedy shrinking.
  const auto full = items(got->value(), m.k.ordered);
  if (m.e.kind == 1) {
    if (!full.empty()) {
      const int t = full[s.below(full.size())].first - int(s.draw(3));
      const int thr = std::max(m.e.base, t);
      int steps = 0;
      const auto min = items(greedy(*got, [&](const Shrinkable<C> &x) {
                               for (auto &i : items(x.value(), false))
                                 if (i.first >= thr)
                                   return true;
                               return false;
                             }, steps, 300000).value(), m.k.ordered);
      if (steps >= 300000) {
        c.label("budget"); // cut off; nothing to judge
      } else if (!m.fixed) {
        REQ(min.size() == 1 && min[0].first == thr, "an element >= ", thr, " minimised to ", show(min), " from ", show(full), " in ", what);
      } else if (!m.k.uniq) {
        int atT = 0, atMin = 0;
        for (auto &i : min) {
          atT += i.first == thr;
          atMin += i.first == m.e.base;
        }
        REQ(thr == m.e.base ? atT == int(min.size()) : atT == 1 && atMin == int(min.size()) - 1,
            "an element >= ", thr, " minimised to ", show(min), " in ", what);
      }
    }
    if (!m.fixed && full.size() > 1 && (m.k.uniq == 0 || m.k.uniq >= 1000000)) {
      const size_t n = 1 + s.below(full.size());
      int steps = 0;
      const auto min = items(greedy(*got, [&](const Shrinkable<C> &x) { return items(x.value(), false).size() >= n; }, steps, 300000).value(), false);
      if (steps >= 300000)
        return; // cut off; nothing to judge
      REQ_EQ(min.size(), n, "length minimum from ", show(full), " in ", what);
      for (size_t i = 0; i < n; i++)
        REQ_EQ(min[i].first, m.e.base + (m.k.uniq ? int(i) : 0), "minimum ", show(min), " in ", what);
    }
  }
  c.sample(cat(what, ": ", show(full)));
}

template <typename C, typename G> void sequence(Src &s, Ctx &c, const Kind &k, G elem) {
  const Model m = anyModel(s, k);
  check<C>(s, c, m, [&] { return m.fixed ? gen::container<C>(m.count, elem(m.e)) : gen::container<C>(elem(m.e)); });
}
template <typename C> void mapping(Src &s, Ctx &c, const Kind &k) {
  const Model m = anyModel(s, k);
  check<C>(s, c, m, [&] { return m.fixed ? gen::container<C>(m.count, m.e.gen(), m.v.gen()) : gen::container<C>(m.e.gen(), m.v.gen()); });
}
struct ModLess { bool operator()(int a, int b) const { return a % 10 < b % 10; } };
struct ModHash { size_t operator()(int a) const { return size_t(a % 10); } };
struct ModEq { bool operator()(int a, int b) const { return a % 10 == b % 10; } };
struct BadHash { size_t operator()(int) const { return 7; } };
const int PLAIN = 1000000000;
auto ints = [](const Elem &e) { return e.gen(); };
} // namespace

