// C17: selection generators pick only offered items with the promised weights.
#include "rose.h"
#include <algorithm>
#include <cmath>
#include <deque>
#include <list>
#include <map>
#include <set>
using namespace pbt;
using namespace rc;
using namespace rcx;

namespace {
double kl(double q, double p) {
  double r = 0;
  if (q > 0)
    r += q * std::log(q / p);
  if (q < 1)
    r += (1 - q) * std::log((1 - q) / (1 - p));
  return r;
}
// Observed counts must be plausible under the expected probabilities.
// Chernoff: P(N * KL(observed, p) > 34) < e^-34 per item.
void checkFreq(Ctx &c, const std::map<int, int> &seen, const std::map<int, double> &p, int n, const std::string &what) {
  for (auto &x : seen)
    REQ(p.count(x.first) && p.at(x.first) > 0, "item ", x.first, " was never offered, or has weight zero, in ", what);
  for (auto &x : p) {
    const auto it = seen.find(x.first);
    const int k = it == seen.end() ? 0 : it->second;
    if (x.second <= 0 || x.second >= 1) {
      REQ_EQ(k, x.second >= 1 ? n : 0, "item ", x.first, " in ", what);
      continue;
    }
    REQ(n * kl(double(k) / n, x.second) < 34, "item ", x.first, " occurred ", k, " times of ", n, " instead of about ", x.second * n, " in ", what);
  }
}
size_t anyWeight(Src &s) {
  switch (s.draw(5)) {
  case 0: return 0;
  case 1: return 1;
  case 2: return s.draw(1000);
  case 3: return s.draw(uint64_t(1) << 40);
  default: return s.draw(6);
  }
}
std::vector<size_t> anyWeights(Src &s, size_t n) {
  std::vector<size_t> w;
  const bool small = s.flag();
  for (size_t i = 0; i < n; i++)
    w.push_back(small ? s.draw(4) : anyWeight(s));
  return w;
}
template <typename T, typename F> Gen<T> weighted(const std::vector<size_t> &w, const std::vector<T> &v, F f) {
  using P = std::pair<std::size_t, T>;
  switch (w.size()) {
  case 1: return f({P(w[0], v[0])});
  case 2: return f({P(w[0], v[0]), P(w[1], v[1])});
  case 3: return f({P(w[0], v[0]), P(w[1], v[1]), P(w[2], v[2])});
  case 4: return f({P(w[0], v[0]), P(w[1], v[1]), P(w[2], v[2]), P(w[3], v[3])});
  default: return f({P(w[0], v[0]), P(w[1], v[1]), P(w[2], v[2]), P(w[3], v[3]), P(w[4], v[4]), P(w[5], v[5])});
  }
}
size_t listLen(Src &s) { return s.oneOf<size_t>({1, 2, 3, 4, 6}); }
std::map<int, double> probs(const std::vector<size_t> &w, const std::vector<int> &v) {
  double sum = 0;
  for (auto x : w)
    sum += double(x);
  std::map<int, double> p;
  for (size_t i = 0; i < w.size(); i++)
    p[v[i]] += sum > 0 ? double(w[i]) / sum : 0;
  for (auto &x : p)
    if (x.second > 1 - 1e-12)
      x.second = 1;
  return p;
}
template <typename G> std::map<int, int> sample(const G &g, Random r, int size, int n) {
  std::map<int, int> seen;
  for (int i = 0; i < n; i++)
    seen[int(g(r.split(), size).value())]++;
  return seen;
}
template <typename T> bool failsAlways(const Gen<T> &g, Src &s) {
  for (int i = 0; i < 3; i++)
    try {
      g(anyRandom(s), anySize(s)).value();
      return false;
    } catch (const GenerationFailure &) {
    }
  return true;
}
int draws(const Ctx &c) { return c.thorough() ? 6000 : 1500; }

// A generator of tagged explicit trees that records its calls.
struct Call { int tag; Random random; int size; RoseP<int> tree; };
struct Tagged {
  int tag;
  std::vector<RoseP<int>> trees;
  std::shared_ptr<std::vector<Call>> calls;
  Gen<int> gen() const {
    const Tagged me = *this;
    return Gen<int>([me](const Random &random, int size) {
      Random r(random);
      const auto t = me.trees[r.next() % me.trees.size()];
      me.calls->push_back(Call{me.tag, random, size, t});
      return toShrinkable<int>(t);
    });
  }
};
std::vector<Tagged> anyTagged(Src &s, size_t n) {
  std::vector<Tagged> out;
  auto calls = std::make_shared<std::vector<Call>>();
  for (size_t i = 0; i < n; i++) {
    Tagged t{int(i), {}, calls};
    for (size_t k = 0, m = 1 + s.draw(2); k < m; k++) {
      int budget = int(s.draw(8));
      t.trees.push_back(genRose(s, [&](int) { return int(i * 1000 + s.draw(99)); }, budget));
    }
    out.push_back(t);
  }
  return out;
}
// The result is exactly the tree of the one generator that was called.
int checkChosen(Ctx &c, const std::vector<Call> &calls, const Shrinkable<int> &sh, int size, const std::string &what) {
  int budget = 2000;
  const auto all = fromShrinkable<int>(sh, budget);
  REQ(!calls.empty(), "no generator was called in ", what);
  const auto first = calls[0];
  for (auto &x : calls) {
    REQ(x.tag == first.tag && x.random == first.random, "several generators were called in ", what);
    REQ(x.size == size, "called at size ", x.size, " in ", what);
  }
  REQ(roseEq<int>(all, first.tree), roseStr<int>(all), " instead of ", roseStr<int>(first.tree), " in ", what);
  return first.tag;
}
} // namespace

FACET(elementOf, 3) {
  const size_t n = s.draw(3) == 0 ? s.draw(60) : s.draw(6);
  std::vector<int> v;
  for (size_t i = 0; i < n; i++)
    v.push_back(int(s.draw(s.flag() ? 3 : 1000)));
  const int form = int(s.draw(6));
  const auto make = [&]() -> Gen<int> {
    switch (form) {
    case 0: return gen::elementOf(v);
    case 1: return gen::elementOf(std::list<int>(v.begin(), v.end()));
    case 2: return gen::elementOf(std::deque<int>(v.begin(), v.end()));
    case 3: return gen::elementOf(std::vector<int>(v));
    case 4: { const std::vector<int> cv = v; return gen::elementOf(cv); }
    case 5: return gen::cast<int>(gen::elementOf(std::wstring(v.begin(), v.end())));
    default: { const std::multiset<int> ms(v.begin(), v.end()); return gen::elementOf(ms); }
    }
  };
  const auto g = make();
  const std::string what = cat("elementOf form ", form, " of ", listStr(v));
  if (n == 0) {
    REQ(failsAlways(g, s), "value from an empty container");
    c.label("empty");
    return;
  }
  const int size = anySize(s);
  randomWalk(s, g(anyRandom(s), size), 5, 5, [&](const Shrinkable<int> &x, int) {
    REQ(std::find(v.begin(), v.end(), x.value()) != v.end(), x.value(), " is not in ", what);
  });
  if (s.draw(19) == 0 || c.thorough()) {
    const auto seen = sample(g, anyRandom(s), size, draws(c));
    checkFreq(c, seen, probs(std::vector<size_t>(n, 1), v), draws(c), what);
    c.nontrivial(std::set<int>(v.begin(), v.end()).size() > 1);
    c.sample(what);
  }
}

// Large containers: every region is chosen with its fair share.
FACET(large, 1) {
  const size_t n = 100 + (s.draw(2) ? s.draw(3000) : s.draw(300000));
  std::vector<int> v(n);
  for (size_t i = 0; i < n; i++)
    v[i] = int(i);
  const size_t parts = 2 + s.draw(14);
  const bool sized = s.draw(3) == 0;
  const int size = sized ? 100 + int(s.draw(1000)) : anySize(s);
  const auto g = sized ? gen::sizedElementOf(v) : gen::elementOf(v);
  const int k = draws(c);
  Random r = anyRandom(s);
  std::map<int, int> seen;
  std::map<int, double> p;
  size_t odd = 0;
  for (int i = 0; i < k; i++) {
    const auto x = g(r.split(), size).value();
    REQ(x >= 0 && size_t(x) < n, x, " is not one of the ", n, " elements");
    seen[int(uint64_t(x) * parts / n)]++;
    odd += x & 1;
  }
  for (size_t i = 0; i < parts; i++) { // elements x with x * parts / n == i
    const uint64_t lo = (i * n + parts - 1) / parts, hi = ((i + 1) * n + parts - 1) / parts;
    p[int(i)] = double(hi - lo) / double(n);
  }
  const std::string what = cat(sized ? "sizedElementOf " : "elementOf ", n, " elements in ", parts, " parts, size ", size);
  checkFreq(c, seen, p, k, what);
  checkFreq(c, {{0, k - int(odd)}, {1, int(odd)}}, {{0, double((n + 1) / 2) / double(n)}, {1, double(n / 2) / double(n)}}, k, what + " by parity");
  c.nontrivial();
  c.sample(what);
}

FACET(element, 1) {
  std::vector<int> v;
  for (int i = 0; i < 4; i++)
    v.push_back(int(s.draw(5)));
  const size_t n = 1 + s.draw(3);
  const auto g = n == 1 ? gen::element(v[0]) : n == 2 ? gen::element(v[0], v[1]) : n == 3 ? gen::element(v[0], v[1], v[2]) : gen::element(v[0], v[1], v[2], v[3]);
  v.resize(n);
  const int k = draws(c);
  const auto seen = sample(g, anyRandom(s), anySize(s), k);
  checkFreq(c, seen, probs(std::vector<size_t>(n, 1), v), k, cat("element ", listStr(v)));
  c.nontrivial(n > 1);
}

FACET(weightedElement, 3) {
  const size_t n = listLen(s);
  const auto w = anyWeights(s, n);
  std::vector<int> v;
  for (size_t i = 0; i < n; i++)
    v.push_back(int(s.draw(3) == 0 ? s.draw(5) : i * 10));
  const auto g = weighted<int>(w, v, [](std::initializer_list<std::pair<std::size_t, int>> l) { return gen::weightedElement<int>(l); });
  const std::string what = cat("weightedElement ", listStr(w), " ", listStr(v));
  size_t sum = 0;
  for (auto x : w)
    sum += x;
  if (sum == 0) {
    REQ(failsAlways(g, s), "value with all weights zero");
    return;
  }
  const int size = anySize(s), k = draws(c);
  const auto seen = sample(g, anyRandom(s), size, k);
  checkFreq(c, seen, probs(w, v), k, what);
  int positive = 0;
  for (auto x : w)
    positive += x > 0;
  c.nontrivial(positive > 1);
  c.sample(what);
}

FACET(sizedElement, 4) {
  const size_t n = s.draw(3) == 0 ? s.draw(200) : s.draw(8);
  std::vector<int> v;
  for (size_t i = 0; i < n; i++)
    v.push_back(int(1000 + i)); // the value reveals the index
  const int form = int(s.draw(3));
  const Gen<int> g = form == 0 ? gen::sizedElementOf(v) : form == 1 ? gen::sizedElementOf(std::deque<int>(v.begin(), v.end()))
      : form == 2 ? gen::sizedElementOf(std::set<int>(v.begin(), v.end()))
                  : n == 4 ? gen::sizedElement(v[0], v[1], v[2], v[3]) : gen::sizedElementOf(std::vector<int>(v));
  if (n == 0) {
    REQ(failsAlways(g, s), "value from an empty container");
    return;
  }
  const int size = s.draw(4) == 0 ? int(s.draw(2147483647)) : anySize(s);
  const std::string what = cat("sizedElementOf ", n, " at size ", size);
  const size_t surely = (n - 1) * size_t(std::min(size, 100)) / 100, limit = ((n - 1) * size_t(std::min(size, 100)) + 99) / 100;
  Random random = anyRandom(s);
  const auto sh = g(random.split(), size);
  int steps = 0;
  randomWalk(s, sh, 10, 6, [&](const Shrinkable<int> &x, int) {
    const int i = x.value() - 1000;
    REQ(i >= 0 && size_t(i) <= limit, "index ", i, " in ", what);
    auto seq = x.shrinks();
    int cnt = 0;
    while (auto k = seq.next()) {
      REQ(k->value() < x.value(), "index ", k->value() - 1000, " is not before ", i, " in ", what);
      REQ(++cnt < 70, "too many shrinks");
    }
    REQ(i == 0 || cnt > 0, "index ", i, " has no shrinks in ", what);
  });
  const int t = 1000 + int(s.draw(uint64_t(sh.value() - 1000)));
  REQ_EQ(greedy(sh, [&](const Shrinkable<int> &x) { return x.value() >= t; }, steps, 100000).value(), t, "greedy minimum in ", what);
  if (surely < 12 && (s.draw(3) == 0 || c.thorough())) {
    const int k = int(surely + 2) * 60;
    const auto seen = sample(g, random, size, k);
    for (size_t i = 0; i <= surely; i++)
      REQ(seen.count(int(1000 + i)), "index ", i, " never occurs in ", k, " draws of ", what);
    for (auto &x : seen)
      REQ(size_t(x.first - 1000) <= limit, "index ", x.first - 1000, " in ", what);
  }
  c.nontrivial(sh.value() > 1001);
  c.sample(what);
}

FACET(oneOf, 4) {
  const size_t n = 1 + s.draw(3);
  const auto t = anyTagged(s, n);
  const Gen<int> g = n == 1 ? gen::oneOf(t[0].gen()) : n == 2 ? gen::oneOf(t[0].gen(), t[1].gen())
      : n == 3 ? gen::oneOf(t[0].gen(), t[1].gen(), t[2].gen()) : gen::oneOf(t[0].gen(), t[1].gen(), t[2].gen(), t[3].gen());
  const int size = anySize(s);
  const std::string what = cat("oneOf ", n, " size ", size);
  const auto sh = g(anyRandom(s), size);
  checkChosen(c, *t[0].calls, sh, size, what);
  c.nontrivial(t[0].calls->back().tree->kids.size() > 0);
  if (s.draw(9) == 0) {
    const int k = draws(c);
    std::map<int, int> seen;
    Random r = anyRandom(s);
    for (int i = 0; i < k; i++) {
      seen[g(r.split(), size).value() / 1000]++;
      t[0].calls->clear();
    }
    std::vector<int> v;
    for (size_t i = 0; i < n; i++)
      v.push_back(int(i));
    checkFreq(c, seen, probs(std::vector<size_t>(n, 1), v), k, what);
  }
}

FACET(weightedOneOf, 4) {
  const size_t n = listLen(s);
  const auto t = anyTagged(s, n);
  const auto w = anyWeights(s, n);
  std::vector<Gen<int>> gs;
  std::vector<int> v;
  size_t sum = 0;
  for (size_t i = 0; i < n; i++) {
    gs.push_back(t[i].gen());
    v.push_back(int(i));
    sum += w[i];
  }
  using P = std::pair<std::size_t, Gen<int>>;
  const auto one = [](std::initializer_list<P> l) { return gen::weightedOneOf<int>(l); };
  const Gen<int> g = n == 1 ? one({P(w[0], gs[0])}) : n == 2 ? one({P(w[0], gs[0]), P(w[1], gs[1])})
      : n == 3 ? one({P(w[0], gs[0]), P(w[1], gs[1]), P(w[2], gs[2])})
      : n == 4 ? one({P(w[0], gs[0]), P(w[1], gs[1]), P(w[2], gs[2]), P(w[3], gs[3])})
               : one({P(w[0], gs[0]), P(w[1], gs[1]), P(w[2], gs[2]), P(w[3], gs[3]), P(w[4], gs[4]), P(w[5], gs[5])});
  const int size = anySize(s);
  const std::string what = cat("weightedOneOf ", listStr(w), " size ", size);
  if (sum == 0) {
    REQ(failsAlways(g, s), "value with all weights zero");
    return;
  }
  const auto sh = g(anyRandom(s), size);
  const int tag = checkChosen(c, *t[0].calls, sh, size, what);
  REQ(w[size_t(tag)] > 0, "generator ", tag, " of weight zero in ", what);
  c.nontrivial(t[0].calls->back().tree->kids.size() > 0 && n > 1);
  if (s.draw(9) == 0) {
    const int k = draws(c);
    std::map<int, int> seen;
    Random r = anyRandom(s);
    for (int i = 0; i < k; i++) {
      seen[g(r.split(), size).value() / 1000]++;
      t[0].calls->clear();
    }
    checkFreq(c, seen, probs(w, v), k, what);
  }
  c.sample(what);
}

FACET(sizedOneOf, 3) {
  const size_t n = 1 + s.draw(3);
  const auto t = anyTagged(s, n);
  const Gen<int> g = n == 1 ? gen::sizedOneOf(t[0].gen()) : n == 2 ? gen::sizedOneOf(t[0].gen(), t[1].gen())
      : n == 3 ? gen::sizedOneOf(t[0].gen(), t[1].gen(), t[2].gen()) : gen::sizedOneOf(t[0].gen(), t[1].gen(), t[2].gen(), t[3].gen());
  const int size = anySize(s);
  const std::string what = cat("sizedOneOf ", n, " size ", size);
  const int limit = int(((n - 1) * size_t(std::min(size, 100)) + 99) / 100);
  const auto sh = g(anyRandom(s), size);
  const int v = sh.value();
  const int tag = v / 1000;
  REQ(tag <= limit, "generator ", tag, " used in ", what);
  RoseP<int> tree;
  for (auto &x : *t[0].calls)
    if (x.tag == tag)
      tree = x.tree;
  REQ(tree && tree->v == v, v, " was not generated in ", what);
  // Earlier generators may come first, then exactly the chosen tree's shrinks.
  int budget = 3000;
  const auto all = fromShrinkable<int>(sh, budget);
  REQ(all->kids.size() >= tree->kids.size(), "shrinks lost in ", what);
  const size_t lead = all->kids.size() - tree->kids.size();
  for (size_t i = 0; i < lead; i++)
    REQ(all->kids[i]->v / 1000 < tag, "leading shrink ", all->kids[i]->v, " of ", v, " in ", what);
  for (size_t i = 0; i < tree->kids.size(); i++)
    REQ(roseEq<int>(all->kids[lead + i], tree->kids[i]), "shrink ", i, " differs in ", what);
  std::set<int> offered;
  std::function<void(const RoseP<int> &)> add = [&](const RoseP<int> &r) {
    offered.insert(r->v);
    for (auto &k : r->kids)
      add(k);
  };
  for (auto &x : *t[0].calls) {
    REQ(x.size == size, "called at size ", x.size, " in ", what);
    add(x.tree);
  }
  std::function<void(const RoseP<int> &)> chk = [&](const RoseP<int> &r) {
    REQ(offered.count(r->v), r->v, " comes from no generator in ", what);
    for (auto &k : r->kids) {
      REQ(k->v / 1000 <= r->v / 1000, "shrinks to a later generator in ", what);
      chk(k);
    }
  };
  chk(all);
  c.nontrivial(tag > 0 && !tree->kids.empty());
}

namespace {
// A tree of choices. Every leaf has its own number and its probability.
struct Nested {
  Src &s;
  std::map<int, double> p;
  std::string text;
  int next = 0;
  Gen<int> leaf(double prob) {
    const int m = 1 + int(s.draw(3)), base = next;
    next += m;
    const int kind = int(s.draw(3));
    text += cat("#", base, "*", m, "/", kind);
    std::vector<int> v;
    for (int i = 0; i < m; i++) {
      p[base + i] = prob / m;
      v.push_back(base + i);
    }
    switch (kind) {
    case 0: return gen::elementOf(v);
    case 1: return gen::sizedElementOf(v);
    case 2: return [=](const Random &random, int) { return shrinkable::just(base + int(Random(random).next() % uint64_t(m))); };
    default: return m == 1 ? gen::weightedElement<int>({{1, base}}) : m == 2 ? gen::weightedElement<int>({{3, base}, {3, base + 1}})
        : m == 3 ? gen::weightedElement<int>({{1, base}, {1, base + 1}, {1, base + 2}})
                 : gen::weightedElement<int>({{2, base}, {2, base + 1}, {2, base + 2}, {2, base + 3}});
    }
  }
  Gen<int> node(int depth, double prob) {
    if (depth == 0)
      return leaf(prob);
    const int kind = int(s.draw(2));
    const size_t n = 2 + s.draw(1);
    size_t w[3] = {1, 1, 1}, sum = 0;
    for (size_t i = 0; i < n; i++) {
      if (kind == 1)
        w[i] = s.oneOf<size_t>({1, 1, 2, 4});
      sum += w[i];
    }
    text += cat(kind == 0 ? "oneOf(" : kind == 1 ? "weightedOneOf(" : "sizedOneOf(");
    std::vector<Gen<int>> g;
    for (size_t i = 0; i < n; i++) {
      text += cat(i ? ", " : "", w[i], ":");
      g.push_back(node(s.draw(3) == 0 ? 0 : depth - 1, prob * double(w[i]) / double(sum)));
    }
    text += ")";
    switch (kind) {
    case 0: return n == 2 ? gen::oneOf(g[0], g[1]) : gen::oneOf(g[0], g[1], g[2]);
    case 1: return n == 2 ? gen::weightedOneOf<int>({{w[0], g[0]}, {w[1], g[1]}}) : gen::weightedOneOf<int>({{w[0], g[0]}, {w[1], g[1]}, {w[2], g[2]}});
    default: return n == 2 ? gen::sizedOneOf(g[0], g[1]) : gen::sizedOneOf(g[0], g[1], g[2]);
    }
  }
};
} // namespace

// Choices within choices: the frequencies multiply, so the choices are independent of each other.
FACET(nested, 2) {
  Nested t{s, {}, {}, 0};
  const auto g = t.node(1 + int(s.draw(1)), 1);
  for (auto &x : t.p)
    if (x.second > 1 - 1e-12)
      x.second = 1;
  const int size = kNominalSize + int(s.draw(50)), k = draws(c);
  checkFreq(c, sample(g, anyRandom(s), size, k), t.p, k, t.text);
  c.nontrivial(t.p.size() > 3);
  c.sample(t.text);
}
