// C33: generators, trees and sequences are memory safe under any object
// lifetime, and holders of shared parts do not affect each other.
#include "C33_ops.h"
#include <thread>
#include <unordered_map>
#include <unordered_set>
using namespace pbt;
using namespace rc;

namespace c33 {
std::unordered_set<const void *> live;
std::string misuse;
int throwIn = 0;
unsigned thrown = 0;
bool faultArmed = false;

namespace {
template <typename H> std::string fpStr(const std::vector<int64_t> &f, const H &) { return listStr(f, 60); }

// The holder must still be what it was.
template <typename H> void verify(Ctx &c, Pool<H> &p, Slot<H> &x, const std::string &why) {
  if (x.state == GONE)
    return;
  const Fp now = print(*x.h);
  c.count(1);
  if (x.state == KNOWN && !(now == x.fp))
    c.fail(cat(p.kind, " ", x.desc, " changed after ", why, ": ", listStr(x.fp, 60), " is now ",
               listStr(now, 60)));
  if (x.state == UNKNOWN) {
    x.fp = now;
    x.state = KNOWN;
  }
}

// Copies, moves, assignments and destruction in one pool.
template <typename H> std::string lifetime(Src &s, Ctx &c, Pool<H> &p) {
  if (p.v.empty())
    return "nothing";
  const size_t i = s.below(p.v.size()), j = s.below(p.v.size());
  Slot<H> &x = p.v[i], &y = p.v[j];
  const auto take = [](Slot<H> &to, const Slot<H> &from) {
    to.fp = from.fp;
    to.state = from.state;
    to.cost = from.cost;
    to.desc = from.desc;
  };
  const std::string name = std::string(" ") + p.kind;
  try {
    switch (s.draw(7)) {
    case 0: {
      Slot<H> n;
      n.h.reset(new H(*x.h));
      take(n, x);
      p.v.push_back(std::move(n));
      return "copying a" + name;
    }
    case 1: {
      Slot<H> n;
      n.h.reset(new H(std::move(*x.h)));
      take(n, x);
      x.state = GONE;
      p.v.push_back(std::move(n));
      return "moving a" + name;
    }
    case 2:
      *x.h = static_cast<const H &>(*y.h);
      take(x, y);
      if (i == j)
        c.label("self copy");
      return "copy assigning a" + name + (i == j ? " to itself" : "");
    case 3:
    case 4:
      *x.h = std::move(*y.h);
      if (i == j) {
        c.label("self move");
        return "moving a" + name + " to itself";
      }
      take(x, y);
      y.state = GONE;
      return "move assigning a" + name;
    case 5:
      std::swap(*x.h, *y.h);
      std::swap(x.fp, y.fp);
      std::swap(x.state, y.state);
      std::swap(x.cost, y.cost);
      std::swap(x.desc, y.desc);
      return "swapping" + name + "s";
    default:
      p.v.erase(p.v.begin() + static_cast<long>(i));
      return "destroying a" + name;
    }
  } catch (const Boom &) {
    x.state = x.state == GONE ? GONE : UNKNOWN;
    return "a failed copy of a" + name;
  }
}

template <typename V> struct GenNode {
  Gen<V> inner;
};
template <typename V> struct TreeNode {
  Shrinkable<V> inner;
};

// Uses of the members of one kind's pools.
template <typename V> std::string use(Src &s, Ctx &c, Pools<V> &P, bool fault) {
  const auto arm = [&](uint64_t n) { throwIn = fault ? static_cast<int>(1 + s.draw(n)) : 0; };
  switch (s.draw(8)) {
  case 0: { // generate
    auto *g = P.gens.usable(s, 8);
    if (!g)
      return "nothing";
    const size_t k = s.draw(1);
    const auto st = g->state;
    const auto fp = g->fp;
    const auto d = g->desc;
    const int cost = g->cost;
    arm(20);
    Shrinkable<V> t = (*g->h)(Random(41 + k), SIZES[k]);
    const bool was = thrown > 0 || fault;
    throwIn = 0;
    if (s.draw(3) == 0) // the generator goes first
      P.gens.v.erase(P.gens.v.begin() + (g - &P.gens.v[0]));
    if (!was && st == KNOWN && k == 0) {
      const auto now = print(t);
      if (!std::equal(now.begin(), now.end(), fp.begin()))
        c.fail(cat("a tree from generator ", d, " differs from the first one"));
    }
    P.trees.add(std::move(t), cost, "generated by " + d, was ? UNKNOWN : KNOWN);
    return "generating";
  }
  case 1: { // value
    auto *t = P.trees.usable(s);
    if (!t)
      return "nothing";
    arm(6);
    try {
      V v = t->h->value();
      throwIn = 0;
      const int64_t k = code(v);
      if (t->state == KNOWN && k != t->fp[0])
        c.fail(cat("value of tree ", t->desc, " is ", k, ", it was ", t->fp[0]));
      P.values.emplace_back(std::move(v), k);
    } catch (const Boom &) {
    } catch (const GenerationFailure &) {
      if (t->state == KNOWN && t->fp[0] != RAISED)
        c.fail(cat("tree ", t->desc, " has no value any more"));
    }
    throwIn = 0;
    if (P.values.size() > 6)
      P.values.erase(P.values.begin() + static_cast<long>(s.below(P.values.size())));
    return "taking a value";
  }
  case 2:
  case 3: { // shrinks, from a holder or a temporary that is gone at once
    auto *t = P.trees.usable(s);
    if (!t)
      return "nothing";
    const auto d = t->desc;
    const auto cost = t->cost;
    const auto st = t->state;
    const auto fp = t->fp;
    arm(10);
    Seq<Shrinkable<V>> q;
    if (s.draw(2) == 0) {
      t->state = GONE;
      Shrinkable<V> gone(std::move(*t->h));
      q = gone.shrinks();
    } else {
      q = t->h->shrinks();
    }
    throwIn = 0;
    P.kids.add(std::move(q), cost, "shrinks of " + d, fault ? UNKNOWN : KNOWN);
    // The first values in the fingerprint of the tree are those of the shrinks.
    if (st == KNOWN && !fault) {
      const Fp &k = P.kids.v.back().fp;
      const bool none = fp.size() > 2 && fp[1] == OPEN && fp[2] == CLOSE;
      if (none != k.empty() || (!none && k[0] != fp[2]))
        c.fail(cat("shrinks of tree ", d, " differ from the first time"));
    }
    return "taking shrinks";
  }
  case 4:
  case 5: { // advance shrinks
    auto *q = P.kids.usable(s);
    if (!q)
      return "nothing";
    arm(12);
    Maybe<Shrinkable<V>> k = q->h->next();
    throwIn = 0;
    if (fault) {
      q->state = UNKNOWN;
    } else if (q->state == KNOWN) {
      const int64_t got = k ? item(*k) : CUT;
      const int64_t want = q->fp.empty() ? CUT : q->fp[0];
      if (got != want)
        c.fail(cat("next of ", q->desc, " is ", got, " instead of ", want));
      if (!q->fp.empty())
        q->fp.erase(q->fp.begin());
      if (!q->fp.empty() && q->fp.back() == CUT)
        q->state = UNKNOWN;
    }
    const auto d = q->desc;
    const auto cost = q->cost;
    const bool drop = s.draw(3) == 0;
    if (drop)
      P.kids.v.erase(P.kids.v.begin() + (q - &P.kids.v[0]));
    if (k)
      P.trees.add(std::move(*k), cost, "one of " + d, fault ? UNKNOWN : KNOWN);
    return "advancing shrinks";
  }
  case 6: { // advance a sequence
    auto *q = P.seqs.usable(s);
    if (!q)
      return "nothing";
    arm(8);
    Maybe<V> x = q->h->next();
    throwIn = 0;
    if (fault) {
      q->state = UNKNOWN;
    } else if (q->state == KNOWN) {
      const int64_t got = x ? code(*x) : CUT;
      const int64_t want = q->fp.empty() ? CUT : q->fp[0];
      if (got != want)
        c.fail(cat("next of sequence ", q->desc, " is ", got, " instead of ", want));
      if (!q->fp.empty())
        q->fp.erase(q->fp.begin());
      if (!q->fp.empty() && q->fp.back() == CUT)
        q->state = UNKNOWN;
    }
    if (x) {
      const int64_t k = code(*x);
      P.values.emplace_back(std::move(*x), k);
    }
    return "advancing a sequence";
  }
  case 7: { // assigning something its own part
    auto *g = P.gens.usable(s);
    auto *t = P.trees.usable(s);
    if (!g || !t)
      return "nothing";
    c.label("own part");
    const bool move = s.flag();
    if (s.flag()) {
      auto node = std::make_shared<GenNode<V>>(GenNode<V>{*g->h});
      Gen<V> own([node](const Random &r, int n) { return node->inner(r, n); });
      Gen<V> &inner = node->inner;
      node.reset();
      if (move)
        own = std::move(inner);
      else
        own = static_cast<const Gen<V> &>(inner);
      *g->h = std::move(own);
    } else {
      auto node = std::make_shared<TreeNode<V>>(TreeNode<V>{*t->h});
      Shrinkable<V> own = shrinkable::lambda([node] { return node->inner.value(); });
      Shrinkable<V> &inner = node->inner;
      node.reset();
      if (move)
        own = std::move(inner);
      else
        own = static_cast<const Shrinkable<V> &>(inner);
      *t->h = std::move(own);
    }
    return "assigning an own part";
  }
  default: { // walking on from a shrink while dropping what it came from
    auto *t = P.trees.usable(s);
    if (!t)
      return "nothing";
    Shrinkable<V> best(*t->h);
    auto q = best.shrinks();
    for (int n = 0; n < 12; n++) {
      auto k = q.next();
      if (!k)
        break;
      if (s.flag()) {
        best = std::move(*k);
        q = best.shrinks();
      }
    }
    P.trees.add(std::move(best), t->cost, "descendant");
    return "descending";
  }
  }
}

template <typename V> void verifyAny(Src &s, Ctx &c, Pools<V> &P, const std::string &why) {
  if (auto *x = P.gens.any(s))
    verify(c, P.gens, *x, why);
  if (auto *x = P.trees.any(s))
    verify(c, P.trees, *x, why);
  if (auto *x = P.seqs.any(s))
    verify(c, P.seqs, *x, why);
  if (auto *x = P.kids.any(s))
    verify(c, P.kids, *x, why);
  for (const auto &v : P.values)
    if (code(v.first) != v.second)
      c.fail(cat("a value taken earlier changed after ", why));
}
template <typename V> void verifyAll(Ctx &c, Pools<V> &P, const std::string &why) {
  for (auto &x : P.gens.v)
    verify(c, P.gens, x, why);
  for (auto &x : P.trees.v)
    verify(c, P.trees, x, why);
  for (auto &x : P.seqs.v)
    verify(c, P.seqs, x, why);
  for (auto &x : P.kids.v)
    verify(c, P.kids, x, why);
}

template <typename V> std::string step(Src &s, Ctx &c, World &w, Pools<V> &P, bool fault) {
  V *const tag = nullptr;
  faultArmed = fault;
  thrown = 0;
  if (fault)
    throwIn = static_cast<int>(1 + s.draw(15));
  std::string why;
  try {
    const bool none = P.gens.v.empty() || (P.trees.v.empty() && P.seqs.v.empty());
    switch (s.draw(none ? 3 : 9)) {
    case 0:
    case 1:
      makeGen(s, w, tag);
      why = "making a generator with " + w.last;
      break;
    case 2:
      makeTree(s, w, tag);
      why = "making a tree with " + w.last;
      break;
    case 3:
      makeSeq_(s, w, tag);
      why = "making a sequence with " + w.last;
      break;
    case 4:
    case 5:
      switch (s.draw(3)) {
      case 0: why = lifetime(s, c, P.gens); break;
      case 1: why = lifetime(s, c, P.trees); break;
      case 2: why = lifetime(s, c, P.seqs); break;
      default: why = lifetime(s, c, P.kids); break;
      }
      break;
    default:
      throwIn = 0;
      why = use(s, c, P, fault);
    }
  } catch (const Boom &) {
    why = "a failed operation";
  } catch (const GenerationFailure &) {
    why = "filtering a tree without a value";
  }
  throwIn = 0;
  if (thrown) {
    c.label("user object threw");
    why += " (a user object threw)";
  }
  faultArmed = false;
  return why;
}
} // namespace

FACET(histories, 6) {
  misuse.clear();
  throwIn = 0;
  thrown = 0;
  const size_t before = live.size();
  size_t steps = 0;
  std::string log;
  {
    World w;
    const auto n = 4 + s.draw(40);
    const bool faults = s.draw(2) == 0;
    for (uint64_t i = 0; i < n; i++) {
      const bool fault = faults && s.draw(3) == 0;
      const std::string why =
          s.flag() ? step(s, c, w, w.a, fault) : step(s, c, w, w.b, fault);
      if (why != "nothing")
        steps++;
      if (c.wantSample() && log.size() < 300)
        log += why + "; ";
      if (s.flag())
        verifyAny(s, c, w.a, why);
      else
        verifyAny(s, c, w.b, why);
      REQ(misuse.empty(), misuse, " in ", why);
    }
    verifyAll(c, w.a, "the history");
    verifyAll(c, w.b, "the history");
    REQ(misuse.empty(), misuse);
    // The pools go in a chosen order, so that any kind can outlive the others.
    for (int k = 0; k < 4; k++) {
      switch (s.draw(7)) {
      case 0: w.a.gens.v.clear(); break;
      case 1: w.a.trees.v.clear(); break;
      case 2: w.a.seqs.v.clear(); break;
      case 3: w.b.gens.v.clear(); break;
      case 4: w.b.trees.v.clear(); break;
      case 5: w.b.kids.v.clear(); break;
      default:
        verifyAll(c, w.a, "dropping other kinds");
        verifyAll(c, w.b, "dropping other kinds");
      }
    }
  }
  REQ(misuse.empty(), misuse, " when everything was dropped");
  REQ_EQ(live.size(), before, "user objects not destroyed");
  c.nontrivial(steps >= 8);
  c.sample(log);
}

// Shrinks on the way: copied, and the original dropped, at any point.
namespace {
template <typename T, typename F> void copies(Src &s, Ctx &c, const Gen<T> &g, const char *name, const F &show) {
  using Kids = Seq<Shrinkable<T>>;
  const Random random(s.anyBits());
  const int size = static_cast<int>(s.draw(30));
  auto tree = std::unique_ptr<Shrinkable<T>>(new Shrinkable<T>(g(random, size)));
  for (uint64_t n = s.draw(3); n > 0; n--) {
    auto q = tree->shrinks();
    Maybe<Shrinkable<T>> k;
    for (uint64_t i = 1 + s.draw(6); i > 0; i--) {
      auto x = q.next();
      if (!x)
        break;
      k = std::move(x);
    }
    if (!k)
      break;
    tree.reset(new Shrinkable<T>(std::move(*k)));
  }
  const size_t CAP = 80;
  const auto of = [&](const Shrinkable<T> &x) {
    try {
      return hashStr(show(x.value()));
    } catch (const GenerationFailure &) {
      return uint64_t(1);
    }
  };
  std::vector<uint64_t> want, below;
  {
    auto q = tree->shrinks();
    while (want.size() < CAP) {
      auto k = q.next();
      if (!k)
        break;
      want.push_back(of(*k));
      auto first = k->shrinks().next();
      below.push_back(first ? of(*first) : 0);
    }
  }
  struct Held {
    std::unique_ptr<Kids> q;
    size_t at;
  };
  std::vector<Held> held;
  const auto start = [&] { held.push_back(Held{std::unique_ptr<Kids>(new Kids(tree->shrinks())), 0}); };
  std::vector<std::pair<Shrinkable<T>, size_t>> kept;
  start();
  bool dropped = false, copied = false;
  for (uint64_t n = 3 + s.draw(20); n > 0; n--) {
    const size_t i = s.below(held.size());
    switch (s.draw(5)) {
    case 0:
    case 1:
    case 2: {
      // As far as the last, so that every part of the sequence is crossed.
      for (uint64_t m = 1 + s.draw(s.flag() ? 3 : want.size()); m > 0 && held[i].at < want.size(); m--) {
        auto k = held[i].q->next();
        REQ(bool(k), "only ", held[i].at, " shrinks instead of ", want.size(), " of ", name);
        REQ_EQ(of(*k), want[held[i].at], "shrink ", held[i].at, " of ", name);
        if (s.draw(5) == 0)
          kept.emplace_back(std::move(*k), held[i].at);
        held[i].at++;
      }
      break;
    }
    case 3: {
      Held h{std::unique_ptr<Kids>(new Kids(*held[i].q)), held[i].at};
      held.push_back(std::move(h));
      copied = true;
      break;
    }
    case 4: {
      const size_t j = s.below(held.size());
      if (i == j)
        break;
      if (s.flag())
        *held[i].q = *held[j].q;
      else
        *held[i].q = Kids(*held[j].q);
      held[i].at = held[j].at;
      copied = true;
      break;
    }
    default:
      if (held.size() > 1)
        held.erase(held.begin() + static_cast<long>(i));
      else if (s.draw(3) == 0 && tree) {
        start();
        tree.reset();
        dropped = true;
      }
      break;
    }
    if (!dropped && held.size() < 3 && s.draw(5) == 0)
      start();
  }
  // The one that comes last is used up alone.
  while (held.size() > 1)
    held.erase(held.begin() + static_cast<long>(s.below(held.size())));
  tree.reset();
  auto &h = held[0];
  const size_t from = h.at;
  while (h.at < want.size()) {
    auto k = h.q->next();
    REQ(bool(k), "only ", h.at, " shrinks instead of ", want.size(), " of ", name);
    REQ_EQ(of(*k), want[h.at], "shrink ", h.at, " of ", name, " when the rest is gone");
    kept.emplace_back(std::move(*k), h.at);
    h.at++;
    if (kept.size() > 12)
      kept.erase(kept.begin());
  }
  if (want.size() < CAP)
    REQ(!h.q->next(), "more than ", want.size(), " shrinks of ", name);
  held.clear();
  for (auto &k : kept) {
    REQ_EQ(of(k.first), want[k.second], "shrink ", k.second, " of ", name, " kept");
    auto first = k.first.shrinks().next();
    REQ_EQ(first ? of(*first) : 0, below[k.second], "first shrink of shrink ", k.second, " of ", name);
  }
  c.nontrivial(want.size() > 3 && copied && from < want.size());
  c.label(name);
}
struct Print {
  template <typename T> std::string operator()(const T &x) const { return toString(x); }
};
} // namespace
FACET(copies, 3) {
  misuse.clear();
  throwIn = 0;
  const Print p;
  const int64_t salt = s.range(0, 6);
  const size_t n = s.draw(8);
  const auto ints = s.draw(2) ? gen::inRange<int>(0, s.flag() ? 12 : 500) : gen::map(gen::arbitrary<int>(), [](int x) { return x % 1000; });
  const auto strs = gen::container<std::string>(gen::inRange<char>('a', 'e'));
  switch (s.draw(21)) {
  case 0: copies(s, c, gen::container<std::set<int>>(ints), "set", p); break;
  case 1: copies(s, c, gen::container<std::set<int>>(n, ints), "set of fixed size", p); break;
  case 2: copies(s, c, gen::container<std::map<int, std::string>>(ints, strs), "map", p); break;
  case 3: copies(s, c, gen::container<std::map<int, int>>(n, ints, ints), "map of fixed size", p); break;
  case 4: copies(s, c, gen::container<std::multimap<int, int>>(ints, ints), "multimap", p); break;
  case 5: copies(s, c, gen::container<std::multiset<int>>(ints), "multiset", p); break;
  case 6:
    copies(s, c, gen::container<std::unordered_set<int>>(ints), "unordered set",
           [](const std::unordered_set<int> &x) { return toString(std::set<int>(x.begin(), x.end())); });
    break;
  case 7:
    copies(s, c, gen::container<std::unordered_map<int, int>>(ints, ints), "unordered map",
           [](const std::unordered_map<int, int> &x) { return toString(std::map<int, int>(x.begin(), x.end())); });
    break;
  case 8: copies(s, c, gen::unique<std::vector<int>>(ints), "unique", p); break;
  case 9: copies(s, c, gen::uniqueBy<std::vector<int>>(n, ints, [salt](int x) { return x + salt; }), "uniqueBy", p); break;
  case 10: copies(s, c, gen::container<std::vector<std::string>>(strs), "vector", p); break;
  case 11: copies(s, c, gen::container<std::vector<std::string>>(n, strs), "vector of fixed size", p); break;
  case 12: copies(s, c, gen::container<std::array<int, 4>>(ints), "array", p); break;
  case 13: copies(s, c, gen::tuple(ints, strs, gen::maybe(ints)), "tuple", p); break;
  case 14: copies(s, c, gen::string<std::string>(), "string", p); break;
  case 15: copies(s, c, gen::suchThat(gen::container<std::vector<int>>(ints), [](const std::vector<int> &v) { return v.size() % 3 != 1; }), "suchThat", p); break;
  case 16: copies(s, c, gen::mapcat(ints, [strs](int x) { return gen::pair(gen::just(x), gen::container<std::vector<std::string>>(size_t(x) % 4, strs)); }), "mapcat", p); break;
  case 17:
    copies(s, c, gen::exec([ints, strs] {
             std::vector<std::string> v;
             for (int k = *ints % 5; k >= 0; k--)
               v.push_back(*strs.as("piece"));
             return v;
           }), "exec", p);
    break;
  case 18: copies(s, c, gen::container<std::vector<std::set<int>>>(gen::container<std::set<int>>(ints)), "vector of sets", p); break;
  case 19: copies(s, c, gen::container<std::map<int, std::vector<int>>>(ints, gen::unique<std::vector<int>>(ints)), "map of vectors", p); break;
  case 20: copies(s, c, gen::shrink(gen::oneOf(ints, gen::just(7)), [salt](int x) { return x > 3 ? seq::just(x / 2, int(salt) % 3) : Seq<int>(); }), "shrink", p); break;
  default: copies(s, c, gen::arbitrary<std::vector<double>>(), "arbitrary", p); break;
  }
}

namespace {
std::atomic<long> shared{0};
struct Counted {
  int v;
  explicit Counted(int x) : v(x) { shared++; }
  Counted(const Counted &o) : v(o.v) { shared++; }
  ~Counted() { shared--; }
  Shrinkable<int> operator()(const Random &, int) const { return shrinkable::just(int(v)); }
  int operator()() const { return v; }
};
} // namespace

// Holders of the same parts in several threads.
FACET(threads, 1) {
  if (s.draw(60) != 0)
    return;
  const long before = shared;
  const int v = static_cast<int>(s.draw(99)), rounds = 1500;
  bool same = true;
  {
    const Gen<int> g{Counted(v)};
    const Shrinkable<int> t = shrinkable::lambda(Counted(v));
    std::vector<std::thread> threads;
    std::atomic<int> bad{0};
    for (int k = 0; k < 3; k++)
      threads.emplace_back([&] {
        Gen<int> mine(g);
        Shrinkable<int> tree(t);
        for (int i = 0; i < rounds; i++) {
          Gen<int> a(g), b(mine);
          Shrinkable<int> x(t), y(std::move(x));
          a = b;
          x = tree;
          if (i % 100 == 0 && (a(Random(), 0).value() != v || y.value() != v))
            bad++;
        }
      });
    for (auto &x : threads)
      x.join();
    same = bad == 0;
  }
  REQ(same, "a shared generator or tree has another value in another thread");
  REQ_EQ(shared.load(), before, "callables of shared generators and trees alive");
  c.nontrivial();
  c.label("threads");
}
} // namespace c33
