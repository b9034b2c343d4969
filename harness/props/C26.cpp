// C26: values picked inside a body replay and shrink consistently.
#include "source.h"
#include <rapidcheck/gen/detail/ExecRaw.h>
using namespace pbt;
using namespace rc;
using namespace rcx;
namespace {
using Val = std::vector<int64_t>;
struct Boom {};
const Val kBoom = {-999};

int64_t print(int64_t x) { return x; }
int64_t print(const std::string &x) { return int64_t(hashStr(x) % 1000000007); }
int64_t print(const std::vector<int> &x) {
  uint64_t h = 7;
  for (int e : x)
    h = hash64(h, uint64_t(e));
  return int64_t(h % 1000000007);
}
int64_t print(const std::pair<int64_t, std::string> &p) { return int64_t(hash64(uint64_t(p.first), uint64_t(print(p.second))) % 1000000007); }
// A result of a nested body: not a vector of int.
struct Inner { Val v; };
int64_t print(const Inner &x) {
  uint64_t h = 9;
  for (int64_t e : x.v)
    h = hash64(h, uint64_t(e));
  return int64_t(h % 1000000007);
}
using P = Lazy<int64_t>; // what a pick shows of itself
template <typename T> P prints(const Lazy<T> &l) { return lazyMap<T>(l, [](const T &x) { return print(x); }); }

// A body: how many picks there are, of which kind, and from which generator
// depends on the picks so far.
struct Body {
  uint64_t salt = 0;
  size_t maxPicks = 0;
  int depth = 0;
  unsigned stop = 0, boom = 0; // one in so many: stop early, generator that throws
  std::vector<Source<int64_t>> ints;
  std::vector<Source<std::string>> strs;
  std::vector<Source<std::vector<int>>> vecs;

  enum Kind { INT, STR, VEC, PAIR, NESTED, BOOM, STOP };
  Kind kind(uint64_t h, size_t i) const {
    const uint64_t k = hash64(hash64(salt, h), i);
    if (i >= maxPicks || (stop && k % stop == 0))
      return STOP;
    if (boom && k / 64 % boom == 0)
      return BOOM;
    const Kind r = Kind((k >> 20) % 5);
    return r == NESTED && depth == 0 ? INT : r;
  }
  Body nested(uint64_t h) const {
    Body b = *this;
    b.hasArgs = false;
    b.salt = hash64(salt, h % 5);
    b.depth--;
    b.maxPicks = std::min<size_t>(maxPicks, 3);
    return b;
  }
  static uint64_t fold(uint64_t h, int64_t x) { return hash64(h, uint64_t(x)); }
  static std::string name(uint64_t h, size_t i) {
    switch ((h / 7 + i) % 6) {
    case 0: case 1: return "";
    case 2: return std::string(1, char(1 + h % 127));
    case 3: return std::string(h % 70, char('a' + h % 26));
    case 4: return "line\n" + std::to_string(h % 10) + std::string("\0:\t\xff", 4);
    default: return "pick-" + std::to_string(h % 100);
    }
  }

  // The real thing.
  Val run(std::vector<int64_t> *picked = nullptr, Val seed = {}) const {
    Val log = seed;
    uint64_t h = 1;
    for (int64_t x : seed)
      h = fold(h, x);
    for (size_t i = 0;; i++) {
      const Kind k = kind(h, i);
      int64_t x = 0;
      const std::string nm = name(h, i);
      switch (k) {
      case STOP: log.push_back(int64_t(h % 1000)); return log;
      case INT: x = print(*ints[h % ints.size()].gen(h % 3).as(nm)); break;
      case STR: x = print(*strs[h % strs.size()].gen(h % 3).as(nm)); break;
      case VEC: x = print(*vecs[h % vecs.size()].gen(h % 3).as(nm)); break;
      case PAIR: x = print(*gen::pair(ints[h % ints.size()].gen(h % 3), strs[h % strs.size()].gen(h % 3)).as(nm)); break;
      case NESTED: {
        const Body b = nested(h);
        x = print(*gen::map(gen::exec([b] { return b.run(); }), [](Val v) { return Inner{std::move(v)}; }).as(nm));
        break;
      }
      default:
        *Gen<int64_t>([](const Random &, int) -> Shrinkable<int64_t> { throw Boom(); });
      }
      log.push_back(x);
      h = fold(h, x);
    }
  }
  // The model: the picks of one run, given the first few.
  struct Made {
    std::vector<P> picks;
    std::vector<std::string> names;
    Val result;
    bool boom = false;
  };
  Made model(const std::vector<P> &prefix) const {
    Made m;
    uint64_t h = 1;
    size_t used = 0;
    Val log;
    // An argument tuple is the first pick.
    if (hasArgs) {
      const P a = used < prefix.size() ? prefix[used] : argTree;
      used++;
      m.picks.push_back(a);
      m.names.push_back("");
      log.push_back(a.v);
      h = fold(h, a.v);
    }
    for (size_t i = 0;; i++) {
      const Kind k = kind(h, i);
      if (k == STOP) {
        log.push_back(int64_t(h % 1000));
        m.result = log;
        return m;
      }
      if (k == BOOM) {
        m.boom = true;
        m.result = kBoom;
        return m;
      }
      P p;
      if (used < prefix.size())
        p = prefix[used];
      else
        switch (k) {
        case INT: p = prints<int64_t>(lazy<int64_t>(tree(ints, h))); break;
        case STR: p = prints<std::string>(lazy<std::string>(tree(strs, h))); break;
        case VEC: p = prints<std::vector<int>>(lazy<std::vector<int>>(tree(vecs, h))); break;
        case PAIR: p = prints<std::pair<int64_t, std::string>>(lazyPair<int64_t, std::string>(lazy<int64_t>(tree(ints, h)), lazy<std::string>(tree(strs, h)))); break;
        default: {
          const auto b = nested(h);
          p = lazyMap<Val>(b.node({}, 0), [](const Val &v) { return print(Inner{v}); });
        }
        }
      used++;
      m.picks.push_back(p);
      m.names.push_back(name(h, i));
      log.push_back(p.v);
      h = fold(h, p.v);
    }
  }
  template <typename T> static RoseP<T> tree(const std::vector<Source<T>> &v, uint64_t h) { return v[h % v.size()].at(Random(), 0, h % 3); }
  // The tree of results: one pick at a time is replaced by one of its shrinks,
  // earlier picks stay, later picks are made anew.
  Lazy<Val> node(const std::vector<P> &prefix, size_t fixed) const {
    const Made m = model(prefix);
    const Body me = *this;
    return Lazy<Val>{m.result, [me, m, fixed] {
      std::vector<Lazy<Val>> out;
      if (m.boom)
        return out;
      for (size_t i = fixed; i < m.picks.size(); i++)
        for (auto &k : m.picks[i].kids()) {
          std::vector<P> prefix(m.picks.begin(), m.picks.begin() + long(i));
          prefix.push_back(k);
          out.push_back(me.node(prefix, i));
        }
      return out;
    }};
  }
  bool hasArgs = false;
  P argTree;
};

Body anyBody(Src &s, bool booms) {
  Body b;
  b.salt = s.draw(1000);
  b.maxPicks = s.draw(5);
  b.depth = int(s.draw(2));
  b.stop = s.flag() ? unsigned(2 + s.draw(8)) : 0;
  b.boom = booms && s.draw(3) == 0 ? unsigned(3 + s.draw(20)) : 0;
  // Nested failures end the whole body; keep them at the top.
  if (b.boom)
    b.depth = 0;
  for (size_t i = 0, n = 1 + s.draw(1); i < n; i++) {
    b.ints.push_back(anySrc<int64_t>(s, 4, 3));
    b.strs.push_back(anySrc<std::string>(s, 4, 3));
    b.vecs.push_back(anySrc<std::vector<int>>(s, 4, 3));
    b.ints.back().ignoreRandom = b.strs.back().ignoreRandom = b.vecs.back().ignoreRandom = true;
  }
  return b;
}

// Value, or the marker of a failed pick.
Val valueOf(const Shrinkable<Val> &sh) {
  try {
    return sh.value();
  } catch (const Boom &) {
    return kBoom;
  }
}
std::string diff(const Shrinkable<Val> &sh, const Lazy<Val> &r, int &budget, const std::string &path = "root") {
  if (valueOf(sh) != r.v)
    return cat("result ", listStr(valueOf(sh)), " instead of ", listStr(r.v), " at ", path);
  if (budget <= 0)
    return "";
  const auto want = r.kids();
  auto seq = sh.shrinks();
  std::vector<Shrinkable<Val>> kids;
  for (size_t i = 0; i < want.size(); i++) {
    auto k = seq.next();
    if (!k)
      return cat("only ", i, " shrinks instead of ", want.size(), " at ", path);
    kids.push_back(std::move(*k));
  }
  if (seq.next())
    return cat("more than ", want.size(), " shrinks at ", path);
  // Evaluated out of order: the last first.
  for (size_t i = want.size(); i-- > 0 && budget > 0;) {
    budget--;
    if (valueOf(kids[i]) != want[i].v)
      return cat("result ", listStr(valueOf(kids[i])), " instead of ", listStr(want[i].v), " at ", path, "/", i);
  }
  if (valueOf(sh) != r.v)
    return cat("a second evaluation differs at ", path);
  for (size_t i = 0; i < want.size() && budget > 0; i++) {
    int share = std::max(1, budget / int(want.size() - i));
    const int before = share;
    const auto d = diff(kids[i], want[i], share, cat(path, "/", i));
    budget -= before - share;
    if (!d.empty())
      return d;
  }
  return "";
}

struct ArgA { int64_t v; };
struct ArgB { std::string v; };
Source<int64_t> *argA;
Source<std::string> *argB;

bool refused(const std::function<void()> &f, std::string *what = nullptr) {
  try {
    f();
    return false;
  } catch (const std::runtime_error &e) {
    if (what)
      *what = e.what();
    return true;
  }
}
} // namespace
namespace rc {
template <> struct Arbitrary<ArgA> {
  static Gen<ArgA> arbitrary() { return Gen<ArgA>([](const Random &r, int n) { return gen::map(argA->gen(), [](int64_t x) { return ArgA{x}; })(r, n); }); }
};
template <> struct Arbitrary<ArgB> {
  static Gen<ArgB> arbitrary() { return Gen<ArgB>([](const Random &r, int n) { return gen::map(argB->gen(), [](std::string x) { return ArgB{std::move(x)}; })(r, n); }); }
};
} // namespace rc

FACET(bodies, 6) {
  const Body b = anyBody(s, true);
  const Gen<Val> g = gen::exec([b] { return b.run(); });
  const Random random = anyRandom(s);
  const auto sh = g(random, anySize(s));
  const auto ref = b.node({}, 0);
  int budget = c.thorough() ? 500 : 150;
  const auto d = diff(sh, ref, budget);
  REQ(d.empty(), d);
  budget = 30;
  const auto again = diff(sh, ref, budget);
  REQ(again.empty(), "on a second visit ", again);
  const auto kids = ref.kids();
  c.nontrivial(ref.v.size() > 2 && kids.size() > 1);
  c.label(ref.v == kBoom ? "failed pick" : b.depth ? "nested" : "flat");
  if (c.wantSample())
    c.sample(cat("picks ", listStr(ref.v), " with ", kids.size(), " shrinks"));
}

// Arguments of the body are a first pick. The library keeps one generator per type.
FACET(arguments, 3) {
  Body b = anyBody(s, false);
  b.maxPicks = std::min<size_t>(b.maxPicks, 3);
  b.hasArgs = true;
  auto a1 = anySrc<int64_t>(s, 4, 3);
  auto a2 = anySrc<std::string>(s, 4, 3);
  a1.ignoreRandom = a2.ignoreRandom = true;
  argA = &a1;
  argB = &a2;
  const auto show = [](const std::tuple<int64_t, std::string> &t) { return print(std::make_pair(std::get<0>(t), std::get<1>(t))); };
  b.argTree = lazyMap<std::tuple<int64_t, std::string>>(lazyTuple<int64_t, std::string>(a1.at(Random(), 0, 0), a2.at(Random(), 0, 0)), show);
  Body run = b;
  const auto sh = gen::exec([run, show](const ArgA &x, ArgB y) {
    const int64_t p = show(std::make_tuple(x.v, y.v));
    y.v.clear(); // its own copy
    return run.run(nullptr, Val{p});
  })(anyRandom(s), anySize(s));
  int budget = 120;
  const auto ref = b.node({}, 0);
  const auto d = diff(sh, ref, budget);
  REQ(d.empty(), d);
  c.nontrivial(ref.v.size() > 2);
}

// The record that comes with a value.
FACET(records, 4) {
  const Body b = anyBody(s, false);
  const Random random = anyRandom(s);
  const int size = anySize(s);
  const auto root = gen::detail::execRaw([b] { return b.run(); })(random, size);
  using Pair = std::pair<Val, gen::detail::Recipe>;
  int visited = 0;
  size_t most = 0;
  randomWalk(s, root, 5, 3, [&](const Shrinkable<Pair> &sh, int) {
    visited++;
    const Pair p = sh.value();
    const auto &ing = p.second.ingredients;
    REQ_EQ(ing.size() + 1, p.first.size(), "picks recorded for ", listStr(p.first));
    most = std::max(most, ing.size());
    uint64_t h = 1;
    for (size_t i = 0; i < ing.size(); i++) {
      auto any = ing[i].value();
      int64_t x = 0;
      switch (b.kind(h, i)) {
      case Body::INT: x = print(any.get<int64_t>()); break;
      case Body::STR: x = print(any.get<std::string>()); break;
      case Body::VEC: x = print(any.get<std::vector<int>>()); break;
      case Body::PAIR: x = print(any.get<std::pair<int64_t, std::string>>()); break;
      case Body::NESTED: x = print(any.get<Inner>()); break;
      default: REQ(false, "more picks recorded than made");
      }
      REQ_EQ(x, p.first[i], "pick ", i, " recorded for ", listStr(p.first));
      const std::string want = Body::name(h, i);
      REQ_EQ(ing[i].description, want, "name of pick ", i);
      h = Body::fold(h, x);
    }
    // A second evaluation gives the same result and record.
    const Pair q = sh.value();
    REQ(q.first == p.first, "second evaluation gives ", listStr(q.first), " instead of ", listStr(p.first));
    REQ_EQ(q.second.ingredients.size(), ing.size(), "picks recorded by a second evaluation");
    // Every immediate shrink changes one pick and keeps those before it.
    auto seq = sh.shrinks();
    for (int n = 0; n < 8; n++) {
      auto k = seq.next();
      if (!k)
        break;
      const Pair r = k->value();
      size_t i = 0;
      const size_t fixed = r.second.numFixed;
      REQ(fixed < ing.size() && fixed >= p.second.numFixed, "shrink of pick ", fixed, " of ", ing.size());
      for (; i < fixed; i++)
        REQ(r.first[i] == p.first[i], "pick ", i, " changed when pick ", fixed, " shrunk");
    }
  });
  c.nontrivial(visited > 3 && most > 1);
}

// Generators that depend on the random state and size: each pick is a value of
// its generator, and earlier picks survive shrinking of later ones.
FACET(randomness, 3) {
  auto a = anySrc<int64_t>(s, 4, 3);
  auto t = anySrc<std::string>(s, 4, 3);
  const size_t n = 1 + s.draw(5);
  const uint64_t salt = s.draw(100);
  struct Shot { std::vector<std::pair<Random, int>> asked; };
  const auto shot = std::make_shared<Shot>();
  const auto body = [=] {
    Val log;
    uint64_t h = salt;
    for (size_t i = 0; i < n; i++) {
      const int64_t x = hash64(h, i) % 2 ? print(*a.gen()) : print(*t.gen());
      log.push_back(x);
      h = hash64(h, uint64_t(x));
      if (h % 7 == 0)
        break;
    }
    return log;
  };
  const Random random = anyRandom(s);
  const int size = anySize(s);
  const auto sh = gen::exec(body)(random, size);
  const Val v = sh.value();
  // Which generator was asked for each pick, and with what.
  REQ_EQ(a.calls->size() + t.calls->size(), v.size(), "generators asked for ", v.size(), " picks");
  std::set<uint64_t> keys;
  for (auto &call : *a.calls) {
    REQ_EQ(call.size, size, "size of a pick");
    keys.insert(randomKey(call.random));
  }
  for (auto &call : *t.calls) {
    REQ_EQ(call.size, size, "size of a pick");
    keys.insert(randomKey(call.random));
  }
  REQ_EQ(keys.size(), v.size(), "picks share a random state");
  std::set<int64_t> possible;
  std::function<void(const Lazy<int64_t> &)> add = [&](const Lazy<int64_t> &l) {
    possible.insert(l.v);
    for (auto &k : l.kids())
      add(k);
  };
  for (auto &r : a.pool)
    add(lazy<int64_t>(r));
  for (auto &r : t.pool)
    add(prints<std::string>(lazy<std::string>(r)));
  const auto again = gen::exec(body)(random, size);
  REQ(again.value() == v, "a second run from the same state gives other picks");
  int visited = 0;
  randomWalk(s, sh, 5, 3, [&](const Shrinkable<Val> &x, int) {
    visited++;
    const Val w = x.value();
    REQ(x.value() == w, "second evaluation differs");
    for (int64_t e : w)
      REQ(possible.count(e), "pick ", e, " is in no tree of any generator");
    auto seq = x.shrinks();
    for (int k = 0; k < 10; k++) {
      auto y = seq.next();
      if (!y)
        break;
      const Val u = y->value();
      size_t at = 0;
      while (at < u.size() && at < w.size() && u[at] == w[at])
        at++;
    }
  });
  c.nontrivial(v.size() > 1 && visited > 3);
}

// Many picks: in every run, also after shrinks of earlier ones, each is
// generated from a random state of its own.
FACET(distinct, 2) {
  const uint64_t salt = s.draw(1000);
  const size_t n = 1 + s.draw(s.flag() ? 7 : 40);
  const bool nested = s.draw(3) == 0;
  // A pick remembers the random state it came from, and shrinks besides.
  struct Pick {
    uint64_t key;
    int64_t x;
  };
  const int size = anySize(s);
  const auto wrong = std::make_shared<std::string>();
  const Gen<Pick> g([=](const Random &random, int sz) {
    if (sz != size)
      *wrong = cat("a pick was generated at size ", sz, " instead of ", size);
    const uint64_t key = randomKey(random);
    return shrinkable::shrinkRecur(Pick{key, int64_t(1 + hash64(salt, key) % 6)}, [](const Pick &p) {
      return p.x > 0 ? seq::just(Pick{p.key, p.x / 2}, Pick{p.key, p.x - 1}) : Seq<Pick>();
    });
  });
  const auto body = [=] {
    std::vector<std::pair<uint64_t, int64_t>> log;
    uint64_t h = salt;
    for (size_t i = 0; i < n; i++) {
      if (nested && h % 4 == 0) {
        const auto two = *gen::exec([=] {
          const Pick a = *g;
          const Pick b = *g;
          return std::make_pair(a, b);
        });
        log.emplace_back(two.first.key, two.first.x);
        log.emplace_back(two.second.key, two.second.x);
      } else {
        const Pick a = *g;
        log.emplace_back(a.key, a.x);
      }
      h = hash64(h, uint64_t(log.back().second));
      if (h % 29 == 0)
        break;
    }
    return log;
  };
  const Random random = anyRandom(s);
  using Log = std::vector<std::pair<uint64_t, int64_t>>;
  const Shrinkable<Log> sh = gen::exec(body)(random, size);
  size_t most = 0, after = 0;
  randomWalk(s, sh, 8, 6, [&](const Shrinkable<Log> &node, int depth) {
    const Log v = node.value();
    REQ(wrong->empty(), *wrong);
    std::set<uint64_t> keys;
    for (size_t i = 0; i < v.size(); i++)
      REQ(keys.insert(v[i].first).second, "picks share a random state: pick ", i, " of ", v.size(), ", ", depth, " shrinks down");
    most = std::max(most, v.size());
    after = std::max(after, size_t(depth));
  });
  c.nontrivial(most > 3 && after > 1);
  c.label(most > 10 ? "more than 10 picks" : "few picks");
}

// Bodies of many picks, each with few shrinks, far down the tree.
FACET(longer, 1) {
  Body b = anyBody(s, false);
  b.maxPicks = 8 + s.draw(s.draw(3) ? 12 : 50);
  b.depth = 0;
  b.stop = s.flag() ? unsigned(40 + s.draw(100)) : 0;
  const Gen<Val> g = gen::exec([b] { return b.run(); });
  Shrinkable<Val> sh = g(anyRandom(s), anySize(s));
  auto ref = b.node({}, 0);
  size_t most = 0;
  int depth = 0;
  size_t work = 0;
  for (; depth < 8 && work < 6000; depth++) {
    REQ(valueOf(sh) == ref.v, "result ", listStr(valueOf(sh)), " instead of ", listStr(ref.v), " ", depth, " shrinks down");
    most = std::max(most, ref.v.size());
    const auto want = ref.kids();
    work += want.size() * ref.v.size();
    // All shrinks are counted; some are looked at.
    const size_t next = want.empty() ? 0 : s.flag() ? s.below(want.size()) : want.size() - 1 - s.below(std::min<size_t>(want.size(), 4));
    auto q = sh.shrinks();
    Maybe<Shrinkable<Val>> down;
    for (size_t i = 0; i < want.size(); i++) {
      auto k = q.next();
      REQ(bool(k), "only ", i, " shrinks instead of ", want.size(), " ", depth, " shrinks down from ", listStr(ref.v));
      if (i < 6 || i + 6 > want.size() || hash64(7, i) % 8 == 0 || i == next)
        REQ(valueOf(*k) == want[i].v, "shrink ", i, " is ", listStr(valueOf(*k)), " instead of ", listStr(want[i].v), " ", depth, " shrinks down from ", listStr(ref.v));
      if (i == next)
        down = std::move(k);
    }
    REQ(!q.next(), "more than ", want.size(), " shrinks ", depth, " shrinks down from ", listStr(ref.v));
    if (!down)
      break;
    sh = std::move(*down);
    ref = want[next];
  }
  c.nontrivial(most > 10 && depth > 1);
  c.label(most > 40 ? "more than 40 picks" : most > 10 ? "more than 10 picks" : "few picks");
}

// Library generators whose parameters depend on earlier picks.
FACET(dependent, 3) {
  const uint64_t salt = s.draw(1000);
  struct Pick { int kind; int64_t a, b; std::vector<int> v; };
  const auto body = [salt] {
    std::vector<Pick> out;
    uint64_t h = salt;
    for (int i = 0; i < 6; i++) {
      const auto k = hash64(h, uint64_t(i));
      Pick p{int(k % 5), 0, 0, {}};
      switch (p.kind) {
      case 0:
        p.a = int64_t(k / 8 % 20);
        p.b = *gen::inRange<int>(int(p.a), int(p.a) + 30);
        h = hash64(h, uint64_t(p.b));
        break;
      case 1:
        p.a = int64_t(k / 8 % 5);
        p.v = *gen::container<std::vector<int>>(size_t(p.a), gen::inRange(0, 10));
        h = hash64(h, uint64_t(print(p.v)));
        break;
      case 2: {
        p.v = {int(k / 8 % 10), 100, int(k / 80 % 10)};
        p.b = *gen::elementOf(p.v);
        h = hash64(h, uint64_t(p.b));
        break;
      }
      case 3:
        p.b = *gen::suchThat(gen::inRange(0, 200), [](int x) { return x % 3 == 1; });
        h = hash64(h, uint64_t(p.b));
        break;
      default:
        return out;
      }
      out.push_back(p);
    }
    return out;
  };
  const auto sh = gen::exec(body)(anyRandom(s), anySize(s));
  int visited = 0;
  size_t most = 0;
  randomWalk(s, sh, 8, 4, [&](const Shrinkable<std::vector<Pick>> &x, int) {
    const auto v = x.value();
    visited++;
    most = std::max(most, v.size());
    // The body's structure is re-derived from the picks alone.
    uint64_t h = salt;
    for (size_t i = 0; i <= v.size(); i++) {
      const auto k = hash64(h, uint64_t(i));
      if (i == v.size()) {
        REQ(i == 6 || k % 5 == 4, "the body stopped after ", i, " picks");
        break;
      }
      const auto &p = v[i];
      REQ(p.kind == int(k % 5), "pick ", i, " is of another kind");
      switch (p.kind) {
      case 0:
        REQ(p.a == int64_t(k / 8 % 20) && p.b >= p.a && p.b < p.a + 30, p.b, " picked from the range at ", p.a);
        h = hash64(h, uint64_t(p.b));
        break;
      case 1:
        REQ(int64_t(p.v.size()) == p.a && p.a == int64_t(k / 8 % 5), p.v.size(), " elements picked instead of ", p.a);
        for (int e : p.v)
          REQ(e >= 0 && e < 10, "element ", e);
        h = hash64(h, uint64_t(print(p.v)));
        break;
      case 2:
        REQ(std::find(p.v.begin(), p.v.end(), int(p.b)) != p.v.end(), p.b, " picked from ", listStr(p.v));
        h = hash64(h, uint64_t(p.b));
        break;
      default:
        REQ(p.b % 3 == 1, p.b, " picked");
        h = hash64(h, uint64_t(p.b));
      }
    }
  });
  c.nontrivial(most > 1 && visited > 3);
}

FACET(refusal, 2) {
  std::string what;
  const auto pick = [] { *gen::just(1); };
  REQ(refused(pick, &what), "picking outside a body is allowed");
  const auto src = anySrc<int64_t>(s, 4, 3);
  const Random random = anyRandom(s);
  const int size = anySize(s);
  const uint64_t how = s.draw(6);
  const size_t before = s.draw(2);
  // A body that picks, does something in which picking must be refused, and
  // picks again.
  bool in = false;
  const auto body = [&] {
    Val log;
    for (size_t i = 0; i < before; i++)
      log.push_back(*src.gen(i));
    switch (how) {
    case 0: // in a mapping of a picked generator
      in = refused([&] { *gen::map(src.gen(), [](int64_t x) { return x + *gen::just(1); }); });
      break;
    case 1: // in a generator function
      in = refused([&] { *Gen<int>([](const Random &, int) { return shrinkable::just(*gen::just(1)); }); });
      break;
    case 2: // in a predicate
      in = refused([&] { *gen::suchThat(src.gen(), [](int64_t) { return *gen::just(true); }); });
      break;
    case 3: // allowed in a nested body
      in = *gen::exec([] { return *gen::just(true); });
      break;
    case 4: // a nested body that throws
      try {
        *gen::exec([]() -> int { *gen::just(1); throw Boom(); });
      } catch (const Boom &) {
        in = true;
      }
      break;
    default: // a nested body in a mapping
      in = *gen::map(gen::exec([] { return *gen::just(7); }), [](int x) { return x == 7; });
    }
    log.push_back(*src.gen(9));
    return log;
  };
  const auto sh = gen::exec(body)(random, size);
  const Val v = sh.value();
  REQ(in, "context ", how, " treats picking wrongly");
  REQ_EQ(v.size(), before + 1, "picks around context ", how);
  REQ(sh.value() == v, "a second evaluation differs");
  REQ(refused(pick), "picking after a body is allowed");
  const auto throwing = gen::exec([]() -> int { *gen::just(1); throw Boom(); })(random, size);
  bool threw = false;
  try {
    throwing.value();
  } catch (const Boom &) {
    threw = true;
  }
  REQ(threw, "the exception of a body is lost");
  REQ(!throwing.shrinks().next(), "a body that throws has shrinks");
  REQ(refused(pick), "picking after a body that throws is allowed");
  auto seq = sh.shrinks();
  for (int i = 0; i < 5; i++)
    if (auto k = seq.next()) {
      REQ(refused(pick), "picking between shrinks is allowed");
      k->value();
    }
  REQ(refused(pick), "picking after shrinking is allowed");
  c.nontrivial(before > 0);
  c.label(str(how));
}
