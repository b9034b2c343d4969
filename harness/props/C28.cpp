// C28: generated command sequences are valid from the initial state at every
// shrink.
#include "machine.h"
using namespace machine;
namespace {
// The reference: a sequence of entries, each with the tree of its command and
// the random state it was made from.
struct Entry { Random random; RoseP<Desc> tree; };
struct Ref {
  Pools p;
  int start;
  std::vector<Entry> e;
  Descs descs() const {
    Descs out;
    for (auto &x : e)
      out.push_back(x.tree->v);
    return out;
  }
  // Commands that became invalid are made again from their own random state, or
  // dropped if that gives no valid command.
  void repair() {
    int state = start;
    for (size_t i = 0; i < e.size();) {
      if (!p.t.valid(state, e[i].tree->v)) {
        const auto tree = p.at(state, e[i].random);
        if (p.what(e[i].random) != Pools::OK || !p.t.valid(state, tree->v)) {
          e.erase(e.begin() + long(i));
          continue;
        }
        e[i].tree = tree;
      }
      state = p.t.next(state, e[i].tree->v);
      i++;
    }
  }
  std::vector<Ref> kids() const {
    std::vector<Ref> out;
    for (size_t n = e.size(); n > 0; n--)
      for (size_t at = 0; at + n <= e.size(); at++) {
        Ref r = *this;
        r.e.erase(r.e.begin() + long(at), r.e.begin() + long(at + n));
        r.repair();
        out.push_back(r);
      }
    int state = start;
    for (size_t i = 0; i < e.size(); i++) {
      for (auto &k : e[i].tree->kids)
        if (p.t.valid(state, k->v)) {
          Ref r = *this;
          r.e[i].tree = k;
          r.repair();
          out.push_back(r);
        }
      state = p.t.next(state, e[i].tree->v);
    }
    return out;
  }
};

// Derives the initial entries from the log of generator calls.
template <typename M> struct Run {
  Table t;
  Pools p;
  int start;
  Random random;
  int size;
  Shrinkable<state::Commands<Base<M>>> sh;
  bool failed = false;
  std::string why;
  Ref ref;
};
template <typename M> std::function<M()> maker(int start) {
  return [start] {
    M m;
    m.state = start;
    return m;
  };
}
template <typename M> Gen<state::Commands<Base<M>>> commandsGen(Src &s, int start, const std::function<Gen<CmdP<M>>(const M &)> &f);
template <> Gen<state::Commands<Base<Model>>> commandsGen<Model>(Src &s, int start, const std::function<Gen<CmdP<Model>>(const Model &)> &f) {
  if (s.flag())
    return state::gen::commands(maker<Model>(start)(), f);
  return state::gen::commands(maker<Model>(start), f);
}
template <> Gen<state::Commands<Base<MoveModel>>> commandsGen<MoveModel>(Src &, int start, const std::function<Gen<CmdP<MoveModel>>(const MoveModel &)> &f) {
  return state::gen::commands(maker<MoveModel>(start), f);
}

template <typename M> void runCase(Src &s, Ctx &c) {
  const Table t = anyTable(s);
  const Pools p = anyPools(s, t);
  const int start = int(s.draw(uint64_t(t.states - 1)));
  const Random random = anyRandom(s);
  const int size = int(s.draw(3) == 0 ? s.draw(40) : s.draw(8));
  const auto g = commandsGen<M>(s, start, genFunc<M>(p));
  auto sh = g(random, size);
  const auto calls = *p.calls;
  Descs v;
  try {
    v = descs<M>(sh.value());
  } catch (const GenerationFailure &) {
    // Allowed only if one state had no valid command in many tries.
    REQ(calls.size() >= 100, "generation gave up after ", calls.size(), " tries");
    for (size_t i = calls.size() - 100; i < calls.size(); i++) {
      REQ_EQ(calls[i].state, calls.back().state, "states of the last tries before giving up");
      REQ(p.what(calls[i].random) != Pools::OK || !t.valid(calls[i].state, calls[i].tree->v), "generation gave up although a try gave a valid command");
    }
    c.label("gave up");
    c.nontrivial(calls.size() > 100);
    return;
  }
  // The first valid command of each state in turn.
  Ref ref{p, start, {}};
  int state = start;
  for (auto &call : calls) {
    REQ_EQ(call.state, state, "state the generator was asked for");
    REQ_EQ(call.size, size, "size the generator was asked for");
    if (p.what(call.random) == Pools::OK && t.valid(state, call.tree->v)) {
      ref.e.push_back(Entry{call.random, call.tree});
      state = t.next(state, call.tree->v);
    }
  }
  REQ(v == ref.descs(), "sequence ", show(v), " instead of ", show(ref.descs()));
  REQ(!v.empty() && v.size() <= size_t(size) + 1, v.size(), " commands at size ", size);
  // Every node of the tree down to a budget.
  int budget = c.thorough() ? 3000 : 400, invalidated = 0, single = 0;
  std::function<void(const Shrinkable<state::Commands<Base<M>>> &, const Ref &, int)> go = [&](const Shrinkable<state::Commands<Base<M>>> &x, const Ref &r, int share) {
    const auto want = r.kids();
    std::vector<Shrinkable<state::Commands<Base<M>>>> kids;
    auto seq = x.shrinks();
    while (auto k = seq.next())
      kids.push_back(std::move(*k));
    std::multiset<Descs> a, b;
    std::map<Descs, std::vector<size_t>> where;
    for (size_t i = 0; i < kids.size(); i++) {
      const auto d = descs<M>(kids[i].value());
      REQ(validFrom(t, start, d), "shrink ", i, " of ", show(r.descs()), " is not valid: ", show(d));
      REQ(d.size() <= r.e.size(), "shrink ", i, " of ", show(r.descs()), " is longer: ", show(d));
      a.insert(d);
    }
    for (auto &w : want) {
      b.insert(w.descs());
      invalidated += w.e.size() + 1 < r.e.size();
    }
    for (auto &d : b)
      REQ(a.count(d) >= b.count(d), "no shrink of ", show(r.descs()), " is ", show(d));
    for (auto &d : a)
      REQ(a.count(d) <= b.count(d), "a shrink of ", show(r.descs()), " that neither removes nor shrinks commands: ", show(d));
    single += int(want.size() > r.e.size() * (r.e.size() + 1) / 2);
    share -= int(kids.size());
    // Descend into children whose reference is determined by position when the
    // order is the expected one.
    for (size_t n = 0; n < 3 && !kids.empty() && share > 0; n++) {
      const size_t i = n == 0 ? kids.size() - 1 : s.below(kids.size());
      if (i < want.size() && descs<M>(kids[i].value()) == want[i].descs()) {
        const int part = share / int(3 - n);
        share -= part;
        go(kids[i], want[i], part);
      }
    }
  };
  go(sh, ref, budget);
  REQ(descs<M>(sh.value()) == v, "a second evaluation differs");
  c.nontrivial(v.size() > 2 && single > 0 && t.pre > 1);
  c.label(cat("valid", invalidated ? ", repaired" : ""));
  if (c.wantSample())
    c.sample(cat(show(v), " from state ", start, " of ", t.states, ", ", calls.size(), " generator calls"));
}

// Commands made by constructors that pick values and may refuse.
struct Env {
  Table t;
  unsigned refuse;
  uint64_t salt;
};
Env *env;
struct C0 : Cmd<Model> {
  C0(const Model &m) {
    t = env->t;
    madeFor = m.state;
    d.op = 0;
    d.arg = *gen::inRange(0, 6);
    if (env->refuse)
      RC_PRE(hash64(env->salt, uint64_t(m.state * 8 + d.arg)) % env->refuse != 0);
  }
};
struct C1 : Cmd<Model> {
  C1() {
    t = env->t;
    madeFor = -1;
    d.op = 1;
    const int n = *gen::inRange(0, 4);
    d.arg = *gen::inRange(n, n + 2);
  }
};
struct C2 : Cmd<Model> {
  C2(const Model &m) {
    t = env->t;
    madeFor = m.state;
    d.op = 2;
    d.arg = m.state % 6;
    if (env->refuse && m.state % 3 == 1)
      RC_DISCARD("not here");
  }
};
struct C3 : Cmd<Model> {
  C3(int a, const std::string &b) {
    t = env->t;
    madeFor = -1;
    d.op = 3;
    d.arg = (a + int(b.size())) % 6;
  }
  C3() {
    t = env->t;
    madeFor = -1;
    d.op = 4;
    d.arg = 0;
  }
};
} // namespace

FACET(pools, 6) { runCase<Model>(s, c); }
FACET(moveonly, 2) { runCase<MoveModel>(s, c); }

// Long sequences: the generated one is that of the first valid commands, and
// shrinks deep down the tree are still valid and never longer.
FACET(lengthy, 1) {
  if (s.draw(2))
    return;
  const Table t = anyTable(s);
  const Pools p = anyPools(s, t);
  const int start = int(s.draw(uint64_t(t.states - 1)));
  const int size = 60 + int(s.draw(s.draw(3) ? 100 : 900));
  const auto g = commandsGen<Model>(s, start, genFunc<Model>(p));
  const auto root = g(anyRandom(s), size);
  const auto calls = *p.calls;
  Descs v;
  try {
    v = descs<Model>(root.value());
  } catch (const GenerationFailure &) {
    c.label("gave up");
    return;
  }
  Ref ref{p, start, {}};
  int state = start;
  for (auto &call : calls) {
    REQ_EQ(call.state, state, "state the generator was asked for");
    if (p.what(call.random) == Pools::OK && t.valid(state, call.tree->v)) {
      ref.e.push_back(Entry{call.random, call.tree});
      state = t.next(state, call.tree->v);
    }
  }
  REQ(v == ref.descs(), "sequence of ", v.size(), " instead of ", ref.e.size(), " commands");
  REQ(!v.empty() && v.size() <= size_t(size) + 1, v.size(), " commands at size ", size);
  auto sh = root;
  size_t n = v.size();
  int removed = 0, depth = 0;
  for (; depth < 40; depth++) {
    auto q = sh.shrinks();
    Maybe<Shrinkable<state::Commands<Base<Model>>>> to;
    const size_t reach = 1 + s.draw(s.draw(3) ? 6 : 60);
    for (size_t i = 0; i < reach; i++) {
      auto k = q.next();
      if (!k)
        break;
      if (i + 1 < reach && i % 4)
        continue;
      const auto d = descs<Model>(k->value());
      REQ(validFrom(t, start, d), "shrink ", i, " of ", n, " commands, ", depth, " shrinks down, is not valid: ", show(d));
      REQ(d.size() <= n, "shrink ", i, " of ", n, " commands has ", d.size());
      if (d.size() > n / 2)
        to = k;
      removed += d.size() < n;
    }
    if (!to)
      break;
    sh = *to;
    n = descs<Model>(sh.value()).size();
  }
  c.nontrivial(v.size() > 50 && removed > 0 && depth > 2);
  if (c.wantSample())
    c.sample(cat(v.size(), " commands at size ", size, ", ", depth, " shrinks down ", n));
}

FACET(constructed, 3) {
  Env e{anyTable(s), s.flag() ? unsigned(2 + s.draw(4)) : 0, s.draw(1000)};
  env = &e;
  const int start = int(s.draw(uint64_t(e.t.states - 1)));
  const int size = int(s.draw(12));
  const auto asked = std::make_shared<int>(0);
  const uint64_t set = s.draw(3);
  const std::function<Gen<CmdP<Model>>(const Model &)> f = [set](const Model &m) -> Gen<CmdP<Model>> {
    switch (set) {
    case 0: return state::gen::execOneOf<C0>(m);
    case 1: return state::gen::execOneOfWithArgs<C0, C1>()(m);
    case 2: return state::gen::execOneOfWithArgs<C0, C1, C2, C3>()(m);
    default: return state::gen::execOneOfWithArgs<C3, C1>()(m.state, std::string(size_t(m.state), 'x'));
    }
  };
  const std::set<int> ops = set == 0 ? std::set<int>{0} : set == 1 ? std::set<int>{0, 1} : set == 2 ? std::set<int>{0, 1, 2, 4} : std::set<int>{3, 1};
  const auto g = state::gen::commands(maker<Model>(start)(), f);
  const auto sh = g(anyRandom(s), size);
  try {
    sh.value();
  } catch (const GenerationFailure &) {
    c.label("gave up");
    return;
  }
  int visited = 0;
  size_t most = 0;
  const auto check = [&](const Descs &v, const state::Commands<Base<Model>> &cmds, bool root) {
    int st = start;
    for (size_t i = 0; i < v.size(); i++) {
      const auto &k = static_cast<const Cmd<Model> &>(*cmds[i]);
      REQ(e.t.valid(st, v[i]), "command ", i, " of ", show(v), " is not valid in state ", st);
      REQ(ops.count(v[i].op), "command ", v[i], " is not of the set");
      REQ(v[i].arg >= 0 && v[i].arg < 6, "argument of ", v[i]);
      if (root && k.madeFor >= 0)
        REQ_EQ(k.madeFor, st, "state given to the constructor of command ", i, " of ", show(v));
      if (v[i].op == 0 && e.refuse)
        REQ(hash64(e.salt, uint64_t(k.madeFor * 8 + v[i].arg)) % e.refuse != 0, "command ", v[i], " refused itself");
      if (v[i].op == 2 && e.refuse)
        REQ(k.madeFor % 3 != 1, "command ", v[i], " refused itself");
      if (v[i].op == 3)
        REQ(root ? v[i].arg == (2 * st) % 6 : true, "arguments of the constructor of ", v[i], " in state ", st);
      st = e.t.next(st, v[i]);
    }
  };
  randomWalk(s, sh, 8, 6, [&](const Shrinkable<state::Commands<Base<Model>>> &x, int depth) {
    const auto cmds = x.value();
    const auto v = descs<Model>(cmds);
    REQ(v.size() <= size_t(size) + 1, v.size(), " commands at size ", size);
    check(v, cmds, depth == 0);
    visited++;
    most = std::max(most, v.size());
  });
  c.nontrivial(most > 2 && visited > 4);
  c.label(str(set));
}

namespace {
template <int N>
struct Many : Cmd<Model> {
  Many() {
    t = env->t;
    madeFor = -1;
    d.op = 10 + N;
    d.arg = 0;
  }
};
} // namespace

// Every class of a set of commands is generated, in any state.
FACET(classes, 1) {
  Env e{anyTable(s), 0, s.draw(1000)};
  env = &e;
  Model m;
  m.state = int(s.draw(uint64_t(e.t.states - 1)));
  const uint64_t set = s.draw(6);
  const auto g = [&]() -> Gen<CmdP<Model>> {
    switch (set) {
    case 0: return state::gen::execOneOf<C0, C1>(m);
    case 1: return state::gen::execOneOfWithArgs<C0, C1, C2, C3>()(m);
    case 2: return state::gen::execOneOf<C2, C1, C0>(m);
    case 3: return state::gen::execOneOf<C1>(m);
    case 5: return state::gen::execOneOf<Many<0>, Many<1>, Many<2>, Many<3>, Many<4>, Many<5>>(m);
    case 6: return state::gen::execOneOfWithArgs<Many<0>, Many<1>, Many<2>, Many<3>, Many<4>, Many<5>, Many<6>, Many<7>, Many<8>>()();
    default: return state::gen::execOneOfWithArgs<C3, C1>()(m.state, std::string(size_t(m.state), 'x'));
    }
  }();
  const std::set<int> want = set == 0 ? std::set<int>{0, 1} : set == 1 ? std::set<int>{0, 1, 2, 4} : set == 2 ? std::set<int>{0, 1, 2}
      : set == 3 ? std::set<int>{1} : set == 5 ? std::set<int>{10, 11, 12, 13, 14, 15}
      : set == 6 ? std::set<int>{10, 11, 12, 13, 14, 15, 16, 17, 18} : std::set<int>{3, 1};
  Random r = anyRandom(s);
  const int size = anySize(s);
  std::map<int, int> seen;
  for (int i = 0; i < 300; i++)
    seen[static_cast<const Cmd<Model> &>(*g(r.split(), size).value()).d.op]++;
  for (int op : want)
    REQ(seen[op] > 300 / int(want.size()) / 4, "class ", op, " of set ", set, " was made ", seen[op], " times of 300");
  REQ_EQ(seen.size(), want.size(), "classes made");
  c.nontrivial(want.size() > 2);
}

// Greedy shrinking of an injected fault.
FACET(minimal, 4) {
  const Table t = anyTable(s);
  const Pools p = anyPools(s, t);
  const int start = int(s.draw(uint64_t(t.states - 1)));
  const auto g = state::gen::commands(maker<Model>(start)(), genFunc<Model>(p));
  const int size = int(s.draw(14));
  const auto sh = g(anyRandom(s), size);
  Descs v;
  try {
    v = descs<Model>(sh.value());
  } catch (const GenerationFailure &) {
    return;
  }
  // The fault: an operation applied in a state for the k-th time, two
  // operations in order, or a long enough sequence.
  const uint64_t kind = s.draw(3);
  const int op = int(s.draw(uint64_t(t.ops - 1))), op2 = int(s.draw(uint64_t(t.ops - 1))), at = int(s.draw(uint64_t(t.states - 1)));
  const size_t k = 1 + s.draw(3);
  const auto fails = [&](const Descs &w) {
    int st = start;
    size_t n = 0;
    bool first = false;
    for (auto &d : w) {
      switch (kind) {
      case 0: n += d.op == op && st == at; break;
      case 1:
        if (first && d.op == op2)
          return true;
        first = first || d.op == op;
        break;
      case 2: n += 1; break;
      default: n += d.arg >= 2; break;
      }
      st = t.next(st, d);
    }
    return kind != 1 && n >= k;
  };
  if (!fails(v))
    return;
  int steps = 0;
  const auto min = greedy(sh, [&](const Shrinkable<state::Commands<Base<Model>>> &x) { return fails(descs<Model>(x.value())); }, steps, 200000);
  if (steps >= 200000)
    return;
  const Descs m = descs<Model>(min.value());
  REQ(validFrom(t, start, m) && fails(m), "the minimum ", show(m), " of ", show(v), " is not a valid failing sequence");
  for (size_t i = 0; i < m.size(); i++) {
    Descs w = m;
    w.erase(w.begin() + long(i));
    REQ(!validFrom(t, start, w) || !fails(w), "command ", i, " can be removed from the minimum ", show(m));
  }
  c.nontrivial(m.size() < v.size());
  if (c.wantSample())
    c.sample(cat(show(v), " shrinks to ", show(m)));
}

namespace {
// A command that asserts part of its preconditions while it is applied (the
// deprecated way).
struct Late : Cmd<Model> {
  uint64_t salt = 0;
  unsigned one = 1;
  bool refuses(int st) const { return hash64(salt, uint64_t(st * 1000 + d.op * 20 + d.arg)) % one == 0; }
  void apply(Model &m) const override {
    const bool refused = refuses(m.state);
    RC_PRE(!refused);
    Cmd<Model>::apply(m);
  }
};
} // namespace

// Preconditions asserted while applying make generation fail; no sequence has a
// command that cannot be applied where it stands.
FACET(late, 1) {
  const Table t = anyTable(s);
  const uint64_t salt = s.draw(1000);
  const unsigned one = unsigned(s.oneOf({2, 10, 60, 1000}));
  const int start = int(s.draw(uint64_t(t.states - 1)));
  const int size = int(s.draw(14));
  const auto g = commandsGen<Model>(s, start, [=](const Model &) -> Gen<CmdP<Model>> {
    return gen::map(gen::pair(gen::inRange(0, t.ops), gen::inRange(0, 6)), [=](const std::pair<int, int> &p) -> CmdP<Model> {
      auto k = std::make_shared<Late>();
      k->d = Desc{p.first, p.second};
      k->t = t;
      k->madeFor = -1;
      k->salt = salt;
      k->one = one;
      return k;
    });
  });
  const Random random = anyRandom(s);
  const auto sh = g(random, size);
  bool failed = false;
  try {
    sh.value();
  } catch (const GenerationFailure &) {
    failed = true;
  }
  // A property over such commands is never falsified by that.
  const auto result = rc::detail::toProperty([=] { *g; })(random, size).value().result;
  REQ(result.type != rc::detail::CaseResult::Type::Failure, "refused commands give ", result);
  if (failed) {
    c.label("refused");
    c.nontrivial(size > 0);
    return;
  }
  int visited = 0;
  size_t most = 0;
  randomWalk(s, sh, 10, 8, [&](const Shrinkable<state::Commands<Base<Model>>> &x, int) {
    const auto cmds = x.value();
    const auto v = descs<Model>(cmds);
    REQ(v.size() <= size_t(size) + 1, v.size(), " commands at size ", size);
    int st = start;
    for (size_t i = 0; i < v.size(); i++) {
      REQ(t.valid(st, v[i]), "command ", i, " of ", show(v), " is not valid in state ", st);
      REQ(!static_cast<const Late &>(*cmds[i]).refuses(st), "command ", i, " of ", show(v), " cannot be applied in state ", st);
      st = t.next(st, v[i]);
    }
    visited++;
    most = std::max(most, v.size());
  });
  c.nontrivial(most > 2 && visited > 4);
  c.label("applied");
}
