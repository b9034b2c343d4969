// Generated state machines for the stateful testing checks.
#pragma once
#include "source.h"
#include <rapidcheck/state.h>

namespace machine {
using namespace pbt;
using namespace rc;
using namespace rcx;

// What a command is: an operation and an argument, and an identity.
struct Desc {
  int op = 0;
  int arg = 0;
  bool operator==(const Desc &o) const { return op == o.op && arg == o.arg; }
  bool operator<(const Desc &o) const { return op < o.op || (op == o.op && arg < o.arg); }
};
inline std::ostream &operator<<(std::ostream &os, const Desc &d) { return os << char('a' + d.op) << d.arg; }
using Descs = std::vector<Desc>;
inline std::string show(const Descs &v) {
  std::string out = "[";
  for (size_t i = 0; i < v.size(); i++)
    out += (i ? " " : "") + str(v[i]);
  return out + "]";
}

struct Table {
  uint64_t salt = 0;
  int states = 1, ops = 1;
  unsigned pre = 1; // one in so many combinations is forbidden (1: none)
  bool valid(int state, const Desc &d) const {
    return pre == 1 || hash64(hash64(salt, uint64_t(state)), uint64_t(d.op * 64 + d.arg)) % pre != 0;
  }
  int next(int state, const Desc &d) const {
    return int(hash64(hash64(salt + 1, uint64_t(state)), uint64_t(d.op * 64 + d.arg)) % uint64_t(states));
  }
};
inline Table anyTable(Src &s, bool strict = false) {
  Table t;
  t.salt = s.draw(1000);
  t.states = 1 + int(s.draw(6));
  t.ops = 1 + int(s.draw(3));
  t.pre = unsigned(1 + s.draw(strict ? 1 : 4));
  return t;
}
// Valid sequence from the state; the state afterwards.
inline bool validFrom(const Table &t, int state, const Descs &v, int *end = nullptr) {
  for (auto &d : v) {
    if (!t.valid(state, d))
      return false;
    state = t.next(state, d);
  }
  if (end)
    *end = state;
  return true;
}

struct Model {
  int state = 0;
  std::vector<int> history; // heap allocated, so moves show
};
struct MoveModel : Model {
  MoveModel() = default;
  MoveModel(MoveModel &&) = default;
  MoveModel &operator=(MoveModel &&) = default;
  MoveModel(const MoveModel &) = delete;
  MoveModel &operator=(const MoveModel &) = delete;
};

// The system: remembers what it was told, and may break.
struct Sut {
  struct Step { Desc d; int seen; size_t seenHistory; };
  std::vector<Step> steps;
  int state = 0;
};

template <typename M> struct Cmd : state::Command<M, Sut> {
  Desc d;
  Table t;
  int madeFor; // state given to the generator
  std::function<void(const M &, Sut &, const Desc &)> onRun;
  void checkPreconditions(const M &m) const override { RC_PRE(t.valid(m.state, d)); }
  void apply(M &m) const override {
    m.history.push_back(m.state);
    m.state = t.next(m.state, d);
  }
  void run(const M &m, Sut &sut) const override {
    sut.steps.push_back(Sut::Step{d, m.state, m.history.size()});
    if (onRun)
      onRun(m, sut, d);
    sut.state = t.next(sut.state, d);
  }
  void show(std::ostream &os) const override { os << d; }
};
template <typename M> using Base = state::Command<M, Sut>;
template <typename M> using CmdP = std::shared_ptr<const Base<M>>;

template <typename M> Descs descs(const state::Commands<Base<M>> &cmds) {
  Descs out;
  for (auto &c : cmds)
    out.push_back(static_cast<const Cmd<M> &>(*c).d);
  return out;
}

// Trees of command descriptions, one pool per state.
struct Pools {
  Table t;
  std::vector<std::vector<RoseP<Desc>>> perState;
  unsigned fail = 0, discard = 0; // one draw in so many fails or discards
  struct Call { int state; Random random; int size; RoseP<Desc> tree; };
  std::shared_ptr<std::vector<Call>> calls = std::make_shared<std::vector<Call>>();
  enum What { OK, FAIL, DISCARD };
  What what(const Random &random) const {
    const uint64_t h = hash64(randomKey(random), 5);
    return fail && h % fail == 0 ? FAIL : discard && h / 64 % discard == 0 ? DISCARD : OK;
  }
  RoseP<Desc> at(int state, const Random &random) const {
    const auto &pool = perState[size_t(state)];
    return pool[hash64(randomKey(random), uint64_t(state)) % pool.size()];
  }
};
inline Pools anyPools(Src &s, const Table &t) {
  Pools p;
  p.t = t;
  const bool shared = s.flag();
  for (int i = 0; i < t.states; i++) {
    std::vector<RoseP<Desc>> pool;
    if (shared && i > 0)
      pool = p.perState[0];
    else
      for (size_t k = 0, n = 1 + s.draw(4); k < n; k++) {
        int budget = int(s.draw(4));
        pool.push_back(genRose(s, [&](int) { return Desc{int(s.draw(uint64_t(t.ops - 1))), int(s.draw(5))}; }, budget));
      }
    p.perState.push_back(std::move(pool));
  }
  if (s.draw(3) == 0)
    p.fail = unsigned(2 + s.draw(8));
  if (s.draw(3) == 0)
    p.discard = unsigned(2 + s.draw(8));
  return p;
}
template <typename M> CmdP<M> make(const Table &t, const Desc &d, int madeFor, std::function<void(const M &, Sut &, const Desc &)> onRun = nullptr) {
  auto c = std::make_shared<Cmd<M>>();
  c->d = d;
  c->t = t;
  c->madeFor = madeFor;
  c->onRun = std::move(onRun);
  return c;
}
// The generation function of the library for these pools.
template <typename M> std::function<Gen<CmdP<M>>(const M &)> genFunc(const Pools &p, std::function<void(const M &, Sut &, const Desc &)> onRun = nullptr) {
  return [p, onRun](const M &m) {
    const int state = m.state;
    return Gen<CmdP<M>>([p, state, onRun](const Random &random, int size) -> Shrinkable<CmdP<M>> {
      const auto tree = p.at(state, random);
      p.calls->push_back(Pools::Call{state, random, size, tree});
      switch (p.what(random)) {
      case Pools::FAIL: throw GenerationFailure("generator of commands failed");
      case Pools::DISCARD: throw rc::detail::CaseResult(rc::detail::CaseResult::Type::Discard, "no");
      default:;
      }
      const Table t = p.t;
      return shrinkable::map(toShrinkable<Desc>(tree), [t, state, onRun](const Desc &d) { return make<M>(t, d, state, onRun); });
    });
  };
}
} // namespace machine
