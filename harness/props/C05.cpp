// C05: reported counterexamples fail and are locally minimal.
#include "rose.h"
#include <rapidcheck/detail/TestListenerAdapter.h>
#include "detail/Testing.h"
using namespace pbt;
using namespace rc;
using namespace rc::detail;
using namespace rcx;
using Type = CaseResult::Type;

namespace {
struct Recorder : TestListener {
  std::vector<CaseDescription> cases;
  std::vector<std::pair<CaseDescription, bool>> shrinks;
  std::vector<TestResult> finished;
  void onTestCaseFinished(const CaseDescription &d) override { cases.push_back(d); }
  void onShrinkTried(const CaseDescription &d, bool a) override { shrinks.emplace_back(d, a); }
  void onTestFinished(const TestMetadata &, const TestResult &r) override { finished.push_back(r); }
};

struct Node {
  int id;
  Type type;
};
std::ostream &operator<<(std::ostream &os, const Node &n) {
  return os << (n.type == Type::Success ? "s" : n.type == Type::Failure ? "F" : "d") << n.id;
}
CaseDescription describe(const Node &n) {
  CaseDescription d;
  d.result = CaseResult(n.type, cat("node ", n.id));
  const int id = n.id;
  d.example = [id] { return Example{{"id", str(id)}}; };
  return d;
}

// The values the body was run with, most recent last.
struct Runs {
  std::vector<std::vector<int64_t>> runs;
};
} // namespace

// Explicit trees of outcomes: exact path, events and result.
FACET(trees, 5) {
  int next = 0;
  int budget = int(1 + s.draw(80));
  const unsigned failing = unsigned(1 + s.draw(9));
  auto tree = genRose(s, [&](int depth) {
    const uint64_t k = s.draw(9);
    Type t = depth == 0 || k < failing ? Type::Failure : k % 2 ? Type::Discard : Type::Success;
    return Node{next++, t};
  }, budget);

  // Reference descent.
  std::vector<size_t> path;
  std::vector<std::pair<int, bool>> tried;
  RoseP<Node> best = tree;
  for (bool again = true; again;) {
    again = false;
    for (size_t i = 0; i < best->kids.size(); i++) {
      const bool f = best->kids[i]->v.type == Type::Failure;
      tried.emplace_back(best->kids[i]->v.id, f);
      if (f) {
        path.push_back(i);
        best = best->kids[i];
        again = true;
        break;
      }
    }
  }

  const int before = int(s.draw(5));
  TestParams p;
  p.seed = s.word();
  p.maxSuccess = before + 1 + int(s.draw(5));
  p.maxSize = int(s.draw(100));
  p.disableShrinking = s.draw(3) == 0;
  int calls = 0;
  std::vector<std::pair<Random, int>> args;
  const Property prop([&](const Random &r, int size) -> Shrinkable<CaseDescription> {
    args.emplace_back(r, size);
    if (calls++ < before)
      return shrinkable::just(describe(Node{-1, Type::Success}));
    return shrinkable::map(toShrinkable<Node>(tree), &describe);
  });
  Recorder rec;
  const auto result = testProperty(prop, TestMetadata(), p, rec);
  REQ(result.is<FailureResult>(), "tree ", roseStr<Node>(tree), " gave ", result);
  const auto f = result.get<FailureResult>();
  if (p.disableShrinking) {
    path.clear();
    tried.clear();
    best = tree;
  }
  REQ_EQ(f.numSuccess, before, "");
  REQ(f.reproduce.shrinkPath == path, "path ", listStr(f.reproduce.shrinkPath), " expected ",
      listStr(path), " in ", roseStr<Node>(tree));
  REQ_EQ(f.description, cat("node ", best->v.id), "tree ", roseStr<Node>(tree));
  REQ(f.counterExample == (Example{{"id", str(best->v.id)}}), "counterexample in ", result);
  REQ(f.reproduce.random == args.back().first && f.reproduce.size == args.back().second,
      "reproduction state is not the failing case's");
  REQ_EQ(rec.shrinks.size(), tried.size(), "shrink events in ", roseStr<Node>(tree));
  for (size_t i = 0; i < tried.size(); i++) {
    REQ_EQ(rec.shrinks[i].first.result.description, cat("node ", tried[i].first), "event ", i);
    REQ_EQ(rec.shrinks[i].second, tried[i].second, "verdict of event ", i);
  }
  REQ_EQ(rec.finished.size(), size_t(1), "");
  REQ(rec.finished[0] == result, "finish event");
  c.nontrivial(path.size() >= 2 || (tried.size() > path.size() && !path.empty()));
  c.label(p.disableShrinking ? "shrinking disabled" : cat("depth", std::min<size_t>(path.size(), 5)));
  c.sample(cat(roseStr<Node>(tree), " -> ", best->v, " path ", listStr(path)));

  // The separate shrinking entry point agrees.
  Recorder rec2;
  auto sr = shrinkTestCase(shrinkable::map(toShrinkable<Node>(tree), &describe), rec2);
  auto walked = shrinkable::walkPath(shrinkable::map(toShrinkable<Node>(tree), &describe), sr.second);
  REQ(walked && walked->value().result.description == sr.first.value().result.description,
      "returned path does not lead to the returned case");
  REQ(sr.first.value().result.type == Type::Failure, "shrunk to a passing case");
}

namespace {
// Outcomes laid out by rule: many levels or many shrinks of one value. A node
// is on the chain (`off` 0) or a sibling of its next link.
struct Layout {
  uint64_t salt, levels, width, wideAt, wide;
  uint64_t before(uint64_t level) const {
    return level == wideAt ? wide : width ? hash64(salt, level) % (width + 1) : 0;
  }
  uint64_t after(uint64_t level) const { return width ? hash64(salt + 1, level) % (width + 1) : 0; }
  Type sibling(uint64_t level, uint64_t i) const {
    return hash64(hash64(salt + 2, level), i) % 3 ? Type::Success : Type::Discard;
  }
};
struct LinkImpl {
  std::shared_ptr<const Layout> l;
  uint64_t level, off;
  CaseDescription value() const {
    CaseDescription d;
    const std::string name = cat(level, ".", off);
    d.result = CaseResult(off ? l->sibling(level, off) : Type::Failure, name);
    d.example = [name] { return Example{{"at", name}}; };
    return d;
  }
  struct Kids {
    std::shared_ptr<const Layout> l;
    uint64_t level, i;
    bool chain;
    Maybe<Shrinkable<CaseDescription>> operator()() {
      const uint64_t b = chain ? l->before(level) : 0, a = chain ? l->after(level) : 0;
      const uint64_t at = i++;
      if (!chain)
        return at ? Nothing : Maybe<Shrinkable<CaseDescription>>(makeShrinkable<LinkImpl>(LinkImpl{l, level, 0}));
      const bool end = level == l->levels;
      if (at >= b + a + (end ? 0 : 1))
        return Nothing;
      if (at == b && !end)
        return Maybe<Shrinkable<CaseDescription>>(makeShrinkable<LinkImpl>(LinkImpl{l, level + 1, 0}));
      return Maybe<Shrinkable<CaseDescription>>(makeShrinkable<LinkImpl>(LinkImpl{l, level + 1, at + 1}));
    }
  };
  Seq<Shrinkable<CaseDescription>> shrinks() const {
    // Below a shrink that does not fail is one that does, never to be tried.
    return makeSeq<Kids>(Kids{l, level, 0, off == 0});
  }
};
} // namespace

// Long descents and values with many shrinks.
FACET(chains, 2) {
  auto l = std::make_shared<Layout>();
  const bool longer = s.draw(3) == 0;
  l->salt = s.word();
  l->levels = s.length(longer ? 20000 : 1200);
  l->width = s.draw(longer ? 1 : 6);
  l->wideAt = s.below(l->levels + 1);
  l->wide = s.length(longer ? 50000 : 3000);
  TestParams p;
  p.seed = s.word();
  p.maxSuccess = 1 + int(s.draw(5));
  p.maxSize = int(s.draw(100));
  p.disableShrinking = s.draw(9) == 0;
  const Property prop([&](const Random &, int) -> Shrinkable<CaseDescription> {
    return makeShrinkable<LinkImpl>(LinkImpl{l, 0, 0});
  });
  struct Counter : TestListener {
    uint64_t tried = 0, accepted = 0;
    std::string wrong;
    void onTestCaseFinished(const CaseDescription &) override {}
    void onShrinkTried(const CaseDescription &d, bool a) override {
      tried++;
      accepted += a;
      if (a != (d.result.type == Type::Failure))
        wrong = d.result.description;
    }
    void onTestFinished(const TestMetadata &, const TestResult &) override {}
  } count;
  const auto result = testProperty(prop, TestMetadata(), p, count);
  REQ(result.is<FailureResult>(), "gave ", result);
  const auto f = result.get<FailureResult>();
  uint64_t tries = 0;
  const uint64_t levels = p.disableShrinking ? 0 : l->levels;
  const auto &path = f.reproduce.shrinkPath;
  REQ_EQ(path.size(), size_t(levels), "shrinks made; ", l->levels, " levels");
  for (uint64_t i = 0; i < levels; i++) {
    REQ_EQ(path[i], size_t(l->before(i)), "step ", i, " of ", levels);
    tries += l->before(i) + 1;
  }
  if (!p.disableShrinking)
    tries += l->before(levels) + l->after(levels);
  REQ_EQ(f.description, cat(levels, ".0"), "reported after ", levels, " levels");
  REQ(f.counterExample == (Example{{"at", cat(levels, ".0")}}), "counterexample in ", f.description);
  REQ(count.wrong.empty(), "verdict for ", count.wrong);
  REQ_EQ(count.accepted, levels, "accepted shrinks");
  REQ_EQ(count.tried, tries, "tried shrinks with ", levels, " levels");
  // Replaying the way there.
  TestMetadata m;
  m.id = "it";
  Counter quiet;
  std::unordered_map<std::string, Reproduce> map;
  map["it"] = f.reproduce;
  FailureResult g;
  REQ(checkProperty(prop, m, p, quiet, map).match(g), "the replay does not fail");
  REQ_EQ(g.description, f.description, "replayed");
  REQ_EQ(quiet.tried, uint64_t(0), "shrinks tried by a replay");
  c.nontrivial(levels > 100 || l->wide > 1000);
  c.label(levels > 5000 ? "levels > 5000" : levels > 500 ? "levels > 500" : "fewer levels");
  c.count(tries / 16);
  c.sample(cat(levels, " levels, up to ", l->wide, " shrinks, ", tries, " tried"));
}

// The function on which to break is called once for a failing property, right
// before its minimal case is run one last time, and for no other property.
// The linker sends calls of rc::beforeMinimalTestCase here.
namespace {
const int kBreak = -100;
std::vector<int> *marks = nullptr;
}
extern "C" void __wrap__ZN2rc21beforeMinimalTestCaseEv() {
  if (marks)
    marks->push_back(kBreak);
}
FACET(breakpoint, 1) {
  int next = 0;
  int budget = int(1 + s.draw(20));
  auto tree = genRose(s, [&](int depth) {
    const uint64_t k = s.draw(3);
    return Node{next++, depth == 0 || k ? Type::Failure : s.flag() ? Type::Success : Type::Discard};
  }, budget);
  const int kind = int(s.draw(5)); // 0 success, 1 gives up, otherwise failure
  const int before = int(s.draw(4));
  TestParams p;
  p.seed = s.word();
  p.maxSuccess = before + 1 + int(s.draw(3));
  p.maxDiscardRatio = int(s.draw(2));
  p.disableShrinking = s.draw(2) == 0;
  std::vector<int> log;
  int calls = 0;
  const auto describeAndLog = [&log](const Node &n) {
    log.push_back(n.id);
    return describe(n);
  };
  const Property prop([&](const Random &, int) -> Shrinkable<CaseDescription> {
    if (calls++ < before || kind == 0)
      return shrinkable::map(shrinkable::just(Node{-1, Type::Success}), describeAndLog);
    if (kind == 1)
      return shrinkable::map(shrinkable::just(Node{-2, Type::Discard}), describeAndLog);
    return shrinkable::map(toShrinkable<Node>(tree), describeAndLog);
  });
  struct Unset {
    ~Unset() { marks = nullptr; }
  } unset;
  marks = &log;
  TestMetadata m;
  m.id = "it";
  Recorder rec;
  const auto result = checkProperty(prop, m, p, rec, {});
  const auto judge = [&](const TestResult &r) {
    const auto at = std::find(log.begin(), log.end(), kBreak);
    FailureResult f;
    if (!r.match(f)) {
      REQ(at == log.end(), "called for ", r, "; runs ", listStr(log));
      return false;
    }
    REQ(at != log.end(), "not called; runs ", listStr(log));
    REQ(at + 1 != log.end(), "nothing was run after the call; runs ", listStr(log));
    for (auto i = at + 1; i != log.end(); ++i)
      REQ_EQ(cat("node ", *i), f.description, "run or call after the call; runs ", listStr(log));
    return true;
  };
  const bool failed = judge(result);
  REQ_EQ(failed, kind > 1, "gave ", result);
  if (failed) {
    FailureResult f;
    result.match(f);
    log.clear();
    calls = 1000;
    judge(checkProperty(prop, m, p, rec, {{"it", f.reproduce}}));
    // A run that does not lead to a failure is not the minimal case.
    c.nontrivial(!f.reproduce.shrinkPath.empty());
  }
  c.label(kind > 1 ? "failure" : kind ? "gave up" : "success");
  c.sample(cat(roseStr<Node>(tree), ": ", listStr(log)));
}

namespace {
// Bodies over real generators. `run` receives the drawn numbers.
template <typename Body>
void checkReal(Src &s, Ctx &c, const std::string &name, const Body &body,
               std::shared_ptr<Runs> runs,
               const std::function<Type(const std::vector<int64_t> &)> &oracle) {
  TestParams p;
  p.seed = s.anyBits();
  p.maxSuccess = 60;
  p.maxSize = int(s.oneOf({100, 30, 100, 60}));
  p.maxDiscardRatio = 20;
  p.disableShrinking = s.draw(7) == 0;
  Recorder rec;
  const Property prop = toProperty(body);
  const auto result = testProperty(prop, TestMetadata(), p, rec);
  if (!result.is<FailureResult>()) {
    c.label(name + ":no failure");
    for (auto &r : runs->runs)
      REQ(oracle(r) != Type::Failure, "a run on ", listStr(r), " failed but was not reported");
    return;
  }
  const auto f = result.get<FailureResult>();
  REQ(!runs->runs.empty(), "body never ran");
  // The last run of the body is the final case.
  const auto reported = runs->runs.back();
  REQ(oracle(reported) == Type::Failure, "reported counterexample ", listStr(reported),
      " does not fail; ", name);
  // Walk the path again: every step fails.
  auto node = prop(f.reproduce.random, f.reproduce.size);
  REQ(node.value().result.type == Type::Failure, "first failing case does not fail again");
  const auto initial = runs->runs.back();
  for (size_t i : f.reproduce.shrinkPath) {
    auto seq = node.shrinks();
    Maybe<Shrinkable<CaseDescription>> k;
    for (size_t j = 0; j <= i; j++) {
      k = seq.next();
      REQ(k, "path leaves the tree");
    }
    node = *k;
    const auto d = node.value();
    REQ(d.result.type == Type::Failure, "step of the path does not fail");
    REQ(oracle(runs->runs.back()) == Type::Failure, "step of the path does not fail for the oracle: ",
        listStr(runs->runs.back()));
  }
  const auto at = node.value();
  REQ(runs->runs.back() == reported, "path leads to ", listStr(runs->runs.back()), " but ",
      listStr(reported), " was run last");
  REQ_EQ(at.result.description, f.description, "");
  REQ(at.example() == f.counterExample, "counterexample differs from the one at the path's end");
  size_t n = 0;
  if (p.disableShrinking) {
    REQ(f.reproduce.shrinkPath.empty() && rec.shrinks.empty(), "shrunk although disabled");
    REQ(initial == reported, "reported ", listStr(reported), " but first failure was ", listStr(initial));
  } else {
    auto seq = node.shrinks();
    while (auto k = seq.next()) {
      const size_t before = runs->runs.size();
      const auto d = k->value();
      n++;
      REQ(d.result.type != Type::Failure, "an immediate shrink of the reported ", listStr(reported),
          " also fails: ", listStr(runs->runs.back()));
      if (runs->runs.size() > before)
        REQ(oracle(runs->runs.back()) != Type::Failure, "oracle fails on immediate shrink ",
            listStr(runs->runs.back()), " of ", listStr(reported));
    }
    size_t accepted = 0;
    for (auto &e : rec.shrinks) {
      REQ_EQ(e.second, e.first.result.type == Type::Failure, "verdict given to the observer");
      accepted += e.second;
    }
    REQ_EQ(accepted, f.reproduce.shrinkPath.size(), "accepted shrinks");
    REQ(rec.shrinks.size() >= n, "observer missed shrinks");
  }
  c.count(n + f.reproduce.shrinkPath.size());
  c.nontrivial(f.reproduce.shrinkPath.size() >= 2);
  c.label(name);
  c.sample(cat(name, ": ", listStr(initial), " -> ", listStr(reported), " in ",
               f.reproduce.shrinkPath.size(), " steps, ", rec.shrinks.size(), " tried"));
}
} // namespace

FACET(real_bodies, 4) {
  auto runs = std::make_shared<Runs>();
  const int64_t a = int64_t(s.draw(3) ? s.draw(60) : s.draw(5));
  const int64_t b = int64_t(s.draw(20));
  const int64_t m = int64_t(1 + s.draw(6));
  auto run = [runs](const std::vector<int64_t> &v,
                    const std::function<Type(const std::vector<int64_t> &)> &o) {
    runs->runs.push_back(v);
    const Type t = o(v);
    return CaseResult(t, t == Type::Failure ? "failed" : "other");
  };
  switch (s.draw(6)) {
  case 0: { // threshold on a pair with a discard condition
    std::function<Type(const std::vector<int64_t> &)> o = [=](const std::vector<int64_t> &v) {
      if ((v[0] + v[1]) % (m + 1) == m)
        return Type::Discard;
      return v[0] >= a / 4 && v[1] >= b / 2 ? Type::Failure : Type::Success;
    };
    checkReal(s, c, "pair", [=](int x, int y) { return run({x % 10000, y % 10000}, o); }, runs, o);
    break;
  }
  case 1: { // vector sum
    std::function<Type(const std::vector<int64_t> &)> o = [=](const std::vector<int64_t> &v) {
      int64_t sum = 0;
      for (auto x : v)
        sum += x;
      return sum >= a + b ? Type::Failure : Type::Success;
    };
    checkReal(s, c, "vector sum", [=](const std::vector<uint8_t> &v) {
      return run(std::vector<int64_t>(v.begin(), v.end()), o);
    }, runs, o);
    break;
  }
  case 2: { // picks inside the body, later pick depends on an earlier one
    std::function<Type(const std::vector<int64_t> &)> o = [=](const std::vector<int64_t> &v) {
      if (v.size() > 1 && v.back() % (m + 2) == 0)
        return Type::Discard;
      return int64_t(v.size()) > b / 4 && v[0] > a / 10 ? Type::Failure : Type::Success;
    };
    checkReal(s, c, "dependent picks", [=] {
      std::vector<int64_t> v;
      const int n = *gen::inRange(0, 12);
      for (int i = 0; i < n; i++)
        v.push_back(*gen::inRange<int>(0, 20 + n));
      if (v.empty())
        v.push_back(0);
      return run(v, o);
    }, runs, o);
    break;
  }
  case 3: { // duplicates
    std::function<Type(const std::vector<int64_t> &)> o = [=](const std::vector<int64_t> &v) {
      std::set<int64_t> u(v.begin(), v.end());
      return u.size() + size_t(b % 3) < v.size() ? Type::Failure : Type::Success;
    };
    checkReal(s, c, "duplicates", [=] {
      const auto v = *gen::container<std::vector<int>>(gen::inRange(0, 30));
      return run(std::vector<int64_t>(v.begin(), v.end()), o);
    }, runs, o);
    break;
  }
  case 4: { // strings
    std::function<Type(const std::vector<int64_t> &)> o = [=](const std::vector<int64_t> &v) {
      int64_t k = 0;
      for (auto x : v)
        k += (x % (m + 1) == 0);
      return k >= 1 + b % 4 ? Type::Failure : Type::Success;
    };
    checkReal(s, c, "string", [=](const std::string &v) {
      return run(std::vector<int64_t>(v.begin(), v.end()), o);
    }, runs, o);
    break;
  }
  case 5: { // filtered and mapped generators with preconditions
    std::function<Type(const std::vector<int64_t> &)> o = [=](const std::vector<int64_t> &v) {
      if (v[0] == v[1])
        return Type::Discard;
      return v[0] > v[1] + b ? Type::Failure : Type::Success;
    };
    const auto g = gen::map(gen::suchThat(gen::inRange(-50, 200), [=](int x) { return x % m == 0; }),
                            [](int x) { return x * 2; });
    checkReal(s, c, "filtered", [=] {
      const int x = *g;
      const int y = *g;
      return run({x, y}, o);
    }, runs, o);
    break;
  }
  case 6: { // failures by exception and by assertion macros
    std::function<Type(const std::vector<int64_t> &)> o = [=](const std::vector<int64_t> &v) {
      if (v[0] < 0)
        return Type::Discard;
      return v[0] >= a * 3 ? Type::Failure : Type::Success;
    };
    checkReal(s, c, "macros", [=](int16_t x) {
      runs->runs.push_back({x});
      RC_PRE(x >= 0);
      if (x >= a * 3 && x % 3 == 0)
        throw std::runtime_error("thrown");
      RC_ASSERT(x < a * 3);
    }, runs, o);
    break;
  }
  }
}
