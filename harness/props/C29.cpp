// C29: running commands keeps model and system in lockstep, and a stateful
// check reports divergence.
#include "machine.h"
#include "detail/Testing.h"
#include <rapidcheck/detail/TestListenerAdapter.h>
#include <list>
using namespace machine;
using Type = rc::detail::CaseResult::Type;
namespace {
struct Boom : std::runtime_error {
  using std::runtime_error::runtime_error;
};
enum Fail { BY_FAIL, BY_ASSERT, BY_EXCEPTION, BY_OTHER, BY_DISCARD };
[[noreturn]] void breakNow(Fail how, const std::string &what) {
  switch (how) {
  case BY_FAIL: RC_FAIL(what); break;
  case BY_ASSERT: RC_ASSERT(what.empty()); break;
  case BY_EXCEPTION: throw Boom(what);
  case BY_DISCARD: RC_DISCARD(what); break;
  default:;
  }
  throw int(17);
}
// The steps a run has to take.
std::vector<std::pair<int, size_t>> trace(const Table &t, int start, const Descs &v, size_t history) {
  std::vector<std::pair<int, size_t>> out;
  int st = start;
  for (auto &d : v) {
    out.emplace_back(st, history++);
    st = t.next(st, d);
  }
  return out;
}

template <typename Cmds> void runIt(const Cmds &cmds, const Model &m, Sut &sut, bool byMaker, Src &) {
  if (byMaker)
    state::runAll(cmds, [&] { return m; }, sut);
  else
    state::runAll(cmds, m, sut);
}
template <typename Cmds> bool validIt(const Cmds &cmds, const Model &m, bool byMaker) {
  return byMaker ? state::isValidSequence(cmds, [&] { return m; }) : state::isValidSequence(cmds, m);
}
MoveModel cloneOf(const MoveModel &m) {
  MoveModel x;
  x.state = m.state;
  x.history = m.history;
  return x;
}
template <typename Cmds> void runIt(const Cmds &cmds, const MoveModel &m, Sut &sut, bool, Src &) {
  state::runAll(cmds, [&] { return cloneOf(m); }, sut);
}
template <typename Cmds> bool validIt(const Cmds &cmds, const MoveModel &m, bool) {
  return state::isValidSequence(cmds, [&] { return cloneOf(m); });
}
Model nextOf(const Base<Model> &cmd, const Model &m) { return cmd.nextState(m); }

template <typename M, typename Cmds> void listCase(Src &s, Ctx &c) {
  const Table t = anyTable(s);
  M m;
  m.state = int(s.draw(uint64_t(t.states - 1)));
  for (size_t i = 0, n = s.draw(3); i < n; i++)
    m.history.push_back(int(s.draw(5)));
  const int start = m.state;
  const auto history = m.history;
  // A list that is mostly valid, of any length.
  Descs v;
  const size_t len = s.draw(3) == 0 ? s.draw(200) : s.draw(12);
  const bool repair = s.draw(2) > 0;
  int st = start;
  for (size_t i = 0; i < len; i++) {
    Desc d{int(s.draw(uint64_t(t.ops - 1))), int(s.draw(5))};
    for (int k = 0; repair && !t.valid(st, d) && k < 24; k++)
      d = Desc{(d.op + (d.arg == 5)) % t.ops, (d.arg + 1) % 6};
    v.push_back(d);
    st = t.next(st, d);
  }
  size_t firstInvalid = v.size();
  st = start;
  for (size_t i = 0; i < v.size(); i++) {
    if (!t.valid(st, v[i])) {
      firstInvalid = i;
      break;
    }
    st = t.next(st, v[i]);
  }
  const bool valid = firstInvalid == v.size();
  const size_t bad = s.draw(2) == 0 ? s.draw(v.size()) : v.size() + 1;
  const auto how = Fail(s.draw(4));
  const std::function<void(const M &, Sut &, const Desc &)> hook = [&](const M &, Sut &sut, const Desc &) {
    if (sut.steps.size() == bad + 1)
      breakNow(how, "at this step");
  };
  // The same command object may occur in several places.
  Cmds cmds;
  std::map<Descs, CmdP<M>> shared;
  for (auto &d : v) {
    auto &p = shared[Descs{d}];
    if (!p || s.draw(2))
      p = make<M>(t, d, -1, hook);
    cmds.push_back(p);
  }
  const auto want = trace(t, start, v, history.size());

  // Validity.
  const bool byMaker = s.flag();
  {
    bool got;
    try {
      got = validIt(cmds, m, byMaker);
    } catch (...) {
      c.fail(cat("the validity of ", show(v), " from state ", start, " ended in an exception"));
    }
    REQ_EQ(got, valid, "validity of ", show(v), " from state ", start, " (first invalid ", firstInvalid, ")");
    REQ(m.state == start && m.history == history, "the validity query changed the model");
    if (!v.empty()) {
      const auto &first = **cmds.begin();
      REQ_EQ(state::isValidCommand(first, m), t.valid(start, v[0]), "validity of ", v[0], " in state ", start);
    }
  }
  // Running.
  Sut sut;
  sut.state = start;
  std::string end = "normal";
  try {
    runIt(cmds, m, sut, byMaker, s);
  } catch (const rc::detail::CaseResult &r) {
    end = r.type == Type::Failure ? "failure" : r.type == Type::Discard ? "discard" : "success";
  } catch (const Boom &b) {
    end = cat("boom ", b.what());
  } catch (int i) {
    end = cat("int ", i);
  }
  const size_t stop = std::min(firstInvalid, bad);
  const std::string ends[] = {"failure", "failure", "boom at this step", "int 17", "discard"};
  const bool broke = bad < firstInvalid;
  if (valid || broke)
    REQ_EQ(end, (broke ? ends[how] : std::string("normal")), "end of running ", show(v), " from ", start);
  else
    REQ_EQ(end, std::string("discard"), "end of running ", show(v), " from ", start, ", invalid at ", firstInvalid);
  const size_t steps = broke ? bad + 1 : stop;
  if (valid || broke)
    REQ_EQ(sut.steps.size(), std::min(steps, v.size()), "commands run of ", show(v), " from ", start);
  else
    REQ(sut.steps.size() <= steps, "commands run of ", show(v), " from ", start, ": ", sut.steps.size(), ", invalid at ", firstInvalid);
  for (size_t i = 0; i < sut.steps.size(); i++) {
    REQ_EQ(sut.steps[i].d, v[i], "command run at step ", i, " of ", show(v));
    REQ_EQ(sut.steps[i].seen, want[i].first, "model state shown to step ", i, " of ", show(v), " from ", start);
    REQ_EQ(sut.steps[i].seenHistory, want[i].second, "model history shown to step ", i, " of ", show(v));
  }
  REQ(m.state == start && m.history == history, "running changed the caller's model");
  // Applying.
  if (valid) {
    state::applyAll(cmds, m);
    REQ_EQ(m.state, st, "final model state of ", show(v), " from ", start);
    auto h = history;
    for (auto &w : want)
      h.push_back(w.first);
    REQ(m.history == h, "history of the model of ", show(v), " from ", start);
    if (!broke)
      REQ_EQ(sut.state, m.state, "the system and the model differ after ", show(v));
  }
  c.nontrivial(v.size() > 2 && t.states > 1 && (!valid || broke || v.size() > 8));
  c.label(valid ? broke ? "breaks" : "runs" : "invalid");
  if (c.wantSample())
    c.sample(cat(show(v), " from ", start, " -> ", end, " after ", sut.steps.size()));
}

// Stateful checks. The system diverges when the history of its steps meets a
// condition.
struct Fault {
  uint64_t kind;
  int op, op2, at;
  size_t k;
  bool operator()(const std::vector<std::pair<int, Desc>> &h) const { // states before, commands
    size_t n = 0;
    bool first = false;
    for (auto &x : h) {
      switch (kind) {
      case 0: n += x.second.op == op && x.first == at; break;
      case 1:
        if (first && x.second.op == op2)
          return true;
        first = first || x.second.op == op;
        break;
      case 2: n += 1; break;
      case 3: n += x.second.arg >= 2; break;
      default: return false;
      }
    }
    return kind != 1 && n >= k;
  }
};
Fault anyFault(Src &s, const Table &t) {
  return Fault{s.draw(4), int(s.draw(uint64_t(t.ops - 1))), int(s.draw(uint64_t(t.ops - 1))), int(s.draw(uint64_t(t.states - 1))), 1 + s.draw(s.draw(2) ? 3 : 12)};
}
std::vector<std::pair<int, Desc>> stepsOf(const Table &t, int start, const Descs &v) {
  std::vector<std::pair<int, Desc>> h;
  for (auto &d : v) {
    h.emplace_back(start, d);
    start = t.next(start, d);
  }
  return h;
}
// A prefix of the sequence makes the system diverge.
bool diverges(const Table &t, int start, const Descs &v, const Fault &f, size_t *at = nullptr) {
  std::vector<std::pair<int, Desc>> h;
  for (auto &x : stepsOf(t, start, v)) {
    h.push_back(x);
    if (f(h)) {
      if (at)
        *at = h.size();
      return true;
    }
  }
  return false;
}
void checkState(const Model &m, Sut &sut, const std::function<Gen<CmdP<Model>>(const Model &)> &f, bool byMaker) {
  if (byMaker)
    state::check([m] { return m; }, sut, f);
  else
    state::check(m, sut, f);
}
void checkState(const MoveModel &m, Sut &sut, const std::function<Gen<CmdP<MoveModel>>(const MoveModel &)> &f, bool) {
  const int start = m.state;
  const auto history = m.history;
  state::check([start, history] {
    MoveModel x;
    x.state = start;
    x.history = history;
    return x;
  }, sut, f);
}
Descs parse(const std::string &text, bool *ok) {
  Descs v;
  std::istringstream in(text);
  std::string line;
  *ok = true;
  while (std::getline(in, line)) {
    if (line.size() != 2 || line[0] < 'a' || line[1] < '0' || line[1] > '9') {
      *ok = false;
      return v;
    }
    v.push_back(Desc{line[0] - 'a', line[1] - '0'});
  }
  return v;
}

template <typename M> void checkCase(Src &s, Ctx &c) {
  const Table t = anyTable(s);
  Pools p = anyPools(s, t);
  const Fault fault = anyFault(s, t);
  const int fixed = int(s.draw(uint64_t(t.states - 1)));
  const bool pickStart = s.draw(3) == 0; // the initial state is picked too
  const bool byMaker = s.flag();
  const auto how = Fail(s.draw(3));
  struct Case { int start; Sut sut; bool done = false; };
  std::vector<std::shared_ptr<Case>> cases;
  const std::function<void(const M &, Sut &, const Desc &)> hook = [&](const M &, Sut &sut, const Desc &) {
    std::vector<std::pair<int, Desc>> h;
    for (auto &x : sut.steps)
      h.emplace_back(x.seen, x.d);
    if (fault(h))
      breakNow(how, "diverged");
  };
  const auto f = genFunc<M>(p, hook);
  const auto prop = rc::detail::toProperty([&] {
    auto k = std::make_shared<Case>();
    cases.push_back(k);
    k->start = pickStart ? *gen::inRange(0, t.states) : fixed;
    M m;
    m.state = k->start;
    k->sut.state = k->start;
    checkState(m, k->sut, f, byMaker);
    k->done = true;
  });
  rc::detail::TestParams params;
  params.seed = s.anyBits();
  params.maxSuccess = int(s.draw(20));
  params.maxSize = int(s.draw(c.thorough() ? 60 : 20));
  params.maxDiscardRatio = int(s.draw(4));
  params.disableShrinking = s.draw(3) == 0;
  struct L : rc::detail::TestListenerAdapter {
    std::vector<rc::detail::CaseResult> results;
    std::vector<std::string> shown; // the commands of the passing cases up to the first failure
    bool failed = false;
    void onTestCaseFinished(const rc::detail::CaseDescription &d) override {
      results.push_back(d.result);
      failed = failed || d.result.type == Type::Failure;
      if (!failed) {
        shown.emplace_back("-");
        if (d.result.type == Type::Success && d.example) {
          const auto e = d.example();
          shown.back() = e.empty() ? "none" : e.back().second;
        }
      }
    }
    void onShrinkTried(const rc::detail::CaseDescription &d, bool) override {
      results.push_back(d.result);
    }
  } l;
  const auto result = rc::detail::testProperty(prop, rc::detail::TestMetadata(), params, l);
  // Each case against the model.
  // A failing or last discarded case may be evaluated again for its report;
  // otherwise the cases and the verdicts correspond.
  bool failing = false;
  for (auto &r : l.results)
    failing = failing || r.type == Type::Failure;
  const bool paired = result.template is<rc::detail::SuccessResult>();
  if (paired)
    REQ_EQ(cases.size(), l.results.size(), "cases run and reported");
  bool any = false;
  for (size_t i = 0; i < cases.size(); i++) {
    auto &k = *cases[i];
    Descs v;
    for (auto &x : k.sut.steps)
      v.push_back(x.d);
    REQ(validFrom(t, k.start, v), "case ", i, " ran ", show(v), ", not valid from ", k.start);
    const auto want = trace(t, k.start, v, 0);
    for (size_t j = 0; j < v.size(); j++) {
      REQ_EQ(k.sut.steps[j].seen, want[j].first, "model state shown to step ", j, " of ", show(v), " from ", k.start);
      REQ_EQ(k.sut.steps[j].seenHistory, want[j].second, "model history shown to step ", j, " of ", show(v));
    }
    size_t at = 0;
    const bool bad = diverges(t, k.start, v, fault, &at);
    any = any || bad;
    if (bad)
      REQ_EQ(at, v.size(), "steps run after the divergence of ", show(v));
    REQ(!bad || !k.done, "case ", i, " ran ", show(v), " from ", k.start, " and passed");
    REQ(bad || k.done || v.empty(), "case ", i, " ran ", show(v), " from ", k.start, " and did not pass");
    if (paired)
      REQ_EQ(l.results[i].type == Type::Success, k.done, "verdict of case ", i, ": ", l.results[i]);
    if (i < l.shown.size() && l.results[i].type == Type::Success) { // the whole sequence was run
      bool ok;
      const Descs all = parse(l.shown[i], &ok);
      REQ(ok, "commands of case ", i, " are shown as ", quote(l.shown[i]));
      REQ(show(all) == show(v), "case ", i, " ran ", show(v), " of the sequence ", show(all), " and passed");
    }
  }
  REQ_EQ(result.template is<rc::detail::FailureResult>(), any, "overall ", result);
  REQ_EQ(failing, any, "verdicts of the cases");
  if (any) {
    const auto r = result.template get<rc::detail::FailureResult>();
    const size_t n = pickStart ? 2 : 1;
    REQ_EQ(r.counterExample.size(), n, "entries of the counterexample");
    bool ok;
    const std::string text = r.counterExample.back().second;
    const Descs v = parse(text, &ok);
    REQ(ok, "commands are shown as ", quote(text));
    const int start = pickStart ? std::stoi(r.counterExample[0].second) : fixed;
    REQ(validFrom(t, start, v), "reported sequence ", show(v), " is not valid from ", start);
    size_t at = 0;
    REQ(diverges(t, start, v, fault, &at), "reported sequence ", show(v), " from ", start, " does not diverge");
    REQ(r.description.find(how == BY_ASSERT ? "RC_ASSERT" : how == BY_OTHER ? "" : "diverged") != std::string::npos, "description ", quote(r.description));
    if (!params.disableShrinking) {
      // No single command can be left out.
      for (size_t i = 0; i < v.size(); i++) {
        Descs w = v;
        w.erase(w.begin() + long(i));
        REQ(!validFrom(t, start, w) || !diverges(t, start, w, fault), "command ", i, " can be left out of the reported ", show(v), " from ", start);
      }
      REQ_EQ(at, v.size(), "reported ", show(v), " goes on after the divergence");
    }
    // Running the reported sequence again diverges again.
    std::vector<CmdP<M>> cmds;
    for (auto &d : v)
      cmds.push_back(make<M>(t, d, -1, hook));
    Sut sut;
    sut.state = start;
    M m;
    m.state = start;
    bool threw = false;
    try {
      runIt(cmds, m, sut, true, s);
    } catch (...) {
      threw = true;
    }
    REQ(threw, "running ", show(v), " from ", start, " again passes");
    c.nontrivial(v.size() >= 1 && l.results.size() > 2);
    c.label(params.disableShrinking ? "diverged, not shrunk" : cat("diverged, minimum ", std::min<size_t>(v.size(), 5)));
    if (c.wantSample())
      c.sample(cat("reported ", show(v), " from ", start));
  } else {
    c.label(result.template is<rc::detail::SuccessResult>() ? "success" : "gave up");
    c.nontrivial(cases.size() > 5 && fault.kind < 4);
  }
}
} // namespace

FACET(lists, 3) { listCase<Model, std::vector<CmdP<Model>>>(s, c); }
FACET(lists_list, 1) { listCase<Model, std::list<CmdP<Model>>>(s, c); }
FACET(lists_moveonly, 1) { listCase<MoveModel, std::vector<CmdP<MoveModel>>>(s, c); }
FACET(checks, 4) { checkCase<Model>(s, c); }
FACET(checks_moveonly, 2) { checkCase<MoveModel>(s, c); }

// nextState and the default implementations of a command.
FACET(next, 1) {
  const Table t = anyTable(s);
  Model m;
  m.state = int(s.draw(uint64_t(t.states - 1)));
  for (size_t i = 0, n = s.draw(5); i < n; i++)
    m.history.push_back(int(i));
  const int start = m.state;
  const Desc d{int(s.draw(uint64_t(t.ops - 1))), int(s.draw(5))};
  const auto k = make<Model>(t, d, -1);
  const Model n = nextOf(*k, m);
  REQ_EQ(n.state, t.next(start, d), "next state");
  REQ_EQ(n.history.size(), m.history.size() + 1, "next state");
  REQ_EQ(m.state, start, "the given state changed");
  struct Plain : Base<Model> {} plain;
  Sut sut;
  const Model same = plain.nextState(m);
  REQ(same.state == start && same.history == m.history, "a plain command changes the model");
  REQ(state::isValidCommand(plain, m), "a plain command is not valid");
  plain.run(m, sut);
  REQ(sut.steps.empty(), "a plain command changes the system");
  std::ostringstream os;
  showValue(plain, os);
  REQ(os.str().find("Plain") != std::string::npos, "a plain command is shown as ", os.str());
  std::ostringstream os2;
  showValue(static_cast<const Base<Model> &>(*k), os2);
  REQ_EQ(os2.str(), str(d), "display of a command");
  c.nontrivial(t.states > 1);
}

namespace {
// A command some of whose uses end in a failure that is no unmet precondition.
struct Raising : Cmd<Model> {
  uint64_t salt = 0;
  unsigned one = 1;
  int place = 0; // 0 precondition, 1 apply, 2 neither
  Fail how = BY_FAIL;
  std::shared_ptr<int> raised;
  static bool at(uint64_t salt, unsigned one, int st, const Desc &d) {
    return hash64(hash64(salt, uint64_t(st)), uint64_t(d.op * 64 + d.arg)) % one == 0;
  }
  void maybe(int where, const Model &m) const {
    if (where == place && at(salt, one, m.state, d)) {
      ++*raised;
      breakNow(how, "at this step");
    }
  }
  void checkPreconditions(const Model &m) const override {
    Cmd<Model>::checkPreconditions(m);
    maybe(0, m);
  }
  void apply(Model &m) const override {
    maybe(1, m);
    Cmd<Model>::apply(m);
  }
};
} // namespace

// Failures raised by preconditions, by apply or by the generator of commands
// are no unmet preconditions: they surface.
FACET(raising, 2) {
  const Table t = anyTable(s);
  const uint64_t salt = s.draw(1000);
  const unsigned one = unsigned(s.oneOf({1, 3, 20, 200}));
  const int place = int(s.draw(2));
  const auto how = Fail(s.draw(3));
  const auto raised = std::make_shared<int>(0);
  const auto make1 = [=](const Desc &d) {
    auto k = std::make_shared<Raising>();
    k->d = d;
    k->t = t;
    k->madeFor = -1;
    k->salt = salt;
    k->one = one;
    k->place = place;
    k->how = how;
    k->raised = raised;
    return CmdP<Model>(k);
  };
  Model m;
  m.state = int(s.draw(uint64_t(t.states - 1)));
  const auto how2str = [](const std::function<bool()> &f) -> std::string {
    try {
      return f() ? "true" : "false";
    } catch (const rc::detail::CaseResult &r) {
      return r.type == Type::Failure ? "failure" : r.type == Type::Discard ? "discard" : "success";
    } catch (const Boom &) {
      return "exception";
    } catch (int) {
      return "other";
    }
  };
  static const char *const ends[] = {"failure", "failure", "exception", "other"};
  if (s.flag()) {
    state::Commands<Base<Model>> cmds;
    Descs v;
    int st = m.state;
    for (size_t i = 0, n = s.draw(14); i < n; i++) {
      Desc d{int(s.draw(uint64_t(t.ops - 1))), int(s.draw(5))};
      for (int k = 0; !t.valid(st, d) && k < 24; k++)
        d = Desc{(d.op + (d.arg == 5)) % t.ops, (d.arg + 1) % 6};
      v.push_back(d);
      cmds.push_back(make1(d));
      st = t.next(st, d);
    }
    std::string want = "true", run = "true";
    st = m.state;
    for (auto &d : v) {
      if (!t.valid(st, d)) {
        want = "false";
        run = "discard";
        break;
      }
      if (place < 2 && Raising::at(salt, one, st, d)) {
        want = run = ends[how];
        break;
      }
      st = t.next(st, d);
    }
    const int start = m.state;
    REQ_EQ(how2str([&] { return state::isValidSequence(cmds, m); }), want, "validity of ", show(v), " from ", start);
    Sut sut;
    sut.state = start;
    REQ_EQ(how2str([&] { state::runAll(cmds, m, sut); return true; }), run, "running ", show(v), " from ", start);
    Model moved = m;
    REQ_EQ(how2str([&] { state::applyAll(cmds, moved); return true; }), run, "applying ", show(v), " from ", start);
    if (!v.empty()) {
      const std::string first = !t.valid(start, v[0]) ? "false" : place == 0 && Raising::at(salt, one, start, v[0]) ? ends[how] : "true";
      REQ_EQ(how2str([&] { return state::isValidCommand(*cmds[0], m); }), first, "validity of ", v[0], " in ", start);
    }
    c.nontrivial(v.size() > 1 && want != "true");
    c.label("list " + want);
    return;
  }
  const auto g = [=](const Model &x) -> Gen<CmdP<Model>> {
    const int st = x.state;
    return Gen<CmdP<Model>>([=](const Random &random, int) {
      Random r(random);
      const Desc d{int(r.next() % uint64_t(t.ops)), int(r.next() % 6)};
      if (place == 2 && Raising::at(salt, one, st, d)) {
        ++*raised;
        breakNow(how, "at this step");
      }
      return shrinkable::just(make1(d));
    });
  };
  rc::detail::TestParams p;
  p.seed = s.word();
  p.maxSuccess = 1 + int(s.draw(20));
  p.maxSize = int(s.draw(12));
  p.maxDiscardRatio = 3;
  rc::detail::TestListenerAdapter quiet;
  const bool withArg = s.flag();
  const auto body = [=] {
    Sut sut;
    sut.state = m.state;
    if (withArg)
      *gen::arbitrary<int>();
    state::check(m, sut, g);
  };
  const auto result = rc::detail::testProperty(rc::detail::toProperty(body), rc::detail::TestMetadata(), p, quiet);
  rc::detail::FailureResult f;
  const bool failed = result.match(f);
  REQ_EQ(failed, *raised > 0, *raised, " failures raised by ", place == 0 ? "preconditions" : place == 1 ? "apply" : "the generator", " but the result is ", result);
  if (failed && how != BY_OTHER && how != BY_ASSERT)
    REQ(f.description.find("at this step") != std::string::npos, "the failure is described as ", quote(f.description));
  c.nontrivial(failed && f.numSuccess > 0);
  c.label(failed ? "check fails" : "check does not fail");
}
