// C04: the test loop against an independent model of its documented accounting.
#include "rcx.h"
#include <climits>
#include <map>
#include <rapidcheck/detail/TestListenerAdapter.h>
#include "detail/Testing.h"
using namespace pbt;
using namespace rc;
using namespace rc::detail;
using Type = CaseResult::Type;

namespace {
struct Step {
  Type type;
  Tags tags;
};
struct Call {
  Random random;
  int size;
  int values = 0;
};
std::string nameOf(Type t) {
  return t == Type::Success ? "success" : t == Type::Failure ? "failure" : "discard";
}

// A property whose i-th case has the i-th outcome of a script. Cases after the
// end of the script repeat the last outcome given by `tail`.
struct Script {
  std::vector<Step> steps;
  Step tail;
  std::vector<Call> calls;
  Step at(size_t i) const { return i < steps.size() ? steps[i] : tail; }
};

Property scripted(std::shared_ptr<Script> script) {
  return Property([=](const Random &random, int size) {
    const size_t i = script->calls.size();
    script->calls.push_back(Call{random, size, 0});
    return shrinkable::lambda([=] {
      script->calls[i].values++;
      const Step st = script->at(i);
      CaseDescription d;
      d.result = CaseResult(st.type, cat("case ", i, " ", nameOf(st.type)));
      d.tags = st.tags;
      d.example = [i] { return Example{{"case", str(i)}}; };
      return d;
    });
  });
}

struct Recorder : TestListener {
  std::vector<CaseDescription> cases;
  int shrinks = 0;
  std::vector<std::pair<TestMetadata, TestResult>> finished;
  void onTestCaseFinished(const CaseDescription &d) override {
    cases.push_back(d);
    if (!finished.empty())
      late = true;
  }
  void onShrinkTried(const CaseDescription &, bool) override { shrinks++; }
  void onTestFinished(const TestMetadata &m, const TestResult &r) override {
    finished.emplace_back(m, r);
  }
  bool late = false;
};

// The documented size of the case that would become success number i.
int64_t modelSize(const TestParams &p, int64_t i) {
  const int64_t n = int64_t(p.maxSize) + 1;
  const int64_t regular = (p.maxSuccess / n) * n;
  if (i < regular)
    return i % n;
  const int64_t rest = p.maxSuccess - regular;
  return rest == 1 ? 0 : ((i - regular) * int64_t(p.maxSize)) / (rest - 1);
}

std::string show(const TestParams &p) {
  std::ostringstream os;
  os << p;
  return os.str();
}

// Runs the script and compares everything observable with the model.
void runAndCompare(Src &s, Ctx &c, const TestParams &params, std::shared_ptr<Script> script) {
  Recorder rec;
  TestMetadata meta;
  meta.id = s.flag() ? "" : s.ascii(8);
  meta.description = s.ascii(8);
  const Property prop = scripted(script);
  const TestResult result = s.flag()
      ? testProperty(prop, meta, params, rec)
      : checkProperty(prop, meta, params, rec, std::unordered_map<std::string, Reproduce>());

  // Model.
  int64_t succ = 0, disc = 0, recent = 0;
  Distribution dist;
  Random r(params.seed);
  size_t i = 0;
  enum { SUCCESS, FAILURE, GAVEUP } verdict = SUCCESS;
  int64_t lastSize = 0;
  Random lastRandom;
  while (succ < params.maxSuccess) {
    const int64_t size = std::min<int64_t>(INT_MAX, modelSize(params, succ) + recent / 10);
    const Random random = r.split();
    REQ(i < script->calls.size(), "stopped after ", script->calls.size(), " cases with ", succ,
        " successes and ", disc, " discards; ", show(params));
    REQ_EQ(int64_t(script->calls[i].size), size, "size of case ", i, " (successes so far ", succ,
           ", recent discards ", recent, "); ", show(params));
    REQ(script->calls[i].random == random, "case ", i, " does not use its split of the seeded stream");
    lastSize = size;
    lastRandom = random;
    const Step st = script->at(i);
    i++;
    if (st.type == Type::Success) {
      REQ_EQ(script->calls[i - 1].values, 1, "evaluations of case ", i - 1);
      succ++;
      recent = 0;
      if (!st.tags.empty())
        dist[st.tags]++;
    } else if (st.type == Type::Discard) {
      disc++;
      recent++;
      if (disc > int64_t(params.maxDiscardRatio) * int64_t(params.maxSuccess)) {
        verdict = GAVEUP;
        break;
      }
      REQ_EQ(script->calls[i - 1].values, 1, "evaluations of discarded case ", i - 1);
    } else {
      verdict = FAILURE;
      break;
    }
  }
  REQ_EQ(script->calls.size(), i, "number of cases run; verdict ", int(verdict), " ", show(params));
  // Distinct streams.
  for (size_t k = 1; k < std::min<size_t>(i, 50); k++)
    REQ(!(script->calls[k].random == script->calls[k - 1].random), "cases share a random state");

  // Verdict.
  const std::string lastDesc = i ? cat("case ", i - 1, " ", nameOf(script->at(i - 1).type)) : "";
  if (verdict == SUCCESS) {
    SuccessResult e;
    e.numSuccess = int(succ);
    e.distribution = dist;
    REQ(result.is<SuccessResult>(), "verdict: ", result, " expected ", e);
    REQ_EQ(result.get<SuccessResult>().numSuccess, e.numSuccess, "");
    REQ(result.get<SuccessResult>().distribution == dist, "distribution of ", result, " expected ", e);
  } else if (verdict == GAVEUP) {
    REQ(result.is<GaveUpResult>(), "verdict: ", result, " expected to give up after ", succ);
    REQ_EQ(result.get<GaveUpResult>().numSuccess, int(succ), "");
    REQ_EQ(result.get<GaveUpResult>().description, lastDesc, "");
  } else {
    REQ(result.is<FailureResult>(), "verdict: ", result, " expected failure after ", succ);
    const auto &f = result.get<FailureResult>();
    REQ_EQ(f.numSuccess, int(succ), "");
    REQ_EQ(f.description, lastDesc, "");
    REQ(f.reproduce.random == lastRandom, "reproduction state of the failing case");
    REQ_EQ(int64_t(f.reproduce.size), lastSize, "reproduction size");
    REQ(f.reproduce.shrinkPath.empty(), "path of an unshrinkable case");
    REQ(f.counterExample == (Example{{"case", str(i - 1)}}), "counterexample ", result);
  }
  // Listener.
  REQ_EQ(rec.cases.size(), i, "case events");
  for (size_t k = 0; k < i; k++) {
    REQ(rec.cases[k].result == CaseResult(script->at(k).type, cat("case ", k, " ", nameOf(script->at(k).type))),
        "event of case ", k);
    REQ(rec.cases[k].tags == script->at(k).tags, "tags in event of case ", k);
  }
  REQ_EQ(rec.shrinks, 0, "shrink events without shrinks");
  REQ_EQ(rec.finished.size(), size_t(1), "finish events");
  REQ(!rec.late, "case event after the finish event");
  REQ(rec.finished[0].first == meta, "metadata in finish event");
  REQ(rec.finished[0].second == result, "result in finish event");

  if (c.wantSample())
    c.sample(cat(show(params), " cases=", i, " successes=", succ, " discards=", disc, " verdict=",
                 verdict == SUCCESS ? "success" : verdict == FAILURE ? "failure" : "gave up",
                 " tags=", dist.size()));
  c.label(verdict == SUCCESS ? "success" : verdict == FAILURE ? "failure" : "gaveup");
  c.count(i);
}

Tags anyTags(Src &s) {
  static const std::vector<std::string> names{"a", "b", "ab", "", "x y"};
  if (s.draw(2) == 0)
    return Tags();
  return s.list(3, [&] { return s.pick(names); });
}

std::shared_ptr<Script> anyScript(Src &s, const TestParams &p, size_t maxLen) {
  auto script = std::make_shared<Script>();
  // Phases with their own discard probability, so that long runs of discards,
  // isolated discards and exhausted discard budgets all occur.
  const size_t phases = 1 + s.draw(4);
  for (size_t k = 0; k < phases && script->steps.size() < maxLen; k++) {
    const unsigned discards = s.oneOf({0u, 1u, 5u, 9u, 10u});
    const size_t len = 1 + s.length(maxLen / phases);
    for (size_t j = 0; j < len; j++) {
      Step st{Type::Success, {}};
      if (discards && s.draw(9) >= 10 - discards)
        st.type = Type::Discard;
      st.tags = anyTags(s);
      script->steps.push_back(st);
    }
  }
  if (s.draw(3) == 0)
    script->steps.push_back(Step{Type::Failure, anyTags(s)});
  const uint64_t tail = s.draw(9);
  script->tail = Step{tail < 6 ? Type::Success : tail < 9 ? Type::Discard : Type::Failure, anyTags(s)};
  (void)p;
  return script;
}
} // namespace

FACET(script, 5) {
  TestParams p;
  p.seed = s.word();
  p.maxSuccess = int(s.draw(3) ? s.draw(60) : s.draw(400));
  p.maxSize = int(s.draw(2) ? s.draw(30) : s.draw(150));
  p.maxDiscardRatio = int(s.draw(6));
  p.disableShrinking = s.flag();
  auto script = anyScript(s, p, 300);
  bool disc = false, succ = false;
  for (auto &st : script->steps) {
    disc |= st.type == Type::Discard;
    succ |= st.type == Type::Success;
  }
  c.nontrivial(disc && succ && p.maxSuccess > 1);
  runAndCompare(s, c, p, script);
}

// Long runs of discards make the size grow by one per ten of them, and the
// count of recent discards starts again at every success.
FACET(discard_growth, 2) {
  TestParams p;
  p.seed = s.word();
  p.maxSuccess = int(1 + s.draw(20));
  p.maxSize = int(s.draw(100));
  p.maxDiscardRatio = int(5 + s.draw(100));
  auto script = std::make_shared<Script>();
  const int groups = int(1 + s.draw(8));
  for (int g = 0; g < groups; g++) {
    const size_t n = s.oneOf({0, 9, 10, 11, 19, 20, 21, 35, 100}) + s.draw(2);
    for (size_t k = 0; k < n; k++)
      script->steps.push_back(Step{Type::Discard, {}});
    for (uint64_t k = 1 + s.draw(1); k > 0; k--)
      script->steps.push_back(Step{Type::Success, {}});
  }
  script->tail = Step{s.flag() ? Type::Success : Type::Discard, {}};
  c.nontrivial();
  runAndCompare(s, c, p, script);
}

// Extreme settings: the run is cut short by a failure.
FACET(extreme_params, 2) {
  auto huge = [&]() -> int {
    switch (s.draw(4)) {
    case 0: return INT_MAX - int(s.draw(3));
    case 1: return int(s.draw(INT_MAX));
    case 2: return int(s.draw(70000));
    case 3: return int((1u << s.draw(30)) - s.draw(1));
    default: return int(s.draw(50));
    }
  };
  TestParams p;
  p.seed = s.word();
  p.maxSuccess = huge();
  p.maxSize = huge();
  p.maxDiscardRatio = huge();
  auto script = anyScript(s, p, 60);
  script->steps.push_back(Step{Type::Failure, {}});
  c.nontrivial(p.maxSuccess > 1000 || p.maxSize > 1000);
  runAndCompare(s, c, p, script);
}

// Full discard-free runs, judged by the wording of the documentation alone.
FACET(size_spread, 1) {
  TestParams p;
  p.seed = s.word();
  p.maxSuccess = int(s.draw(3) ? s.draw(300) : s.draw(3000));
  p.maxSize = int(s.draw(120));
  auto script = std::make_shared<Script>();
  script->tail = Step{Type::Success, {}};
  Recorder rec;
  testProperty(scripted(script), TestMetadata(), p, rec);
  REQ_EQ(int(script->calls.size()), p.maxSuccess, "");
  const int n = p.maxSize + 1;
  std::map<int, int> seen;
  for (auto &k : script->calls) {
    REQ(k.size >= 0 && k.size <= p.maxSize, "size ", k.size, " with ", show(p));
    seen[k.size]++;
  }
  if (p.maxSuccess > 0)
    REQ_EQ(script->calls[0].size, 0, "first size; ", show(p));
  for (int z = 0; z <= p.maxSize; z++)
    REQ(seen[z] >= p.maxSuccess / n && seen[z] <= p.maxSuccess / n + 1 , "size ", z, " used ", seen[z],
        " times; ", show(p));
  const int rest = p.maxSuccess % n;
  for (int k = p.maxSuccess - rest + 1; k < p.maxSuccess; k++) {
    const int d = script->calls[k].size - script->calls[k - 1].size;
    REQ(d >= 1 && d <= p.maxSize / std::max(1, rest - 1) + 1, "step ", d, " at case ", k, "; ", show(p));
  }
  if (p.maxSuccess > 0 && rest != 1)
    REQ_EQ(script->calls.back().size, p.maxSize, "last size; ", show(p));
  c.nontrivial(p.maxSuccess > 2 && rest != 0);
  c.sample(cat(show(p), " distinct sizes=", seen.size()));
}
