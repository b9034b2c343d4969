// C32: result messages state the verdict, counts, counterexample and cause.
#include "rcx.h"
#include <climits>
#include <cmath>
#include <map>
#include "detail/DefaultTestListener.h"
#include "detail/LogTestListener.h"
#include "detail/MulticastTestListener.h"
#include "detail/StringSerialization.h"
#include "detail/Testing.h"
using namespace pbt;
using namespace rc;
using namespace rc::detail;
using Type = CaseResult::Type;

namespace {
// rc::check takes its settings from here.
struct Env {
  Env() { setenv("RC_PARAMS", "seed=11 max_success=12 max_size=20 max_discard_ratio=2", 1); }
} env;

int anyCount(Src &s) {
  switch (s.draw(3)) {
  case 0: return static_cast<int>(s.draw(3));
  case 1: return static_cast<int>(s.draw(200));
  case 2: return INT_MAX - 1 - static_cast<int>(s.draw(2));
  default: return static_cast<int>(s.draw(INT_MAX - 1));
  }
}
std::string anyDesc(Src &s) {
  if (s.draw(20) == 20) { // a long one
    const std::string part = s.ascii(10) + "\n";
    std::string all;
    for (uint64_t n = s.draw(1500); n > 0; n--)
      all += part + std::to_string(n);
    return all;
  }
  switch (s.draw(3)) {
  case 0: return "";
  case 1: return s.ascii(20);
  case 2: return s.ascii(10) + "\n\n" + s.ascii(10) + "\n";
  default: return s.bytes(30);
  }
}
Example anyExample(Src &s) {
  Example e;
  for (uint64_t n = s.draw(1) ? s.draw(4) : s.length(30); n > 0; n--) {
    if (!e.empty() && s.draw(7) == 7) { // like an earlier one
      e.push_back(e[s.below(e.size())]);
      if (s.flag())
        e.back().second += "'";
      continue;
    }
    std::string name = anyDesc(s);
    e.emplace_back(std::move(name), anyDesc(s));
  }
  return e;
}
std::vector<size_t> anyPath(Src &s) {
  std::vector<size_t> p;
  for (uint64_t n = s.draw(2) ? s.draw(3) : s.length(300); n > 0; n--)
    p.push_back(static_cast<size_t>(s.word()));
  return p;
}
FailureResult anyFailure(Src &s) {
  FailureResult f;
  f.numSuccess = anyCount(s);
  f.description = anyDesc(s);
  f.reproduce.random = rcx::anyRandom(s);
  f.reproduce.size = anyCount(s);
  f.reproduce.shrinkPath = anyPath(s);
  f.counterExample = anyExample(s);
  return f;
}

std::string messageOf(const FailureResult &f) {
  const size_t n = f.reproduce.shrinkPath.size();
  std::string t = "Falsifiable after " + std::to_string(static_cast<int64_t>(f.numSuccess) + 1) + " tests";
  if (n > 0)
    t += " and " + std::to_string(n) + (n == 1 ? " shrink" : " shrinks");
  t += "\n\n";
  for (const auto &e : f.counterExample)
    t += e.first + ":\n" + e.second + "\n\n";
  return t + f.description;
}
std::string messageOf(const GaveUpResult &g) {
  return "Gave up after " + std::to_string(g.numSuccess) + " tests\n\n" + g.description;
}
std::string messageOf(const Error &e) { return "Failure: " + e.description + "\n\n"; }

// The lines of a distribution, with ties in any order.
void checkSuccess(Ctx &c, const SuccessResult &r, std::string text) {
  const std::string head = "OK, passed " + std::to_string(r.numSuccess) + " tests";
  REQ(text.substr(0, head.size()) == head, quote(text));
  text = text.substr(head.size());
  if (r.distribution.empty()) {
    REQ(text.empty(), quote(text));
    return;
  }
  // The same percentage computed in another order may round differently.
  using Lines = std::pair<std::string, std::string>;
  std::map<int, std::vector<Lines>, std::greater<int>> want;
  for (const auto &e : r.distribution) {
    const double count = e.second, num = r.numSuccess;
    std::string tags = "% - ";
    for (size_t i = 0; i < e.first.size(); i++)
      tags += (i ? ", " : "") + e.first[i];
    char x[40], y[40];
    std::snprintf(x, sizeof x, "%5.2f", count / num * 100.0);
    std::snprintf(y, sizeof y, "%5.2f", count * 100.0 / num);
    want[e.second].emplace_back(x + tags + "\n", y + tags + "\n");
  }
  REQ(!text.empty() && text[0] == '\n', quote(text));
  size_t at = 1;
  for (auto &group : want) {
    auto &lines = group.second;
    while (!lines.empty()) {
      size_t i = 0;
      for (; i < lines.size(); i++)
        if (text.compare(at, lines[i].first.size(), lines[i].first) == 0 ||
            text.compare(at, lines[i].second.size(), lines[i].second) == 0)
          break;
      REQ(i < lines.size(), "at ", quote(text.substr(at, 60)), " of ", quote(text), " for count ",
          group.first, "; expected for instance ", quote(lines[0].first));
      at = text.find('\n', at) + 1;
      lines.erase(lines.begin() + static_cast<long>(i));
    }
  }
  REQ_EQ(at, text.size(), "text after the distribution: ", quote(text));
}

Distribution anyDist(Src &s, int num) {
  Distribution d;
  if (num == 0)
    return d;
  for (uint64_t n = s.draw(1) ? s.draw(3) : s.length(40); n > 0; n--) {
    Tags tags;
    for (uint64_t k = 1 + s.draw(2); k > 0; k--) {
      std::string t;
      for (uint64_t m = s.draw(6); m > 0; m--)
        t += static_cast<char>('a' + s.draw(5));
      tags.push_back(t);
    }
    d[tags] = static_cast<int>(1 + s.draw(static_cast<uint64_t>(num - 1)));
  }
  return d;
}
} // namespace

FACET(messages, 3) {
  std::ostringstream os;
  if (s.flag())
    os.precision(static_cast<int>(s.draw(9)));
  if (s.flag())
    os.setf(s.flag() ? std::ios::scientific : std::ios::fixed, std::ios::floatfield);
  const auto flags = os.flags();
  const auto prec = os.precision();
  const auto before = os.fill();
  TestResult r = Error("none");
  switch (s.draw(3)) {
  case 0: {
    SuccessResult x;
    x.numSuccess = anyCount(s);
    x.distribution = anyDist(s, x.numSuccess);
    if (s.flag())
      printResultMessage(x, os);
    else
      printResultMessage(r = x, os);
    checkSuccess(c, x, os.str());
    c.nontrivial(x.distribution.size() > 1);
    break;
  }
  case 1: {
    const FailureResult x = anyFailure(s);
    if (s.flag())
      printResultMessage(x, os);
    else
      printResultMessage(r = x, os);
    REQ_EQ(quote(os.str()), quote(messageOf(x)), "");
    c.nontrivial(x.counterExample.size() > 1 || x.reproduce.shrinkPath.size() > 1);
    break;
  }
  case 2: {
    GaveUpResult x;
    x.numSuccess = anyCount(s);
    x.description = anyDesc(s);
    if (s.flag())
      printResultMessage(x, os);
    else
      printResultMessage(r = x, os);
    REQ_EQ(quote(os.str()), quote(messageOf(x)), "");
    c.nontrivial(x.numSuccess > 0);
    break;
  }
  default: {
    const Error x(anyDesc(s));
    printResultMessage(r = x, os);
    REQ_EQ(quote(os.str()), quote(messageOf(x)), "");
    c.nontrivial(!x.description.empty());
  }
  }
  REQ(os.flags() == flags && os.precision() == prec && os.fill() == before,
      "printing a result changed the format of the stream");
  c.sample(os.str());
}

namespace {
struct Event {
  int kind; // 0 case, 1 shrink, 2 finished
  CaseDescription desc;
  bool accepted;
  TestMetadata meta;
  TestResult result;
};
struct Recorder : TestListener {
  std::vector<Event> &log;
  int id;
  std::vector<int> &order;
  Recorder(std::vector<Event> &l, int i, std::vector<int> &o) : log(l), id(i), order(o) {}
  void onTestCaseFinished(const CaseDescription &d) override {
    order.push_back(id);
    log.push_back(Event{0, d, false, TestMetadata(), Error("none")});
  }
  void onShrinkTried(const CaseDescription &d, bool accepted) override {
    order.push_back(id);
    log.push_back(Event{1, d, accepted, TestMetadata(), Error("none")});
  }
  void onTestFinished(const TestMetadata &m, const TestResult &r) override {
    order.push_back(id);
    log.push_back(Event{2, CaseDescription(), false, m, r});
  }
};
bool same(const CaseDescription &a, const CaseDescription &b) {
  return a.result == b.result && a.tags == b.tags &&
         (a.example ? a.example() : Example()) == (b.example ? b.example() : Example());
}
std::string markOf(const Event &e, bool progress, bool shrinking) {
  if (e.kind == 0 && progress) {
    switch (e.desc.result.type) {
    case Type::Success: return ".";
    case Type::Discard: return "x";
    case Type::Failure: return std::string("\nFound failure, shrinking") + (shrinking ? ":\n" : "...\n");
    }
  }
  if (e.kind == 1 && shrinking)
    return e.accepted ? "!" : ".";
  if (e.kind == 2 && (progress || shrinking))
    return "\n";
  return "";
}
TestResult anyResult(Src &s) {
  switch (s.draw(3)) {
  case 0: {
    SuccessResult x;
    x.numSuccess = anyCount(s);
    return x;
  }
  case 1: return anyFailure(s);
  case 2: {
    GaveUpResult x;
    x.numSuccess = anyCount(s);
    return x;
  }
  default: return Error(anyDesc(s));
  }
}
} // namespace

// Any history of events through several listeners behind one.
FACET(listeners, 3) {
  const bool progress = s.flag(), shrinking = s.flag();
  std::ostringstream os;
  std::vector<std::vector<Event>> logs(s.draw(3));
  std::vector<int> order;
  std::string want;
  std::vector<Event> sent;
  {
    MulticastTestListener::Listeners all;
    const size_t at = s.below(logs.size() + 1);
    for (size_t i = 0; i < logs.size(); i++) {
      if (i == at)
        all.emplace_back(new LogTestListener(os, progress, shrinking));
      all.emplace_back(new Recorder(logs[i], static_cast<int>(i), order));
    }
    if (at == logs.size())
      all.emplace_back(new LogTestListener(os, progress, shrinking));
    MulticastTestListener multi(std::move(all));
    TestListener &l = multi;
    for (uint64_t n = s.length(60); n > 0; n--) {
      Event e{static_cast<int>(s.draw(5)), CaseDescription(), s.flag(), TestMetadata(), Error("none")};
      e.kind = e.kind < 3 ? 0 : e.kind < 5 ? 1 : 2;
      e.desc.result = CaseResult(s.oneOf({Type::Success, Type::Discard, Type::Failure}), s.ascii(4));
      e.desc.tags = s.list(3, [&] { return s.ascii(3); });
      const Example ex = s.draw(3) ? Example() : anyExample(s);
      e.desc.example = [ex] { return ex; };
      e.meta.id = s.ascii(3);
      e.meta.description = s.ascii(3);
      if (e.kind == 2)
        e.result = anyResult(s);
      switch (e.kind) {
      case 0: l.onTestCaseFinished(e.desc); break;
      case 1: l.onShrinkTried(e.desc, e.accepted); break;
      default: l.onTestFinished(e.meta, e.result);
      }
      want += markOf(e, progress, shrinking);
      sent.push_back(e);
    }
  }
  REQ_EQ(quote(os.str()), quote(want), "progress ", progress, ", shrinking ", shrinking);
  for (const auto &log : logs) {
    REQ_EQ(log.size(), sent.size(), "events that reached a listener");
    for (size_t i = 0; i < log.size(); i++) {
      const Event &a = sent[i], &b = log[i];
      REQ_EQ(b.kind, a.kind, "event ", i);
      if (a.kind == 2) {
        REQ(a.meta.id == b.meta.id && a.meta.description == b.meta.description, "event ", i);
        REQ(a.result == b.result, "result of event ", i);
      } else {
        REQ(same(a.desc, b.desc), "event ", i);
        REQ(a.kind == 0 || a.accepted == b.accepted, "event ", i);
      }
    }
  }
  for (size_t i = 0; i < order.size(); i++)
    REQ_EQ(static_cast<size_t>(order[i]), i % logs.size(), "order of listeners");
  c.nontrivial(sent.size() > 2 && logs.size() > 1);
  c.sample(want);
}

namespace {
// A property with scripted outcomes and a tree of shrinks below its failure.
struct Node {
  Type type;
  std::vector<std::shared_ptr<Node>> kids;
};
std::shared_ptr<Node> anyNode(Src &s, int depth, Type t) {
  auto n = std::make_shared<Node>();
  n->type = t;
  if (depth < 5)
    for (uint64_t k = s.draw(3); k > 0; k--)
      n->kids.push_back(anyNode(s, depth + 1, s.oneOf({Type::Failure, Type::Success, Type::Discard, Type::Failure})));
  return n;
}
struct NodeImpl {
  std::shared_ptr<Node> n;
  std::string name;
  CaseDescription value() const {
    CaseDescription d;
    d.result = CaseResult(n->type, "because " + name);
    const std::string x = name;
    d.example = [x] { return Example{{"node", x}}; };
    return d;
  }
  struct Kids {
    std::shared_ptr<Node> n;
    std::string name;
    size_t i;
    Maybe<Shrinkable<CaseDescription>> operator()() {
      if (i >= n->kids.size())
        return Nothing;
      i++;
      return makeShrinkable<NodeImpl>(NodeImpl{n->kids[i - 1], name + "." + std::to_string(i - 1)});
    }
  };
  Seq<Shrinkable<CaseDescription>> shrinks() const { return makeSeq<Kids>(Kids{n, name, 0}); }
};
} // namespace

// Whole runs with the default listener: marks, report and reproduction text.
FACET(runs, 3) {
  Configuration config;
  config.verboseProgress = s.flag();
  config.verboseShrinking = s.flag();
  std::ostringstream os;
  std::string want;
  std::unordered_map<std::string, Reproduce> failures;
  size_t tests = 0;
  {
    auto listener = makeDefaultTestListener(config, os);
    for (uint64_t n = 1 + s.draw(3); n > 0; n--) {
      TestParams p;
      p.seed = s.anyBits();
      p.maxSuccess = static_cast<int>(1 + s.draw(8));
      p.maxDiscardRatio = static_cast<int>(s.draw(2));
      p.disableShrinking = s.draw(3) == 0;
      std::vector<std::shared_ptr<Node>> script;
      for (int k = 0; k < 40; k++) {
        const Type t = s.draw(9) == 0 ? Type::Failure : s.draw(2) == 0 ? Type::Discard : Type::Success;
        script.push_back(anyNode(s, t == Type::Failure ? 0 : 9, t));
        if (t == Type::Failure)
          break;
      }
      TestMetadata meta;
      meta.id = s.oneOf({"", "a", "b", "some id", "q\"\\"});
      size_t at = 0;
      std::string mine;
      const Property prop([&](const Random &, int) {
        const size_t i = std::min(at++, script.size() - 1);
        return makeShrinkable<NodeImpl>(NodeImpl{script[i], std::to_string(i)});
      });
      const TestResult r = testProperty(prop, meta, p, *listener);
      tests++;
      // The model: one mark for each case, and each shrink tried.
      int64_t ok = 0, discards = 0;
      size_t i = 0;
      std::string verdict = "success";
      while (ok < p.maxSuccess) {
        const auto node = script[std::min(i, script.size() - 1)];
        i++;
        if (node->type == Type::Success) {
          ok++;
          mine += config.verboseProgress ? "." : "";
        } else if (node->type == Type::Discard) {
          mine += config.verboseProgress ? "x" : "";
          if (++discards > int64_t(p.maxDiscardRatio) * p.maxSuccess) {
            verdict = "gave up";
            break;
          }
        } else {
          verdict = "failure";
          if (config.verboseProgress)
            mine += std::string("\nFound failure, shrinking") +
                    (config.verboseShrinking ? ":\n" : "...\n");
          auto best = node;
          std::string name = std::to_string(i - 1);
          std::vector<size_t> path;
          bool more = !p.disableShrinking;
          while (more) {
            more = false;
            for (size_t k = 0; k < best->kids.size(); k++) {
              const bool fails = best->kids[k]->type == Type::Failure;
              mine += !config.verboseShrinking ? "" : fails ? "!" : ".";
              if (fails) {
                path.push_back(k);
                name += "." + std::to_string(k);
                best = best->kids[k];
                more = true;
                break;
              }
            }
          }
          FailureResult f;
          REQ(r.match(f), "no failure reported");
          REQ(f.reproduce.shrinkPath == path, "path ", listStr(f.reproduce.shrinkPath), " not ",
              listStr(path));
          std::ostringstream msg;
          printResultMessage(r, msg);
          FailureResult expect;
          expect.numSuccess = static_cast<int>(ok);
          expect.description = "because " + name;
          expect.reproduce.shrinkPath = path;
          expect.counterExample = Example{{"node", name}};
          REQ_EQ(quote(msg.str()), quote(messageOf(expect)), "");
          if (!meta.id.empty())
            failures.emplace(meta.id, f.reproduce);
          c.label("failure");
          break;
        }
      }
      std::ostringstream msg;
      printResultMessage(r, msg);
      if (verdict == "success")
        REQ_EQ(msg.str(), "OK, passed " + std::to_string(p.maxSuccess) + " tests", "");
      if (verdict == "gave up")
        REQ_EQ(msg.str(), "Gave up after " + std::to_string(ok) + " tests\n\nbecause " +
                              std::to_string(std::min(i - 1, script.size() - 1)), "");
      want += mine;
      if (config.verboseProgress || config.verboseShrinking)
        want += "\n";
    }
    REQ_EQ(quote(os.str()), quote(want), "marks of ", tests, " runs");
  }
  const std::string tail = os.str().substr(want.size());
  if (failures.empty()) {
    REQ(tail.empty(), "after runs without a failure: ", quote(tail));
  } else {
    const std::string key = "RC_PARAMS=\"reproduce=";
    const size_t at = tail.find(key);
    REQ(at != std::string::npos && tail.size() > at + key.size() + 2 &&
            tail.substr(tail.size() - 2) == "\"\n",
        quote(tail));
    const std::string text = tail.substr(at + key.size(), tail.size() - 2 - at - key.size());
    std::unordered_map<std::string, Reproduce> got;
    try {
      got = configFromString("reproduce=" + text).reproduce;
    } catch (const std::exception &e) {
      c.fail(cat("reproduction text ", quote(text), " not accepted: ", e.what()));
    }
    REQ(got == failures, "reproduction text does not hold the first failure of each property");
  }
  c.nontrivial(want.size() > 5);
  c.sample(os.str());
}

namespace {
// One pick of a body: what it is called, and what comes of it.
struct Pick {
  std::string name;
  int kind; // 0, 1: a value; 2, 3, 4: thrown while generating; 5: by the value
  int value;
  std::string text;
  Gen<int> gen() const {
    const Pick p = *this;
    Gen<int> g = [&]() -> Gen<int> {
      switch (p.kind) {
      case 0: return gen::just(p.value);
      case 1: return Gen<int>([p](const Random &, int) { return shrinkable::just(p.value); });
      case 5: return Gen<int>([p](const Random &, int) {
          return shrinkable::lambda([p]() -> int { throw std::logic_error(p.text); });
        });
      default: return Gen<int>([p](const Random &, int) -> Shrinkable<int> {
          if (p.kind == 2)
            throw GenerationFailure(p.text);
          if (p.kind == 3)
            throw std::runtime_error(p.text);
          throw p.value;
        });
      }
    }();
    return name.empty() ? g : g.as(name);
  }
  std::pair<std::string, std::string> entry() const {
    switch (kind) {
    case 0: case 1: return {name.empty() ? "int" : name, std::to_string(value)};
    case 2: return {"Generation failed", text};
    case 3: case 5: return {"Exception while generating", text};
    default: return {"Unknown exception", "<\?\?\?>"};
    }
  }
};
// What an exception leaves; nothing behind a NUL of its text.
std::string anyText(Src &s) {
  return s.flag() ? s.ascii(12) : s.oneOf<std::string>({"", "a", "two\nlines\n", "100%", "?"});
}
std::string anyName(Src &s) {
  switch (s.draw(4)) {
  case 0: return "";
  case 1: return std::string(1, static_cast<char>(1 + s.draw(126)));
  case 2: return s.ascii(12);
  case 3: return std::string(1 + s.draw(200), static_cast<char>('a' + s.draw(25)));
  default: return s.oneOf<std::string>({"int", "a:\nb", "Generation failed", " ", "x\n\n", std::string("n\0l", 3)});
  }
}
} // namespace

// The entries of a counterexample: each pick in order under its name, or its
// type, with its value, or with what kept it from being generated.
FACET(entries, 2) {
  const bool args = s.draw(2) == 0;
  const bool last = s.flag(); // whether an exception ends the body
  const std::vector<Pick> picks = s.list(s.flag() ? 4 : 40, [&] {
    Pick p;
    p.name = anyName(s);
    p.kind = s.draw(1) ? 0 : static_cast<int>(s.draw(5));
    p.value = static_cast<int>(s.word());
    p.text = anyText(s);
    return p;
  });
  Example want;
  auto how = CaseResult(Type::Failure, "the end");
  for (const auto &p : picks) {
    want.push_back(p.entry());
    if (p.kind > 1 && last) {
      how = p.kind == 2 ? CaseResult(Type::Discard, "Generation failed with message:\n" + p.text)
            : p.kind == 4 ? CaseResult(Type::Failure, "Unknown object thrown")
                          : CaseResult(Type::Failure, "Exception thrown with message:\n" + p.text);
      break;
    }
  }
  const auto body = [=] {
    for (const auto &p : picks) {
      if (last) {
        const int x = *p.gen();
        RC_ASSERT(x == p.value);
        continue;
      }
      try {
        const int x = *p.gen();
        RC_ASSERT(p.kind < 2 && x == p.value);
      } catch (const GenerationFailure &) {
        RC_ASSERT(p.kind == 2);
      } catch (const std::exception &) {
        RC_ASSERT(p.kind == 3 || p.kind == 5);
      } catch (int x) {
        RC_ASSERT(p.kind == 4 && x == p.value);
      }
    }
    RC_FAIL("the end");
  };
  const auto withArgs = [=](bool b, uint8_t) {
    (void)b;
    body();
  };
  const Property prop = args ? toProperty(withArgs) : toProperty(body);
  const Random random = rcx::anyRandom(s);
  const auto sh = prop(random, static_cast<int>(s.draw(100)));
  for (int again = 0; again < 2; again++) {
    const CaseDescription d = sh.value();
    Example got = d.example();
    if (args) {
      REQ(!got.empty(), "no entry for the arguments");
      REQ(got[0].first == "std::tuple<bool, unsigned char>", "arguments are called ", quote(got[0].first));
      REQ(got[0].second.substr(0, 1) == "(" && got[0].second.back() == ')', "arguments shown as ", quote(got[0].second));
      got.erase(got.begin());
    }
    REQ_EQ(got.size(), want.size(), "entries; expected ", toString(want), " got ", toString(got));
    for (size_t i = 0; i < got.size(); i++) {
      REQ_EQ(quote(got[i].first), quote(want[i].first), "label of entry ", i);
      REQ_EQ(quote(got[i].second), quote(want[i].second), "value of entry ", i);
    }
    REQ(d.result.type == how.type, "verdict ", d.result, " expected ", how);
    REQ(d.result.description.find(how.description) != std::string::npos, "description ", d.result);
    const Example anew = d.example();
    REQ(args || anew == got, "the entries asked for again differ: ", toString(anew));
  }
  c.nontrivial(want.size() > 2);
  c.label(how.type == Type::Discard ? "discard" : "failure");
  c.sample(toString(want));
}

// rc::check: true exactly for success, with the report on standard error.
FACET(check, 2) {
  static const char *const names[] = {"", "one", "two words", "q\"\\"};
  const std::string name = names[s.draw(3)];
  const bool named = s.flag();
  const int mode = static_cast<int>(s.draw(6));
  const int limit = static_cast<int>(s.draw(12));
  const auto body = [=](const std::vector<int> &v, int x) {
    switch (mode) {
    case 0: RC_ASSERT(static_cast<int>(v.size()) <= limit); break;
    case 1: RC_PRE(x != x); break;
    case 2:
      if (x > limit)
        throw std::runtime_error("thrown " + std::to_string(limit));
      break;
    case 3: RC_TAG(x > limit ? "more" : "less"); break;
    case 4:
      if (static_cast<int>(v.size()) > limit)
        RC_DISCARD("too long");
      break;
    case 5: RC_CLASSIFY(v.empty(), x); break;
    default: RC_SUCCEED("enough");
    }
  };
  TestMetadata meta;
  if (named)
    meta.id = meta.description = name;
  // What the run comes to, and its report, by the parts checked elsewhere.
  std::ostringstream sink;
  TestParams params = configuration().testParams;
  const bool plain = configuration().reproduce.empty() && params.seed == 11 && params.maxSuccess == 12;
  REQ(plain, "settings not taken from the environment");
  const auto quiet = makeDefaultTestListener(Configuration(), sink);
  TestMetadata none;
  const TestResult expected = testProperty(toProperty(body), none, params, *quiet);
  std::ostringstream report;
  if (named && !name.empty())
    report << "\n- " << name << "\n";
  printResultMessage(expected, report);
  report << "\n";
  std::ostringstream cerr;
  auto *const old = std::cerr.rdbuf(cerr.rdbuf());
  bool ok;
  try {
    ok = named ? rc::check(name, body) : rc::check(body);
  } catch (...) {
    std::cerr.rdbuf(old);
    throw;
  }
  std::cerr.rdbuf(old);
  SuccessResult success;
  const bool succeeds = expected.match(success);
  REQ_EQ(ok, succeeds, cerr.str());
  REQ_EQ(quote(cerr.str()), quote(report.str()), "");
  REQ_EQ(ok, cerr.str().find("OK, passed 12 tests") != std::string::npos, cerr.str());
  // Outcomes known beforehand.
  if (mode == 1)
    REQ(!ok && cerr.str().find("Gave up after 0 tests") != std::string::npos, cerr.str());
  if (mode == 3 || mode >= 5)
    REQ(ok, cerr.str());
  c.nontrivial(!ok || !success.distribution.empty());
  c.label(ok ? "success" : "no success");
  c.sample(cerr.str());
}
