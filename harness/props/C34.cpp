#include "C34.h"
#include "detail/StringSerialization.h"
#include <algorithm>
#include <map>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
using namespace pbt;
using namespace rc::detail;

namespace c34 {
Plan plans[4];
int current = 0;
std::vector<std::string> events;
void (*expectFail)(int x) = nullptr;

bool body(int x, std::size_t n) {
  const Plan &p = plans[current];
  const auto say = [&](char outcome) { events.push_back(cat("B", current, ":", x, ":", n, ":", outcome)); };
  if (p.disc && x % p.mod == 0) {
    say('D');
    if (p.disc == 1)
      RC_PRE(false);
    RC_DISCARD("not this one");
  }
  switch (p.tag) {
  case 0: break;
  case 1: RC_TAG(x % 2 == 0); break;
  case 2: RC_TAG(std::string("same")); break;
  case 3:
    if (x % 5 == 3)
      RC_TAG(x);
    break;
  default:
    RC_TAG(x, n);
    RC_TAG(std::string());
    break;
  }
  if (p.fail && (x >= p.thr || int(n) >= p.thr + 3)) {
    say('F');
    switch (p.fail) {
    case 1: RC_FAIL("bad value");
    case 2: throw std::runtime_error("bad value thrown");
    case 3: RC_ASSERT(x < p.thr && int(n) < p.thr + 3);
    case 4: throw Fatal();
    case 5: return false;
    default: expectFail(std::max(x, int(n))); return true;
    }
  }
  say('S');
  return true;
}
void inSetUp() {
  if (plans[current].pickInSetUp)
    events.push_back(cat("picked ", *rc::gen::inRange(0, 1000)));
}
void inTearDown(int x) {
  if (plans[current].tearDown && x >= plans[current].tearDown) {
    events.push_back("teardown fails");
    RC_FAIL("bad tear-down");
  }
}

const std::vector<Entry> &variants() {
  static const std::vector<Entry> v{
      {"gtest", "Plain.NoArgs", "Plain/NoArgs", 0, 0},
      {"gtest", "Plain.One", "Plain/One", 1, 0},
      {"gtest", "Plain.Two", "Plain/Two", 2, 0},
      {"gtest", "Plain.Text", "Plain/Text", 3, 0},
      {"gtest", "Fix_RapidCheck.NoArgs", "Fix_RapidCheck/NoArgs", 0, 1},
      {"gtest", "Fix_RapidCheck.One", "Fix_RapidCheck/One", 1, 1},
      {"gtest", "Fix_RapidCheck.Two", "Fix_RapidCheck/Two", 2, 1},
      {"gtest", "TypedFix/0.One", "TypedFix/0/One", 1, 1},
      {"gtest", "TypedFix/1.One", "TypedFix/1/One", 3, 1},
      {"boost", "Plain/NoArgs", "Plain/NoArgs", 0, 0},
      {"boost", "Plain/One", "Plain/One", 1, 0},
      {"boost", "Plain/Two", "Plain/Two", 2, 0},
      {"boost", "Plain/Text", "Plain/Text", 3, 0},
      {"boost", "Fixed/NoArgs", "Fixed/NoArgs", 0, 2},
      {"boost", "Fixed/One", "Fixed/One", 1, 2},
      {"boost", "Fixed/Two", "Fixed/Two", 2, 2},
      {"catch", "NoArgs", nullptr, 0, 0},
      {"catch", "One", nullptr, 1, 0},
      {"catch", "Two", nullptr, 2, 0},
      {"catch", "Text", nullptr, 3, 0},
      {"catch", "Several", nullptr, 1, 0, 3},
      {"doctest", "NoArgs", nullptr, 0, 0},
      {"doctest", "One", nullptr, 1, 0},
      {"doctest", "Two", nullptr, 2, 0},
      {"doctest", "Text", nullptr, 3, 0},
      {"doctest", "Several", nullptr, 1, 0, 3},
  };
  return v;
}

namespace {
// The same property without an adapter or a fixture class.
struct Around {
  int fixture;
  template <typename F> void operator()(F f) const {
    int last = 0;
    if (fixture == 1)
      inSetUp();
    try {
      f(last);
    } catch (...) {
      if (fixture == 1)
        try {
          inTearDown(last);
        } catch (...) {
        }
      throw;
    }
    if (fixture == 1)
      inTearDown(last);
  }
};
TestResult reference(const Entry &v) {
  TestMetadata m;
  if (v.id)
    m.id = v.id;
  const Around around{v.fixture};
  const auto run = [](int x, std::size_t n, int &last) {
    last = x;
    return body(x, n);
  };
  const bool returns = !v.id; // what the tests of Catch and doctest do
  switch (v.args) {
  case 0:
    if (returns)
      return checkTestable([] {
        const int x = *rc::gen::arbitrary<int>();
        const auto vec = *rc::gen::arbitrary<std::vector<int>>();
        return body(x, vec.size());
      }, m);
    return checkTestable([=] {
      around([&](int &last) {
        const int x = *rc::gen::arbitrary<int>();
        const auto vec = *rc::gen::arbitrary<std::vector<int>>();
        run(x, vec.size(), last);
      });
    }, m);
  case 1:
    return returns ? checkTestable([](int x) { return body(x, 0); }, m)
                   : checkTestable([=](int x) { around([&](int &last) { run(x, 0, last); }); }, m);
  case 2:
    return returns ? checkTestable([](int x, const std::vector<int> &vec) { return body(x, vec.size()); }, m)
                   : checkTestable([=](int x, const std::vector<int> &vec) { around([&](int &last) { run(x, vec.size(), last); }); }, m);
  default:
    return returns ? checkTestable([](std::string s) { return body(int(s.size()), 0); }, m)
                   : checkTestable([=](const std::string &s) { around([&](int &last) { run(int(s.size()), 0, last); }); }, m);
  }
}
std::string message(const TestResult &r) {
  std::ostringstream os;
  printResultMessage(r, os);
  return os.str();
}

// Runs f in a child with the given configuration; returns what f returned.
template <typename F> std::string forked(Ctx &c, const std::string &params, F f) {
  int fd[2];
  REQ(pipe(fd) == 0, "pipe");
  const int err = memfd_create("stderr", 0);
  const pid_t pid = fork();
  REQ(pid >= 0, "fork");
  if (pid == 0) {
    close(fd[0]);
    alarm(120);
    setenv("RC_PARAMS", params.c_str(), 1);
    dup2(err, 2);
    dup2(open("/dev/null", O_WRONLY), 1);
    std::string out;
    try {
      out = f();
    } catch (const std::exception &e) {
      out = cat("!left by ", e.what());
    } catch (...) {
      out = "!left by an exception";
    }
    for (size_t at = 0; at < out.size();) {
      const ssize_t k = write(fd[1], out.data() + at, out.size() - at);
      if (k <= 0)
        break;
      at += size_t(k);
    }
    _exit(0);
  }
  close(fd[1]);
  std::string got;
  char buf[4096];
  for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;)
    got.append(buf, size_t(k));
  close(fd[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  std::string log;
  lseek(err, 0, SEEK_SET);
  for (ssize_t k; (k = read(err, buf, sizeof buf)) > 0;)
    log.append(buf, size_t(k));
  close(err);
  REQ(WIFEXITED(status) && WEXITSTATUS(status) == 0, "the test program died (status ", status, "): ", log.substr(log.size() > 1500 ? log.size() - 1500 : 0));
  REQ(got.empty() || got[0] != '!', got.substr(1));
  return got;
}

// The life of the fixtures: in order, and complete for every case.
std::string lifecycle(const std::vector<std::string> &ev, int fixture) {
  size_t i = 0, cases = 0;
  const auto is = [&](const char *e) { return i < ev.size() && ev[i] == e; };
  const auto starts = [&](const char *e) { return i < ev.size() && ev[i].compare(0, strlen(e), e) == 0; };
  const auto at = [&](const char *what) { return cat(what, " expected at event ", i, " (case ", cases, ") but found ", i < ev.size() ? ev[i] : std::string("the end")); };
  while (i < ev.size()) {
    if (!is("ctor"))
      return at("construction");
    i++;
    if (fixture == 1) {
      if (!is("setup"))
        return at("set-up");
      i++;
      if (starts("picked"))
        i++;
    }
    if (!starts("B"))
      return at("body");
    i++;
    if (fixture == 1) {
      if (!is("teardown"))
        return at("tear-down");
      i++;
      if (is("teardown fails"))
        i++;
    }
    if (!is("dtor"))
      return at("destruction");
    i++;
    cases++;
  }
  return "";
}

struct Setup {
  std::string params, what;
  int maxSuccess;
  bool replay; // a reproduction is configured
  bool mine;   // and names this property
  bool listener;
};

// In the child: "" or what is wrong, then the reproduction text after \1.
std::string judge(const Entry &v, const Setup &u) {
  const std::string adapter = v.adapter;
  std::ostringstream cap;
  std::streambuf *old = std::cout.rdbuf(cap.rdbuf());
  const Seen seen = adapter == "gtest" ? runGTest(v, u.listener) : adapter == "boost" ? runBoost(v)
                  : adapter == "catch" ? runCatch(v) : runDoctest(v);
  std::cout.rdbuf(old);
  const std::string printed = cap.str();
  const auto seenEvents = std::move(events);
  if (seen.ran != 1)
    return cat("!", seen.ran, " tests ran for ", v.name);
  bool all = true;
  int failing = 0;
  std::string repro;
  std::vector<std::string> wantEvents;
  for (int k = 0; k < v.props; k++) {
    events.clear();
    current = k;
    const TestResult r = reference(v);
    std::vector<std::string> mine;
    for (auto &e : seenEvents)
      if (v.props == 1 || e[1] - '0' == k)
        if (e != "ctor" && e != "dtor" && e != "setup" && e != "teardown")
          mine.push_back(e);
    const std::string who = v.props > 1 ? cat("property ", k, ": ") : std::string();
    if (mine != events) {
      size_t i = 0;
      while (i < mine.size() && i < events.size() && mine[i] == events[i])
        i++;
      return cat(who, "the cases differ at event ", i, ": ", i < mine.size() ? mine[i] : std::string("end"), " instead of ",
                 i < events.size() ? events[i] : std::string("end"));
    }
    // The verdict, from the ledger alone.
    int succ = 0;
    bool fail = false;
    for (auto &e : events) {
      fail |= e.back() == 'F' || e == "teardown fails";
      succ += e.back() == 'S';
    }
    const bool shouldPass = u.replay && !u.mine ? events.empty() : !fail && (succ >= u.maxSuccess) && !u.replay;
    const bool ok = r.is<SuccessResult>();
    if (ok != shouldPass)
      return cat(who, "unexpected verdict ", rc::toString(r), " after ", succ, " successes, ", fail ? "with" : "without", " failures");
    all &= ok;
    failing += !ok;
    const std::string msg = message(r);
    if (!ok && seen.text.find(msg) == std::string::npos)
      return cat(who, "the failure message ", quote(seen.text), " lacks the report ", quote(msg));
    SuccessResult s;
    if (r.match(s)) {
      const bool verbose = !v.id && k == 0 && plans[0].verbose;
      const bool should = !s.distribution.empty() || verbose;
      if (should && printed.find(msg) == std::string::npos)
        return cat(who, "the distribution was not printed: ", quote(msg), " in ", quote(printed));
      if (!should && v.props == 1 && !printed.empty() && printed.find(msg) != std::string::npos)
        return cat(who, "printed ", quote(printed));
    }
    FailureResult f;
    if (r.match(f) && v.id)
      repro = reproduceMapToString({{v.id, f.reproduce}});
  }
  if (seen.passed != all)
    return cat("the framework test ", seen.passed ? "passed" : "failed", " although ", failing, " properties failed");
  if ((seen.exitCode == 0) != all)
    return cat("exit code ", seen.exitCode, " although ", failing, " properties failed");
  if (u.listener ? seen.failures < failing : seen.failures != failing)
    return cat(seen.failures, " failures for ", failing, " failing properties: ", quote(seen.text));
  if (v.fixture) {
    const auto e = lifecycle(seenEvents, v.fixture);
    if (!e.empty())
      return e;
  }
  std::string summary = cat(seenEvents.size(), " events, ", failing, " failing");
  return cat("\1", repro, "\1", summary);
}

Plan anyPlan(Src &s, const Entry &v, bool listener) {
  Plan p;
  if (s.draw(3)) {
    p.fail = 1 + int(s.draw(v.id ? 3 : 4));
    if (listener)
      p.fail = 6;
    p.thr = int(s.draw(2) ? s.draw(60) : s.draw(100000));
  }
  if (s.draw(3) == 0) {
    p.disc = 1 + int(s.draw(1));
    p.mod = int(s.draw(7) ? 2 + s.draw(5) : 1);
  }
  p.tag = s.draw(2) ? 0 : 1 + int(s.draw(3));
  p.verbose = s.draw(3) == 0;
  if (v.fixture == 1) {
    p.pickInSetUp = s.draw(3) == 0;
    if (s.draw(4) == 0)
      p.tearDown = int(1 + s.draw(60));
  }
  return p;
}
std::string split(const std::string &out, size_t i) {
  size_t a = out.find('\1');
  if (a == std::string::npos)
    return "";
  const size_t b = out.find('\1', a + 1);
  return i == 0 ? out.substr(a + 1, b - a - 1) : out.substr(b + 1);
}
} // namespace
} // namespace c34
using namespace c34;

FACET(adapters, 6) {
  const Entry &v = s.pick(variants());
  const bool listener = std::string(v.adapter) == "gtest" && s.draw(3) == 0;
  for (int k = 0; k < v.props; k++)
    plans[k] = anyPlan(s, v, listener);
  current = 0;
  Setup u;
  u.maxSuccess = int(s.draw(5) ? s.draw(60) : s.draw(200));
  u.replay = u.mine = false;
  u.listener = listener;
  const int ratio = int(s.draw(6));
  const bool noshrink = s.draw(5) == 0;
  const std::string common = cat("max_size=", s.draw(3) ? 100 : s.draw(150), noshrink ? " noshrink=1" : "");
  u.params = cat("seed=", s.anyBits(), " max_success=", u.maxSuccess, " max_discard_ratio=", ratio, " ", common);
  const std::string what = cat(v.adapter, " ", v.name, listener ? " with listener" : "", " fail ", plans[0].fail, " from ", plans[0].thr, " discard ",
                               plans[0].disc, "/", plans[0].mod, " tear-down ", plans[0].tearDown, " params ", u.params);
  events.clear();
  const std::string out = forked(c, u.params, [&] { return judge(v, u); });
  REQ(!out.empty() && out[0] == '\1', what, ": ", out);
  const std::string repro = split(out, 0), summary = split(out, 1);
  c.nontrivial(summary.compare(0, 2, "0 ") != 0);
  c.label(v.adapter);
  c.label(summary.find("0 failing") != std::string::npos ? "passes" : "fails");
  c.sample(cat(what, " -> ", summary));
  if (!v.id || repro.empty() || s.draw(1))
    return;
  // Replayed through the configuration, by the id the adapter gives.
  Setup w = u;
  w.replay = true;
  const int how = int(s.draw(2));
  w.mine = how != 1;
  std::string text = repro;
  if (how == 1 || how == 2) {
    auto m = stringToReproduceMap(repro);
    auto r = m.begin()->second;
    m.clear();
    if (how == 2)
      r.shrinkPath.push_back(1000000); // no such shrink
    m[how == 1 ? cat(v.id, "x") : std::string(v.id)] = r;
    text = reproduceMapToString(m);
  }
  // With shrinking off the path is not followed.
  w.params = cat("reproduce=", text, " ", common);
  const std::string again = forked(c, w.params, [&] { return judge(v, w); });
  REQ(!again.empty() && again[0] == '\1', what, how == 0 ? " replayed: " : how == 1 ? " with a reproduction for another: " : " with a stale reproduction: ", again);
  c.label(how == 0 ? "replayed" : how == 1 ? "skipped" : "stale");
}

FACET(mocks, 3) {
  Plan p;
  p.fail = 1;
  p.thr = int(s.draw(3) ? s.draw(60) : s.draw(100000));
  p.disc = s.draw(2) == 0;
  p.mod = int(s.draw(5) ? 2 + s.draw(5) : 1);
  p.tag = s.draw(3) ? 0 : 1;
  const int kind = int(s.draw(6)), times = int(s.draw(3));
  const std::string params = cat("seed=", s.anyBits(), " max_success=", s.draw(60), " max_discard_ratio=", s.draw(6), s.draw(5) ? "" : " noshrink=1");
  const std::string out = forked(c, params, [&] { return mockCase(p, kind, times); });
  REQ(out.empty(), out, " params ", params, " discard ", p.disc, "/", p.mod);
  c.nontrivial();
  c.label(cat("kind ", kind));
}
