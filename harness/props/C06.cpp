// C06: reproducing a failure replays the same minimal counterexample.
#include "genexpr.h"
#include <rapidcheck/detail/Configuration.h>
#include <rapidcheck/detail/TestListenerAdapter.h>
#include "detail/ReproduceListener.h"
#include "detail/StringSerialization.h"
#include "detail/Testing.h"
using namespace pbt;
using namespace rc;
using namespace rc::detail;
using namespace rcx;
using Type = CaseResult::Type;
using RMap = std::unordered_map<std::string, Reproduce>;

namespace {
// Shrinking a big case is quadratic; such cases are cut off, not judged.
struct TooLong {};
struct Recorder : TestListener {
  int cases = 0, shrinks = 0;
  void onTestCaseFinished(const CaseDescription &) override { cases++; }
  void onShrinkTried(const CaseDescription &, bool) override {
    if (++shrinks > 1500)
      throw TooLong();
  }
  void onTestFinished(const TestMetadata &, const TestResult &) override {}
};

struct Prog {
  GX a, b;
  int64_t mod, bound;
  int kind;
  std::shared_ptr<int> runs = std::make_shared<int>(0);
  std::shared_ptr<bool> disarmed = std::make_shared<bool>(false);
};

uint64_t mix(const Val &v) {
  uint64_t h = 0;
  for (auto x : v)
    h += static_cast<uint64_t>(x) * 3;
  return h;
}

Prog anyProg(Src &s) {
  GX a = anyGX(s, static_cast<int>(s.draw(2)));
  GX b = anyGX(s, static_cast<int>(s.draw(2)));
  const int64_t mod = static_cast<int64_t>(1 + s.draw(5)), bound = static_cast<int64_t>(s.draw(8));
  return Prog{a, b, mod, bound, static_cast<int>(s.draw(3))};
}

Property toProp(const Prog &p) {
  return toProperty([p] {
    (*p.runs)++;
    const Val x = *p.a.gen;
    Val y;
    if (p.kind & 1)
      y = *p.b.gen.as("second");
    if (*p.disarmed)
      return;
    if (p.kind == 3 && !x.empty() && x[0] % 5 == 1)
      RC_DISCARD("unlucky");
    RC_LOG() << "log of " << x.size();
    if (static_cast<int64_t>(x.size() + y.size()) > p.bound / 3 &&
        static_cast<int64_t>(mix(x) % static_cast<uint64_t>(p.mod)) == 0) {
      if (p.kind == 2)
        throw std::runtime_error(cat("size ", x.size()));
      RC_FAIL(cat("sizes ", x.size(), " ", y.size()));
    }
  });
}
std::string str(const Prog &p) {
  return cat(p.a.desc, p.kind & 1 ? " ; " + p.b.desc : "", " kind ", p.kind, " mod ", p.mod, " bound ", p.bound);
}

// Runs the search; false if the property did not fail.
bool search(const Prog &p, const Property &prop, const TestParams &params, const std::string &id,
            TestListener &l, FailureResult &out) {
  TestMetadata m;
  m.id = m.description = id;
  (void)p;
  try {
    Recorder cut;
    return checkProperty(prop, m, params, cut, RMap()).match(out) &&
        checkProperty(prop, m, params, l, RMap()).match(out);
  } catch (const TooLong &) {
    return false;
  }
}
TestParams anyParams(Src &s) {
  TestParams p;
  p.seed = s.anyBits();
  p.maxSuccess = 25;
  p.maxSize = static_cast<int>(s.oneOf({10, 20, 5}));
  p.maxDiscardRatio = 20;
  p.disableShrinking = s.draw(5) == 0;
  return p;
}
} // namespace

FACET(reproduce, 5) {
  const Prog p = anyProg(s);
  const Property prop = toProp(p);
  const TestParams params = anyParams(s);
  const std::string id = "p" + s.ascii(10);
  FailureResult f;
  Recorder rec;
  if (!search(p, prop, params, id, rec, f)) {
    c.label("no failure");
    return;
  }
  c.nontrivial(!f.reproduce.shrinkPath.empty());
  c.label(cat("path", std::min<size_t>(f.reproduce.shrinkPath.size(), 5)));
  c.sample(cat(str(p), ": ", id, " ", reproduceMapToString({{id, f.reproduce}}), " path ",
               listStr(f.reproduce.shrinkPath)));

  RMap map;
  map[id] = f.reproduce;
  const unsigned others = static_cast<unsigned>(s.draw(3));
  for (unsigned i = 0; i < others; i++) {
    Reproduce o;
    o.random = anyRandom(s);
    o.size = static_cast<int>(s.draw(100));
    map["other" + std::to_string(i)] = o;
  }
  if (s.draw(2) == 0) // an entry for properties without an id is never used
    map[""] = f.reproduce;
  const char *how = "directly";
  switch (s.draw(2)) {
  case 0: break;
  case 1:
    map = stringToReproduceMap(reproduceMapToString(map));
    how = "through text";
    break;
  default: {
    Configuration cfg;
    cfg.reproduce = map;
    map = configFromString(configToString(cfg)).reproduce;
    how = "through a configuration string";
  }
  }
  // Reproduce with unrelated settings, several times, possibly with a freshly
  // made property.
  for (int round = 0; round < 2; round++) {
    TestParams other = anyParams(s);
    other.disableShrinking = params.disableShrinking;
    const Property again = s.flag() ? toProp(p) : prop;
    Recorder rec2;
    const int before = *p.runs;
    TestMetadata m;
    m.id = id;
    m.description = s.ascii(5);
    const auto r = checkProperty(again, m, other, rec2, map);
    REQ(r.is<FailureResult>(), "reproducing ", how, " gave ", r, " for ", str(p));
    const auto g = r.get<FailureResult>();
    REQ_EQ(g.description, f.description, how);
    REQ(g.counterExample == f.counterExample, "counterexample differs, reproduced ", how, ": ", g, " vs ", f);
    REQ(g.reproduce == f.reproduce, "the record of the reproduction differs");
    REQ_EQ(g.numSuccess, 0, "");
    REQ_EQ(rec2.cases, 0, "reproducing searched");
    REQ_EQ(rec2.shrinks, 0, "reproducing shrunk");
    // No search: only the cases on the path and their skipped siblings may run.
    size_t most = 2;
    for (auto i : f.reproduce.shrinkPath)
      most += 2 * (i + 2);
    REQ(*p.runs - before <= static_cast<int>(most), "the body ran ", *p.runs - before, " times");
  }
  // Unnamed properties are skipped without running.
  for (const std::string skipped : {std::string(), id + "x", std::string("missing")}) {
    const int before = *p.runs;
    TestMetadata m;
    m.id = skipped;
    Recorder rec2;
    const auto r = checkProperty(prop, m, params, rec2, map);
    REQ(r.is<SuccessResult>(), "skipped property '", skipped, "' gave ", r);
    REQ_EQ(r.get<SuccessResult>().numSuccess, 0, "");
    REQ(r.get<SuccessResult>().distribution.empty(), "distribution of a skipped property");
    REQ_EQ(*p.runs - before, 0, "skipped property ran");
  }
}

// Without shrinking the reproduction is the first failing case.
FACET(no_shrinking, 1) {
  const Prog p = anyProg(s);
  const Property prop = toProp(p);
  TestParams params = anyParams(s);
  params.disableShrinking = false;
  FailureResult f, raw;
  Recorder rec;
  if (!search(p, prop, params, "id", rec, f))
    return;
  TestParams off = params;
  off.disableShrinking = true;
  REQ(search(p, prop, off, "id", rec, raw), "fails with shrinking but not without");
  REQ(raw.reproduce.random == f.reproduce.random && raw.reproduce.size == f.reproduce.size,
      "different failing case without shrinking");
  TestMetadata m;
  m.id = "id";
  const auto r = checkProperty(prop, m, off, rec, RMap{{"id", f.reproduce}});
  REQ(r.is<FailureResult>(), "gave ", r);
  REQ(r.get<FailureResult>().counterExample == raw.counterExample, "not the first failing case: ", r, " vs ", raw);
  REQ_EQ(r.get<FailureResult>().description, raw.description, "");
  c.nontrivial(!f.reproduce.shrinkPath.empty());
}

// Sizes far beyond the usual, and values that are nothing but the size and
// the random state.
FACET(sizes, 2) {
  const int maxSize = int(s.oneOf({101, 150, 300, 1000, 40000, 2000000, 100, 7}));
  const uint64_t salt = s.anyBits();
  const int from = int(s.draw(uint64_t(maxSize)));
  const unsigned discard = unsigned(s.draw(3));
  const auto prop = toProperty([=] {
    const int n = *gen::withSize([](int n) { return gen::shrink(gen::just(int(n)), [](int x) { return x > 0 ? seq::just(x / 2, x - 1) : Seq<int>(); }); });
    const uint64_t r = *Gen<uint64_t>([](const Random &random, int) { Random x(random); return shrinkable::just(uint64_t(x.next())); });
    if (discard && (r ^ salt) % 4 < discard)
      RC_DISCARD("unlucky");
    if (n >= from && (r ^ salt) % 3 == 0)
      RC_FAIL(cat("size ", n, " random ", r));
  });
  TestParams params;
  params.seed = s.anyBits();
  params.maxSuccess = int(5 + s.draw(60));
  params.maxSize = maxSize;
  params.maxDiscardRatio = 10;
  params.disableShrinking = s.draw(3) == 0;
  TestMetadata m;
  m.id = "sizes";
  FailureResult f;
  Recorder rec;
  try {
    if (!checkProperty(prop, m, params, rec, RMap()).match(f)) {
      c.label("no failure");
      return;
    }
  } catch (const TooLong &) {
    return;
  }
  RMap map{{m.id, f.reproduce}};
  if (s.flag())
    map = stringToReproduceMap(reproduceMapToString(map));
  TestParams other;
  other.disableShrinking = params.disableShrinking;
  other.maxSize = int(s.draw(200));
  other.seed = s.anyBits();
  const auto r = checkProperty(prop, m, other, rec, map);
  REQ(r.is<FailureResult>(), "reproducing a failure of size ", f.reproduce.size, " gave ", r, " instead of ", f);
  const auto g = r.get<FailureResult>();
  REQ(g.description == f.description && g.counterExample == f.counterExample, "reproducing a failure of size ", f.reproduce.size, " gave ", g, " instead of ", f);
  REQ(g.reproduce == f.reproduce, "the record of the reproduction differs");
  c.nontrivial(f.reproduce.size > 0);
  c.label(f.reproduce.size > 100 ? "size above 100" : "size up to 100");
}

// A record that does not lead to a failure is an error.
FACET(stale_records, 3) {
  const Prog p = anyProg(s);
  const Property prop = toProp(p);
  const TestParams params = anyParams(s);
  FailureResult f;
  Recorder rec;
  if (!search(p, prop, params, "id", rec, f))
    return;
  TestMetadata m;
  m.id = "id";
  Reproduce r = f.reproduce;
  TestParams on = params;
  on.disableShrinking = false;
  switch (s.draw(2)) {
  case 0: { // the property was repaired
    *p.disarmed = true;
    const auto res = checkProperty(prop, m, params, rec, RMap{{"id", r}});
    REQ(res.is<Error>(), "a repaired property gave ", res);
    REQ(!res.get<Error>().description.empty(), "error without description");
    *p.disarmed = false;
    c.label("repaired");
    c.nontrivial();
    break;
  }
  case 1: { // one more step: no immediate shrink of a minimal case fails
    if (params.disableShrinking)
      return;
    r.shrinkPath.push_back(s.draw(1) ? s.draw(5) : s.word());
    if (r.shrinkPath.back() > 200000) {
      // Walking there must still terminate: sequences of shrinks are finite.
      r.shrinkPath.back() = 200000;
    }
    const auto res = checkProperty(prop, m, on, rec, RMap{{"id", r}});
    REQ(res.is<Error>(), "a path beyond the minimum gave ", res, " for ", str(p));
    REQ(!res.get<Error>().description.empty(), "error without description");
    c.label("beyond");
    c.nontrivial();
    break;
  }
  default: { // arbitrary path: whatever is reported is consistent with the tree
    const size_t n = 1 + s.draw(3);
    r.shrinkPath.clear();
    for (size_t i = 0; i < n; i++)
      r.shrinkPath.push_back(s.draw(10));
    const auto res = checkProperty(prop, m, on, rec, RMap{{"id", r}});
    const auto root = prop(r.random, r.size);
    Shrinkable<CaseDescription> node = root;
    bool exists = true;
    for (auto i : r.shrinkPath) {
      auto seq = node.shrinks();
      Maybe<Shrinkable<CaseDescription>> k;
      for (size_t j = 0; j <= i; j++)
        if (!(k = seq.next()))
          break;
      if (!k) {
        exists = false;
        break;
      }
      node = *k;
    }
    if (exists && node.value().result.type == Type::Failure) {
      REQ(res.is<FailureResult>(), "existing failing node gave ", res);
      REQ(res.get<FailureResult>().counterExample == node.value().example(), "wrong node reported");
      REQ_EQ(res.get<FailureResult>().description, node.value().result.description, "");
      c.label("other failing node");
    } else {
      REQ(res.is<Error>(), "path ", listStr(r.shrinkPath), " (", exists ? "passing" : "missing",
          " node) gave ", res);
      c.label(exists ? "passing node" : "missing node");
    }
    c.nontrivial();
  }
  }
}

// The text printed at the end of a run names exactly the failed properties and
// reproduces each of them.
FACET(printed_record, 2) {
  std::ostringstream out;
  std::map<std::string, FailureResult> failures;
  std::vector<std::pair<std::string, Property>> props;
  TestParams params = anyParams(s);
  params.disableShrinking = false;
  const size_t n = 1 + s.draw(3);
  {
    ReproduceListener l(out);
    for (size_t i = 0; i < n; i++) {
      const Prog p = anyProg(s);
      const std::string id = s.draw(5) == 0 ? "" : cat(i, s.bytes(8));
      props.emplace_back(id, toProp(p));
      FailureResult f;
      if (search(p, props.back().second, params, id, l, f) && !id.empty())
        failures[id] = f;
    }
    REQ(out.str().empty(), "printed before the end");
  }
  const std::string text = out.str();
  if (failures.empty()) {
    REQ(text.empty(), "printed ", quote(text), " without failures");
    return;
  }
  const std::string start = "RC_PARAMS=\"";
  const auto a = text.find(start);
  REQ(a != std::string::npos, "no RC_PARAMS in ", quote(text));
  const auto b = text.find('"', a + start.size());
  REQ(b != std::string::npos, "unterminated in ", quote(text));
  const auto cfg = configFromString(text.substr(a + start.size(), b - a - start.size()));
  REQ_EQ(cfg.reproduce.size(), failures.size(), "named properties in ", quote(text));
  for (auto &p : props) {
    TestMetadata m;
    m.id = p.first;
    Recorder rec;
    const auto r = checkProperty(p.second, m, cfg.testParams, rec, cfg.reproduce);
    const auto it = failures.find(p.first);
    if (it == failures.end()) {
      REQ(r.is<SuccessResult>() && r.get<SuccessResult>().numSuccess == 0, "gave ", r);
      continue;
    }
    REQ(r.is<FailureResult>(), "reproduction of ", quote(p.first), " gave ", r);
    REQ(r.get<FailureResult>().counterExample == it->second.counterExample, "counterexample differs: ", r);
    REQ_EQ(r.get<FailureResult>().description, it->second.description, "");
  }
  c.nontrivial(failures.size() >= 1);
  c.sample(text);
}
