// C11: the distribution counts exactly the successful tagged cases.
#include "rcx.h"
#include "detail/Testing.h"
#include <cmath>
#include <map>
#include <rapidcheck/detail/TestListenerAdapter.h>
using namespace pbt;
using namespace rc;
using namespace rc::detail;
using namespace rcx;

namespace {
// What one case does with tags. `kind` selects the macro form.
struct Act {
  int kind, a, b;
};
// Performs the step and mirrors it in the model.
void act(const Act &x, Tags &model, bool nestedToo) {
  const int a = x.a, b = x.b;
  switch (x.kind) {
  case 0: RC_TAG(a); model.push_back(cat(a)); break;
  case 1: RC_TAG(a, b); model.push_back(cat(a)); model.push_back(cat(b)); break;
  case 2: RC_CLASSIFY(a < b); if (a < b) model.push_back("a < b"); break;
  case 3: RC_CLASSIFY(a == b, a); if (a == b) model.push_back(cat(a)); break;
  case 4: RC_CLASSIFY(a % 2 == 0, a, b); if (a % 2 == 0) { model.push_back(cat(a)); model.push_back(cat(b)); } break;
  case 5: RC_TAG(std::string("s" + cat(a))); model.push_back("\"s" + cat(a) + "\""); break;
  case 6: RC_TAG("lit"); model.push_back("\"lit\""); break;
  case 7: RC_CLASSIFY(a > b, "gt"); if (a > b) model.push_back("\"gt\""); break;
  case 8: RC_TAG(std::vector<int>{a, b}); model.push_back(cat("[", a, ", ", b, "]")); break;
  case 9: RC_TAG(a == b); model.push_back(a == b ? "true" : "false"); break;
  case 10:
    if (nestedToo) { // tags of an inner property belong to the inner one
      toProperty([=] { RC_TAG("inner", a); })(Random(a), 5).value();
    }
    break;
  case 11:
    if (nestedToo) { // picks from generators do not tag either
      *gen::exec([=] { return *gen::inRange(0, 5); });
    }
    break;
  }
}
std::vector<Act> anyActs(Src &s) {
  std::vector<Act> out;
  const size_t n = s.oneOf({0, 1, 1, 2, 2, 3, 5});
  for (size_t i = 0; i < n; i++)
    out.push_back(Act{int(s.draw(11)), int(s.draw(2)), int(s.draw(2))});
  return out;
}
std::string show(const Distribution &d) { return toString(d); }

void checkPrinted(Ctx &c, const SuccessResult &r) {
  std::ostringstream os;
  printResultMessage(r, os);
  const std::string text = os.str();
  std::vector<std::string> lines;
  std::istringstream is(text);
  for (std::string l; std::getline(is, l);)
    lines.push_back(l);
  REQ(!lines.empty() && lines[0].find(cat(r.numSuccess)) != std::string::npos, "first line of ", quote(text));
  REQ_EQ(lines.size(), 1 + r.distribution.size(), "lines of ", quote(text));
  auto left = r.distribution;
  double last = 1e300;
  for (size_t i = 1; i < lines.size(); i++) {
    const std::string &l = lines[i];
    const auto at = l.find("% - ");
    REQ(at != std::string::npos, "line ", quote(l));
    const double shown = std::strtod(l.c_str(), nullptr);
    const std::string names = l.substr(at + 4);
    bool matched = false;
    for (auto it = left.begin(); it != left.end() && !matched; ++it) {
      std::string joined;
      for (size_t k = 0; k < it->first.size(); k++)
        joined += (k ? ", " : "") + it->first[k];
      const double exact = 100.0 * it->second / r.numSuccess;
      if (joined == names && std::fabs(shown - exact) <= 0.005 + 1e-9) {
        // Two decimals; either neighbour will do on a tie.
        const auto dot = l.find('.');
        REQ(dot != std::string::npos && dot + 3 == at, "line ", quote(l), " should have two decimals");
        left.erase(it);
        matched = true;
        break;
      }
    }
    REQ(matched, "line ", quote(l), " matches no entry of ", show(r.distribution), " over ", r.numSuccess);
    REQ(shown <= last, "not sorted by frequency: ", quote(text));
    last = shown;
  }
  REQ(left.empty(), "missing entries in ", quote(text));
}
} // namespace

// Bodies that tag according to a per-case script.
FACET(bodies, 5) {
  const size_t n = 1 + s.draw(40);
  struct Case {
    std::vector<Act> acts;
    int outcome; // 0.. success, 6,7 discard, 8 failure
    bool late;
  };
  std::vector<Case> script;
  // Few distinct cases so that equal tag lists recur.
  std::vector<std::vector<Act>> kinds;
  for (size_t i = 0, k = 1 + s.draw(4); i < k; i++)
    kinds.push_back(anyActs(s));
  for (size_t i = 0; i < n; i++)
    script.push_back(Case{s.pick(kinds), int(s.draw(9)), s.flag()});
  const bool mayFail = s.draw(3) == 0;
  auto calls = std::make_shared<size_t>(0);
  auto model = std::make_shared<Distribution>();
  auto succ = std::make_shared<int>(0);
  auto firstFailure = std::make_shared<bool>(false);
  auto prop = toProperty([=] {
    const Case &k = script[(*calls)++ % script.size()];
    Tags tags;
    for (auto &a : k.acts)
      act(a, tags, true);
    if (k.outcome == 6)
      RC_DISCARD("d");
    if (k.outcome == 7)
      *gen::suchThat(gen::just(0), [](int) { return false; });
    if (k.outcome == 9 && mayFail && !*firstFailure) {
      *firstFailure = true;
      RC_FAIL("f");
    }
    if (k.outcome == 8)
      RC_SUCCEED_IF(k.late);
    ++*succ;
    if (!tags.empty())
      (*model)[tags]++;
  });
  // RC_SUCCEED_IF leaves early: count it in the model too.
  prop = gen::map(std::move(prop), [=](CaseDescription d) { return d; });
  TestParams p;
  p.seed = s.anyBits();
  p.maxSuccess = int(1 + s.draw(60));
  p.maxDiscardRatio = int(1 + s.draw(10));
  TestListenerAdapter l;
  struct Count : TestListenerAdapter {
    Distribution d;
    int ok = 0;
    void onTestCaseFinished(const CaseDescription &x) override {
      if (x.result.type == CaseResult::Type::Success) {
        ok++;
        if (!x.tags.empty())
          d[x.tags]++;
      }
    }
  } events;
  const auto r = testProperty(prop, TestMetadata(), p, events);
  SuccessResult ok;
  if (!r.match(ok)) {
    c.label("no success");
    return;
  }
  REQ_EQ(events.ok, p.maxSuccess, "");
  REQ(ok.distribution == events.d, "distribution ", show(ok.distribution), " but cases had ", show(events.d));
  bool early = false;
  for (auto &k : script)
    early |= k.outcome == 8 && k.late;
  if (!early)
    REQ(ok.distribution == *model, "distribution ", show(ok.distribution), " expected ", show(*model));
  REQ_EQ(ok.numSuccess, p.maxSuccess, "");
  int total = 0;
  for (auto &e : ok.distribution) {
    REQ(e.second > 0 && !e.first.empty(), "entry of ", show(ok.distribution));
    total += e.second;
  }
  REQ(total <= ok.numSuccess, "more tagged cases than cases");
  checkPrinted(c, ok);
  c.nontrivial(ok.distribution.size() >= 2);
  c.sample(cat(p.maxSuccess, " cases ", show(ok.distribution)));
}

// Tag lists as data: order, repetition and prefixes matter.
FACET(lists, 3) {
  static const std::vector<std::string> names{"a", "b", "a, b", "", "ab", "<= 3", "100%", "a - b"};
  const int total = int(1 + s.draw(80));
  std::vector<Tags> lists;
  for (size_t i = 0, k = 1 + s.draw(5); i < k; i++)
    lists.push_back(s.list(4, [&] { return s.pick(names); }));
  std::vector<size_t> order;
  for (int i = 0; i < total; i++)
    order.push_back(s.below(lists.size()));
  size_t at = 0;
  Distribution expected;
  for (size_t i : order)
    if (!lists[i].empty())
      expected[lists[i]]++;
  const Property prop([&](const Random &, int) {
    CaseDescription d;
    d.result = CaseResult(CaseResult::Type::Success, "ok");
    d.tags = lists[order[at++ % order.size()]];
    return shrinkable::just(d);
  });
  TestParams p;
  p.maxSuccess = total;
  TestListenerAdapter l;
  const auto r = checkProperty(prop, TestMetadata(), p, l, std::unordered_map<std::string, Reproduce>());
  REQ(r.is<SuccessResult>(), "gave ", r);
  const auto ok = r.get<SuccessResult>();
  REQ(ok.distribution == expected, "distribution ", show(ok.distribution), " expected ", show(expected));
  checkPrinted(c, ok);
  c.nontrivial(expected.size() >= 2);
}

// Printing alone, with counts of any size.
FACET(printing, 2) {
  SuccessResult r;
  r.numSuccess = int(1 + (s.flag() ? s.draw(200) : s.draw(2000000000)));
  int left = r.numSuccess;
  for (size_t i = 0, k = s.draw(6); i < k && left > 0; i++) {
    const int n = int(1 + s.draw(uint64_t(left) - 1));
    Tags t{cat("t", i)};
    if (s.flag())
      t.push_back("x");
    r.distribution[t] = n;
    left -= n;
  }
  checkPrinted(c, r);
  c.nontrivial(r.distribution.size() >= 2);
}

// Long runs: every successful case counts, however many there are, and
// however many different tag lists they have.
FACET(many, 1) {
  const size_t cases = 1 + (s.draw(3) ? s.draw(3000) : s.draw(c.thorough() ? 300000 : 70000));
  const uint64_t seed = s.anyBits(), kinds = 1 + (s.flag() ? s.draw(4) : s.draw(3000)), untagged = s.draw(3), discards = s.draw(3);
  const auto mix = [=](uint64_t i) {
    uint64_t x = (i + 1) * 0x9e3779b97f4a7c15ULL ^ seed;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    return x ^ (x >> 29);
  };
  auto at = std::make_shared<uint64_t>(0);
  auto model = std::make_shared<std::map<Tags, int>>();
  const Property prop([=](const Random &, int) {
    const uint64_t w = mix((*at)++);
    CaseDescription d;
    const bool discard = w % 16 < discards;
    d.result = CaseResult(discard ? CaseResult::Type::Discard : CaseResult::Type::Success, "r");
    if ((w >> 8) % 8 >= untagged) {
      d.tags.push_back(cat((w >> 16) % kinds));
      if ((w >> 12) % 4 == 0)
        d.tags.push_back("x");
    }
    if (!discard && !d.tags.empty())
      (*model)[d.tags]++;
    return shrinkable::just(d);
  });
  TestParams p;
  p.maxSuccess = int(cases);
  TestListenerAdapter l;
  const auto r = checkProperty(prop, TestMetadata(), p, l, std::unordered_map<std::string, Reproduce>());
  REQ(r.is<SuccessResult>(), "gave ", r);
  const auto ok = r.get<SuccessResult>();
  REQ_EQ(ok.numSuccess, int(cases), "");
  REQ_EQ(ok.distribution.size(), model->size(), "tag lists of ", cases, " cases");
  for (auto &e : *model) {
    const auto it = ok.distribution.find(e.first);
    REQ(it != ok.distribution.end(), toString(e.first), " is missing from the distribution of ", cases, " cases");
    REQ_EQ(it->second, e.second, "count of ", toString(e.first), " over ", cases, " cases");
  }
  if (model->size() < 200)
    checkPrinted(c, ok);
  c.nontrivial(model->size() >= 2 && cases > 200);
}
