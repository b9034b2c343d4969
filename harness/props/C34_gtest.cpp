#include "C34.h"
#include <gmock/gmock.h>
#include <gtest/gtest.h>
#include <rapidcheck/gmock.h>
#include <rapidcheck/gtest.h>

using namespace c34;

RC_GTEST_PROP(Plain, NoArgs, ()) {
  const int x = *rc::gen::arbitrary<int>();
  const auto v = *rc::gen::arbitrary<std::vector<int>>();
  body(x, v.size());
}
RC_GTEST_PROP(Plain, One, (int x)) { body(x, 0); }
RC_GTEST_PROP(Plain, Two, (int x, const std::vector<int> &v)) { body(x, v.size()); }
RC_GTEST_PROP(Plain, Text, (std::string s)) { body(int(s.size()), 0); }

namespace {
// TYPED_TEST has a fixture of its own around all the cases.
bool nextIsOuter = false;
template <typename T> struct Base : ::testing::Test {
  const bool outer;
  Base() : outer(nextIsOuter) {
    nextIsOuter = false;
    if (!outer)
      events.push_back("ctor");
  }
  ~Base() override {
    if (!outer)
      events.push_back("dtor");
  }
  int fresh = 0, last = 0;

protected:
  void SetUp() override {
    if (outer)
      return;
    events.push_back(fresh == 0 ? "setup" : "setup of a used fixture");
    fresh++;
    inSetUp();
  }
  void TearDown() override {
    if (outer)
      return;
    events.push_back(fresh == 2 ? "teardown" : "teardown too early or twice");
    fresh = 3;
    inTearDown(last);
  }
  bool run(int x, std::size_t n) {
    if (fresh != 1)
      events.push_back("body in a used or unprepared fixture");
    fresh++;
    last = x;
    return body(x, n);
  }
};
struct Fix : Base<int> {};
template <typename T> struct TypedFix : Base<T> {};
int measure(int x) { return x; }
int measure(const std::string &s) { return int(s.size()); }
} // namespace

RC_GTEST_FIXTURE_PROP(Fix, NoArgs, ()) {
  const int x = *rc::gen::arbitrary<int>();
  const auto v = *rc::gen::arbitrary<std::vector<int>>();
  run(x, v.size());
}
RC_GTEST_FIXTURE_PROP(Fix, One, (int x)) { run(x, 0); }
RC_GTEST_FIXTURE_PROP(Fix, Two, (int x, const std::vector<int> &v)) { run(x, v.size()); }

using Kinds = ::testing::Types<int, std::string>;
TYPED_TEST_SUITE(TypedFix, Kinds);
RC_GTEST_TYPED_FIXTURE_PROP(TypedFix, One, (const TypeParam &x)) { this->run(measure(x), 0); }

namespace c34 {
namespace {
struct Collect : ::testing::EmptyTestEventListener {
  Seen *seen;
  void OnTestStart(const ::testing::TestInfo &) override { seen->ran++; }
  void OnTestEnd(const ::testing::TestInfo &info) override {
    seen->passed = info.result()->Passed();
    for (int i = 0; i < info.result()->total_part_count(); i++) {
      const auto &p = info.result()->GetTestPartResult(i);
      if (p.failed()) {
        seen->failures++;
        seen->text += p.message();
      }
    }
  }
};
void fatalOrNot(int x) { EXPECT_LT(x, plans[current].thr) << "expectation on " << x; }
} // namespace

Seen runGTest(const Entry &v, bool listener) {
  Seen seen;
  std::string filter = std::string("--gtest_filter=") + v.name;
  char prog[] = "prog";
  char *argv[] = {prog, &filter[0], nullptr};
  int argc = 2;
  ::testing::InitGoogleMock(&argc, argv);
  auto *c = new Collect;
  c->seen = &seen;
  ::testing::UnitTest::GetInstance()->listeners().Append(c);
  if (listener)
    rc::gmock::RapidCheckListener::install();
  expectFail = fatalOrNot;
  nextIsOuter = filter.find("TypedFix") != std::string::npos;
  seen.exitCode = RUN_ALL_TESTS();
  return seen;
}

namespace {
struct Foo {
  virtual ~Foo() {}
  virtual bool f(int) { return true; }
  virtual void g() {}
};
struct MockFoo : Foo {
  MOCK_METHOD(bool, f, (int), (override));
  MOCK_METHOD(void, g, (), (override));
};
struct Delegate : ::testing::EmptyTestEventListener {
  std::vector<std::string> got;
  void OnTestPartResult(const ::testing::TestPartResult &r) override {
    got.push_back(pbt::cat(int(r.type()), "|", r.message()));
  }
};
} // namespace

// Mocks in properties. kind says how the mock is unhappy.
std::string mockCase(const Plan &p, int kind, int times) {
  char prog[] = "prog";
  char *argv[] = {prog, nullptr};
  int argc = 1;
  ::testing::InitGoogleMock(&argc, argv);
  auto &ls = ::testing::UnitTest::GetInstance()->listeners();
  delete ls.Release(ls.default_result_printer());
  auto *d = new Delegate;
  ls.Append(new rc::gmock::RapidCheckListener(std::unique_ptr<::testing::TestEventListener>(d)));
  const auto inside = [=](int x, const std::vector<int> &v) {
    const bool discard = p.disc && x % p.mod == 0;
    if (discard && p.disc == 1)
      RC_PRE(false);
    const bool bad = x >= p.thr;
    ::testing::NiceMock<MockFoo> m;
    switch (kind) {
    case 0: // called too rarely
      EXPECT_CALL(m, f(::testing::_)).Times(times + 1);
      for (int i = 0; i < times + (bad ? 0 : 1); i++)
        m.f(i);
      break;
    case 1: // too often
      EXPECT_CALL(m, f(::testing::_)).Times(times);
      for (int i = 0; i < times + (bad ? 1 : 0); i++)
        m.f(i);
      break;
    case 2: // wrong argument
      EXPECT_CALL(m, f(::testing::Lt(1000000))).Times(::testing::AnyNumber());
      m.f(bad ? 1000001 : int(v.size()));
      break;
    case 3: // out of order
    {
      ::testing::InSequence s;
      EXPECT_CALL(m, g());
      EXPECT_CALL(m, f(7));
      if (!bad)
        m.g();
      m.f(7);
      if (bad)
        m.g();
      break;
    }
    case 4: EXPECT_LT(x, p.thr); break;
    case 5:
      if (bad)
        ADD_FAILURE() << "added " << v.size();
      break;
    default: // several failures, then more of the body
      EXPECT_LT(x, p.thr);
      EXPECT_LT(x, p.thr) << "again";
      RC_TAG(bad);
      break;
    }
    SUCCEED();
    if (p.tag)
      RC_TAG(v.size() % 2);
  };
  const auto reference = [=](int x, const std::vector<int> &v) {
    if (p.disc && x % p.mod == 0 && p.disc == 1)
      RC_PRE(false);
    if (x >= p.thr)
      RC_FAIL("mock");
    if (kind > 5)
      RC_TAG(false);
    if (p.tag)
      RC_TAG(v.size() % 2);
  };
  // Outside of any property everything goes to the delegate.
  EXPECT_LT(2, 1) << "before";
  if (d->got.size() != 1 || d->got[0].find("before") == std::string::npos || d->got[0][0] != '1')
    return "a failure before any property was not passed on";
  const auto got = rc::detail::checkTestable(inside), want = rc::detail::checkTestable(reference);
  EXPECT_LT(2, 1) << "after";
  if (d->got.size() != 2 || d->got[1].find("after") == std::string::npos)
    return pbt::cat("delegate got ", d->got.size(), " results instead of 2: ",
                    d->got.size() > 1 ? d->got[1] : std::string());
  rc::detail::FailureResult gf, wf;
  rc::detail::SuccessResult gs, ws;
  const std::string what = pbt::cat("mock ", kind, " x", times, " from ", p.thr, ": ");
  if (want.match(wf)) {
    if (!got.match(gf))
      return what + "property did not fail: " + rc::toString(got);
    if (gf.numSuccess != wf.numSuccess)
      return pbt::cat(what, "failed after ", gf.numSuccess, " instead of ", wf.numSuccess);
    if (gf.counterExample != wf.counterExample)
      return pbt::cat(what, "counterexample ", rc::toString(gf.counterExample), " instead of ", rc::toString(wf.counterExample));
    if (gf.reproduce.shrinkPath != wf.reproduce.shrinkPath)
      return what + "shrunk along another path";
    const char *must = kind == 0 || kind == 1 ? "Expected" : kind == 2 ? "f(" : kind == 3 ? "f(7)" : kind == 4 ? "Expected: (x) < (p.thr)" : kind == 5 ? "added" : "Expected";
    if (gf.description.find(must) == std::string::npos)
      return what + "description does not say why: " + gf.description;
    if (gf.description.find("C34_gtest.cpp:") == std::string::npos)
      return what + "description does not say where: " + gf.description;
  } else if (want.match(ws)) {
    if (!got.match(gs) || gs.numSuccess != ws.numSuccess || gs.distribution != ws.distribution)
      return what + "should have succeeded: " + rc::toString(got) + " vs " + rc::toString(want);
  } else if (got.is<rc::detail::SuccessResult>() || got.is<rc::detail::FailureResult>())
    return what + "should have given up: " + rc::toString(got);
  return "";
}
} // namespace c34
