#include <catch2/catch_all.hpp>
#include "C34.h"
#include <rapidcheck/catch.h>

using namespace c34;

namespace {
bool noArgs() {
  const int x = *rc::gen::arbitrary<int>();
  const auto v = *rc::gen::arbitrary<std::vector<int>>();
  return body(x, v.size());
}
bool two(int x, const std::vector<int> &v) { return body(x, v.size()); }
} // namespace

TEST_CASE("NoArgs") { rc::prop("no args", noArgs, plans[0].verbose); }
TEST_CASE("One") {
  rc::prop("one arg", [](int x) { return body(x, 0); }, plans[0].verbose);
}
TEST_CASE("Two") { rc::prop("two args", &two, plans[0].verbose); }
TEST_CASE("Text") {
  rc::prop("text", [](std::string s) { return body(int(s.size()), 0); }, plans[0].verbose);
}
TEST_CASE("Several") {
  rc::prop("first", [](int x) { current = 0; return body(x, 0); }, plans[0].verbose);
  SECTION("nested") {
    rc::prop("second", [](int x) { current = 1; return body(x, 0); });
  }
  rc::prop("third", [](int x) { current = 2; return body(x, 0); });
}

namespace c34 {
namespace {
Seen *collected = nullptr;
struct Collect : Catch::EventListenerBase {
  using EventListenerBase::EventListenerBase;
  void testCaseEnded(Catch::TestCaseStats const &s) override {
    if (!collected)
      return;
    collected->ran++;
    collected->passed = s.totals.assertions.allOk();
  }
  void assertionEnded(Catch::AssertionStats const &s) override {
    if (!collected || s.assertionResult.isOk())
      return;
    collected->failures++;
    for (auto &m : s.infoMessages)
      collected->text += m.message;
  }
};
CATCH_REGISTER_LISTENER(Collect)
} // namespace
Seen runCatch(const Entry &v) {
  Seen seen;
  collected = &seen;
  Catch::Session session;
  const char *argv[] = {"prog", v.name, "--out", "/dev/null"};
  seen.exitCode = session.applyCommandLine(4, argv);
  if (seen.exitCode == 0)
    seen.exitCode = session.run();
  collected = nullptr;
  return seen;
}
} // namespace c34
