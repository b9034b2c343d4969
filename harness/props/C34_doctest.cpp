#define DOCTEST_CONFIG_IMPLEMENT
#include <doctest/doctest.h>
#include "C34.h"
#include <rapidcheck/doctest.h>

using namespace c34;

namespace {
bool noArgs() {
  const int x = *rc::gen::arbitrary<int>();
  const auto v = *rc::gen::arbitrary<std::vector<int>>();
  return body(x, v.size());
}
bool two(int x, const std::vector<int> &v) { return body(x, v.size()); }
} // namespace

TEST_CASE("NoArgs") { rc::doctest::check("no args", noArgs, plans[0].verbose); }
TEST_CASE("One") {
  rc::doctest::check([](int x) { return body(x, 0); }, plans[0].verbose);
}
TEST_CASE("Two") { rc::doctest::check("two args", &two, plans[0].verbose); }
TEST_CASE("Text") {
  rc::doctest::check("text", [](std::string s) { return body(int(s.size()), 0); }, plans[0].verbose);
}
TEST_CASE("Several") {
  rc::doctest::check("first", [](int x) { current = 0; return body(x, 0); }, plans[0].verbose);
  SUBCASE("nested") {
    rc::doctest::check("second", [](int x) { current = 1; return body(x, 0); });
  }
  rc::doctest::check("third", [](int x) { current = 2; return body(x, 0); });
}

namespace c34 {
namespace {
Seen *collected = nullptr;
struct Collect : ::doctest::IReporter {
  Collect(const ::doctest::ContextOptions &) {}
  void report_query(const ::doctest::QueryData &) override {}
  void test_run_start() override {}
  void test_run_end(const ::doctest::TestRunStats &) override {}
  void test_case_start(const ::doctest::TestCaseData &) override {
    if (collected)
      collected->ran++;
  }
  void test_case_reenter(const ::doctest::TestCaseData &) override {}
  void test_case_end(const ::doctest::CurrentTestCaseStats &s) override {
    if (collected)
      collected->passed = s.testCaseSuccess;
  }
  void test_case_exception(const ::doctest::TestCaseException &e) override {
    if (collected)
      collected->text += std::string("EXCEPTION ") + e.error_string.c_str();
  }
  void subcase_start(const ::doctest::SubcaseSignature &) override {}
  void subcase_end() override {}
  void log_assert(const ::doctest::AssertData &a) override {
    if (!collected || !a.m_failed)
      return;
    collected->failures++;
    for (int i = 0; i < get_num_active_contexts(); i++) {
      std::ostringstream os;
      get_active_contexts()[i]->stringify(&os);
      collected->text += os.str();
    }
  }
  void log_message(const ::doctest::MessageData &) override {}
  void test_case_skipped(const ::doctest::TestCaseData &) override {}
};
REGISTER_LISTENER("collect", 1, Collect);
} // namespace
Seen runDoctest(const Entry &v) {
  Seen seen;
  collected = &seen;
  std::ostringstream sink;
  ::doctest::Context ctx;
  ctx.setOption("no-colors", true);
  ctx.addFilter("test-case", v.name);
  ctx.setCout(&sink);
  seen.exitCode = ctx.run();
  collected = nullptr;
  return seen;
}
} // namespace c34
