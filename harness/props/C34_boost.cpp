#define BOOST_TEST_NO_MAIN
#define BOOST_TEST_ALTERNATIVE_INIT_API
#include <boost/test/included/unit_test.hpp>
#include "C34.h"
#include <rapidcheck/boost_test.h>

using namespace c34;

BOOST_AUTO_TEST_SUITE(Plain)
RC_BOOST_PROP(NoArgs, ()) {
  const int x = *rc::gen::arbitrary<int>();
  const auto v = *rc::gen::arbitrary<std::vector<int>>();
  body(x, v.size());
}
RC_BOOST_PROP(One, (int x)) { body(x, 0); }
RC_BOOST_PROP(Two, (int x, const std::vector<int> &v)) { body(x, v.size()); }
RC_BOOST_PROP(Text, (std::string s)) { body(int(s.size()), 0); }
BOOST_AUTO_TEST_SUITE_END()

namespace {
struct Fix {
  int uses = 0;
  Fix() { events.push_back("ctor"); }
  ~Fix() { events.push_back("dtor"); }
  bool run(int x, std::size_t n) {
    if (uses++)
      events.push_back("body in a used fixture");
    return body(x, n);
  }
};
} // namespace
BOOST_AUTO_TEST_SUITE(Fixed)
RC_BOOST_FIXTURE_PROP(NoArgs, Fix, ()) {
  const int x = *rc::gen::arbitrary<int>();
  const auto v = *rc::gen::arbitrary<std::vector<int>>();
  run(x, v.size());
}
RC_BOOST_FIXTURE_PROP(One, Fix, (int x)) { run(x, 0); }
RC_BOOST_FIXTURE_PROP(Two, Fix, (int x, const std::vector<int> &v)) { run(x, v.size()); }
BOOST_AUTO_TEST_SUITE_END()

namespace c34 {
namespace {
std::ostringstream boostLog;
bool init() {
  boost::unit_test::unit_test_log.set_stream(boostLog);
  return true;
}
} // namespace
Seen runBoost(const Entry &v) {
  using namespace boost::unit_test;
  Seen seen;
  std::string sel = std::string("--run_test=") + v.name, lvl = "--log_level=error", rep = "--report_level=no",
              sig = "--catch_system_errors=no", alt = "--use_alt_stack=no", col = "--color_output=no";
  char prog[] = "prog";
  char *argv[] = {prog, &sel[0], &lvl[0], &rep[0], &sig[0], &alt[0], &col[0], nullptr};
  seen.exitCode = unit_test_main(&init, 7, argv);
  struct Visit : test_tree_visitor {
    Seen *seen;
    void visit(test_case const &tc) override {
      const auto &r = results_collector.results(tc.p_id);
      if (r.p_skipped || (!r.p_assertions_passed && !r.p_assertions_failed && !r.p_aborted))
        return;
      seen->ran++;
      seen->passed = r.passed();
      seen->failures += int(r.p_assertions_failed);
    }
  } visit;
  visit.seen = &seen;
  traverse_test_tree(framework::master_test_suite().p_id, visit, true);
  seen.text = boostLog.str();
  return seen;
}
} // namespace c34
