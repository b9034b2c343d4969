// C10: assertions on expressions of every operator.
#include "rcx.h"
#include <rapidcheck/detail/Property.h>
#include <memory>
using namespace pbt;
using namespace rc;
using namespace rc::detail;
using namespace rcx;
using Type = CaseResult::Type;

namespace {
std::string pr(int x) { return std::to_string(x); }
std::string pr(unsigned x) { return std::to_string(x); }
std::string pr(uint64_t x) { return std::to_string(x); }
std::string pr(int64_t x) { return std::to_string(x); }
std::string pr(bool x) { return x ? "true" : "false"; }
std::string pr(const std::string &x) { return "\"" + x + "\""; }
template <typename T> std::string pr(const std::vector<T> &v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); i++)
    o += (i ? ", " : "") + pr(v[i]);
  return o + "]";
}

// How one use of a macro ended.
struct End {
  bool thrown = false;
  CaseResult result;
};
template <typename F> End run(F f) {
  End e;
  try {
    f();
  } catch (const CaseResult &r) {
    e.thrown = true;
    e.result = r;
  }
  return e;
}

void judge(Ctx &c, const End &e, bool thrown, Type type, const std::string &call, const std::string &expansion) {
  REQ(e.thrown == thrown, call, " with ", expansion, e.thrown ? " gave " : " went on: ", e.result);
  if (!thrown)
    return;
  REQ(e.result.type == type, call, " with ", expansion, " gave ", e.result);
  const std::string want = ":\n" + call + "\n\nExpands to:\n" + expansion;
  const auto &text = e.result.description;
  REQ(text.size() >= want.size() && text.compare(text.size() - want.size(), want.size(), want) == 0, quote(text),
      " does not end with ", quote(want));
  REQ(text.compare(0, std::string(__FILE__).size(), __FILE__) == 0, quote(text), " does not start with the file");
}

template <typename T> struct Once {
  T value;
  int *count;
  const T &operator()() const {
    ++*count;
    return value;
  }
};

// One expression under all four macros. Operands are evaluated exactly once.
#define FOUR(what, expr, expansion)                                                                                    \
  {                                                                                                                    \
    const bool truth = static_cast<bool>(expr);                                                                        \
    const std::string exp_ = expansion;                                                                                   \
    const std::string text_ = #expr;                                                                                    \
    judge(c, run([&] { RC_ASSERT(expr); }), !truth, Type::Failure, "RC_ASSERT(" + text_ + ")", exp_);                      \
    judge(c, run([&] { RC_ASSERT_FALSE(expr); }), truth, Type::Failure, "RC_ASSERT_FALSE(" + text_ + ")", exp_);           \
    judge(c, run([&] { RC_PRE(expr); }), !truth, Type::Discard, "RC_PRE(" + text_ + ")", exp_);                            \
    judge(c, run([&] { RC_SUCCEED_IF(expr); }), truth, Type::Success, "RC_SUCCEED_IF(" + text_ + ")", exp_);               \
    c.label(what);                                                                                                     \
    c.nontrivial(truth);                                                                                               \
  }
#define BIN(op, l, r)                                                                                                  \
  FOUR(#op, l op r, pr(l) + " " #op " " + pr(r))                                                                       \
  {                                                                                                                    \
    int nl = 0, nr = 0;                                                                                                \
    const Once<std::decay<decltype(l)>::type> f{l, &nl};                                                               \
    const Once<std::decay<decltype(r)>::type> g{r, &nr};                                                               \
    run([&] { RC_ASSERT(f() op g()); });                                                                               \
    REQ(nl == 1 && nr == 1, #op, ": operands evaluated ", nl, " and ", nr, " times");                                  \
  }
#define CMP(l, r)                                                                                                      \
  switch (s.draw(5)) {                                                                                                 \
  case 0: BIN(==, l, r) break;                                                                                         \
  case 1: BIN(!=, l, r) break;                                                                                         \
  case 2: BIN(<, l, r) break;                                                                                          \
  case 3: BIN(>, l, r) break;                                                                                          \
  case 4: BIN(<=, l, r) break;                                                                                         \
  default: BIN(>=, l, r) break;                                                                                        \
  }
struct Shown {
  int v;
  explicit operator bool() const { return v != 0; }
};
void showValue(const Shown &x, std::ostream &os) { os << "<" << x.v << ">"; }
} // namespace

FACET(expressions, 2) {
  const int a = int(s.draw(6)), b = s.draw(2) ? int(s.draw(6)) : a, d = 1 + int(s.draw(5)), e = int(s.draw(8));
  switch (s.draw(13)) {
  case 0: CMP(a, b) break;
  case 1: {
    const auto word = [&] {
      std::string o;
      for (size_t i = s.draw(3); i > 0; i--)
        o += char('a' + s.draw(2));
      return o;
    };
    const std::string x = word(), y = s.draw(2) ? word() : x;
    CMP(x, y)
    break;
  }
  case 2: {
    const uint64_t x = s.word(), y = s.draw(2) ? s.word() : x;
    CMP(x, y)
    break;
  }
  case 3: {
    const std::vector<int> x{a, b}, y{b, a};
    CMP(x, y)
    break;
  }
  case 4:
    switch (s.draw(9)) {
    case 0: BIN(*, a, b) break;
    case 1: BIN(/, a, d) break;
    case 2: BIN(%, a, d) break;
    case 3: BIN(+, a, b) break;
    case 4: BIN(-, a, b) break;
    case 5: BIN(<<, a, e) break;
    case 6: BIN(>>, a, e) break;
    case 7: BIN(&, a, b) break;
    case 8: BIN(^, a, b) break;
    default: BIN(|, a, b) break;
    }
    break;
  case 5: {
    const bool p = a % 2, q = b % 2;
    if (s.flag()) {
      BIN(&&, p, q)
    } else {
      BIN(||, p, q)
    }
    break;
  }
  // Chains, shown from left to right; what binds tighter on the right is one value.
  case 6: FOUR("chain", a + b - d == e, pr(a) + " + " + pr(b) + " - " + pr(d) + " == " + pr(e)) break;
  case 7: FOUR("chain", a * d % 3 != b, pr(a) + " * " + pr(d) + " % 3 != " + pr(b)) break;
  case 8: FOUR("chain", a < b + d, pr(a) + " < " + pr(b + d)) break;
  case 9: FOUR("chain", a << 2 >> 1 < e, pr(a) + " << 2 >> 1 < " + pr(e)) break;
  case 10: FOUR("chain", a == b && d < e, pr(a) + " == " + pr(b) + " && " + pr(d < e)) break;
  case 11: FOUR("chain", a + d * b > e || b == 2, pr(a) + " + " + pr(d * b) + " > " + pr(e) + " || " + pr(b == 2)) break;
  // Values by themselves.
  case 12: {
    const Shown x{a - b};
    FOUR("value", x, cat("<", a - b, ">"))
    break;
  }
  default: {
    const int n = a - b;
    FOUR("value", n, pr(n))
    const std::vector<int> v(size_t(a), b);
    FOUR("value", v.empty(), pr(v.empty()))
    FOUR("value", !n, pr(!n))
    FOUR("value", (a == b), pr(a == b))
    break;
  }
  }
}
