// C10: what a body does decides how its case is classified and described.
#include "rcx.h"
#include "detail/Testing.h"
#include <iomanip>
#include <memory>
#include <sstream>
#include <rapidcheck/detail/ImplicitParam.h>
#include <rapidcheck/detail/PropertyContext.h>
#include <rapidcheck/detail/TestListenerAdapter.h>
using namespace pbt;
using namespace rc;
using namespace rc::detail;
using namespace rcx;
using Type = CaseResult::Type;

namespace {
struct Op {
  int kind;
  int a, b;
  std::string token; // unique text of this step
};

struct MyError : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Odd {
  int x;
};

// What the model says has happened so far.
struct Model {
  Type type = Type::Success;
  std::vector<std::vector<std::string>> messages; // parts each message must contain, in order
  std::string log;
  // Formatting set on the log stream lasts until the end of the case: the
  // stream this one mirrors is as good as new in every case.
  std::shared_ptr<std::ostringstream> stream = std::make_shared<std::ostringstream>();
  template <typename F> void write(F f) {
    f(*stream);
    log = stream->str();
  }
  bool ended = false;
  size_t nested = 0;
  Tags tags;
  void report(Type t, std::vector<std::string> parts) {
    switch (t) {
    case Type::Discard:
      if (type != Type::Discard) {
        messages.clear();
        messages.push_back(parts);
      }
      type = t;
      break;
    case Type::Failure:
      if (type == Type::Discard)
        break;
      if (type == Type::Success)
        messages.clear();
      messages.push_back(parts);
      type = t;
      break;
    case Type::Success:
      if (type == Type::Success) {
        messages.clear();
        messages.push_back(parts);
      }
    }
  }
};

PropertyContext *context() { return ImplicitParam<param::CurrentPropertyContext>::value(); }
std::string loc(int line) { return cat(__FILE__, ":", line); }

void reformat(std::ostream &os, int how) {
  switch (how % 9) {
  case 0: os << std::hex; break;
  case 1: os << std::showbase << std::oct; break;
  case 2: os << std::setfill('*'); break;
  case 3: os << std::boolalpha; break;
  case 4: os << std::setprecision(2); break;
  case 5: os << std::fixed; break;
  case 6: os << std::showpos << std::left; break;
  case 7: os << std::uppercase << std::scientific; break;
  case 8: os << std::dec << std::noboolalpha; break;
  }
}

// Performs one step for real; may throw. The model is updated first.
void perform(const Op &op, Model &m) {
  const int a = op.a, b = op.b;
  const std::string t = op.token;
  const std::string str = t;
  auto ends = [&](Type ty, std::vector<std::string> parts) {
    m.report(ty, std::move(parts));
    m.ended = true;
  };
  int line = 0;
  switch (op.kind) {
  case 0: m.write([&](std::ostream &os) { os << t; }); RC_LOG() << t; return;
  case 1: m.write([&](std::ostream &os) { os << t << "\n"; }); RC_LOG(t); return;
  case 2: m.report(Type::Failure, {t}); context()->reportResult(CaseResult(Type::Failure, t)); return;
  case 3: m.report(Type::Success, {t}); context()->reportResult(CaseResult(Type::Success, t)); return;
  case 4: m.report(Type::Discard, {t}); context()->reportResult(CaseResult(Type::Discard, t)); return;
  case 5: m.tags.push_back(cat(a)); RC_TAG(a); return;
  // Assertions on expressions.
  case 6:
    line = __LINE__ + 2;
    if (!(a == b)) ends(Type::Failure, {loc(line), "RC_ASSERT(a == b)", cat(a, " == ", b)});
    RC_ASSERT(a == b);
    return;
  case 7:
    line = __LINE__ + 2;
    if (!(a < b)) ends(Type::Failure, {loc(line), "RC_ASSERT(a < b)", cat(a, " < ", b)});
    RC_ASSERT(a < b);
    return;
  case 8:
    line = __LINE__ + 2;
    if (!(a + b > 3)) ends(Type::Failure, {loc(line), "RC_ASSERT(a + b > 3)", cat(a, " + ", b, " > 3")});
    RC_ASSERT(a + b > 3);
    return;
  case 9:
    line = __LINE__ + 2;
    if (a >= b) ends(Type::Failure, {loc(line), "RC_ASSERT_FALSE(a >= b)", cat(a, " >= ", b)});
    RC_ASSERT_FALSE(a >= b);
    return;
  case 10: {
    const bool flag = a == b;
    line = __LINE__ + 2;
    if (!flag) ends(Type::Failure, {loc(line), "RC_ASSERT(flag)", "false"});
    RC_ASSERT(flag);
    return;
  }
  case 11: {
    const std::string x = "x" + cat(a), y = "x" + cat(b);
    line = __LINE__ + 2;
    if (x != y) ends(Type::Failure, {loc(line), "RC_ASSERT(x == y)", cat("\"", x, "\" == \"", y, "\"")});
    RC_ASSERT(x == y);
    return;
  }
  case 12: {
    const std::vector<int> x{a, b};
    const std::vector<int> y{b, a};
    line = __LINE__ + 2;
    if (a == b) ends(Type::Failure, {loc(line), "RC_ASSERT(x != y)", cat("[", a, ", ", b, "] != [", b, ", ", a, "]")});
    RC_ASSERT(x != y);
    return;
  }
  case 13:
    line = __LINE__ + 2;
    if (!(a <= b)) ends(Type::Discard, {loc(line), "RC_PRE(a <= b)", cat(a, " <= ", b)});
    RC_PRE(a <= b);
    return;
  case 14:
    line = __LINE__ + 2;
    if (a == b) ends(Type::Success, {loc(line), "RC_SUCCEED_IF(a == b)"});
    RC_SUCCEED_IF(a == b);
    return;
  // Assertions on exceptions.
  case 15:
    line = __LINE__ + 2;
    if (a != b) ends(Type::Failure, {loc(line), "RC_ASSERT_THROWS("});
    RC_ASSERT_THROWS(if (a == b) throw Odd{1});
    return;
  case 16:
    line = __LINE__ + 2;
    if (a != b) ends(Type::Failure, {loc(line), "RC_ASSERT_THROWS_AS(", "No exception"});
    RC_ASSERT_THROWS_AS(if (a == b) throw MyError("m"), std::runtime_error);
    return;
  case 17:
    line = __LINE__ + 2;
    if (a != b) ends(Type::Failure, {loc(line), "RC_ASSERT_THROWS_AS(", "MyError"});
    RC_ASSERT_THROWS_AS(if (a == b) throw MyError("m"); else throw std::runtime_error("r"), MyError);
    return;
  // Unconditional results.
  case 18: line = __LINE__; ends(Type::Failure, {loc(line), "RC_FAIL(t)", t}); RC_FAIL(t); return;
  case 19: line = __LINE__; ends(Type::Discard, {loc(line), "RC_DISCARD(t)", t}); RC_DISCARD(t); return;
  case 20: line = __LINE__; ends(Type::Success, {loc(line), "RC_SUCCEED(t)", t}); RC_SUCCEED(t); return;
  // Exceptions.
  case 21: ends(Type::Failure, {t}); throw std::runtime_error(t);
  case 22: ends(Type::Failure, {t}); throw MyError(t);
  case 23: ends(Type::Failure, {t}); throw std::string(t);
  case 24: ends(Type::Failure, {}); throw 17;
  case 25: ends(Type::Failure, {}); throw Odd{3};
  case 26: ends(Type::Failure, {}); throw t.c_str();
  case 27: ends(Type::Discard, {t}); throw GenerationFailure(t);
  case 28: ends(Type::Failure, {t}); throw CaseResult(Type::Failure, t);
  case 29: ends(Type::Discard, {t}); throw CaseResult(Type::Discard, t);
  case 30: ends(Type::Success, {t}); throw CaseResult(Type::Success, t);
  case 31: // generation that cannot succeed
    ends(Type::Discard, {});
    *gen::suchThat(gen::just(1), [](int) { return false; });
    return;
  case 32: { // a generator whose evaluation throws
    ends(Type::Failure, {t});
    const std::string msg = t;
    *gen::map(gen::just(1), [=](int) -> int { throw std::logic_error(msg); });
    return;
  }
  case 33: { // a failing assertion swallowed by the body does not count
    try {
      RC_FAIL(t);
    } catch (const CaseResult &) {
    }
    return;
  }
  case 34: // picks are not results
    *gen::inRange(0, 10);
    return;
  case 35: { // RC_ASSERT with a single large expression and a string member
    const bool odd = (a & 1) == 1;
    line = __LINE__ + 2;
    if (odd) ends(Type::Failure, {loc(line), "RC_ASSERT(!odd)", "false"});
    RC_ASSERT(!odd);
    return;
  }
  case 36: { // numbers in whatever format the log is in
    auto f = [=](std::ostream &os) { os << t << a * 37 + 11 << ' ' << (a + 1) / 7.0 << ' ' << (a == b) << '|'; };
    m.write(f);
    f(RC_LOG());
    return;
  }
  case 37: { // a change of format
    auto f = [=](std::ostream &os) { reformat(os, a * 6 + b); };
    m.write(f);
    f(RC_LOG());
    return;
  }
  case 38: { // both, in one chain
    auto f = [=](std::ostream &os) {
      reformat(os, a + b * 4);
      os << std::setw(12) << b + 100 << ' ' << b + 200 << ' ' << t;
    };
    m.write(f);
    f(RC_LOG());
    return;
  }
  }
}
const int kKinds = 39;

std::string opStr(const Op &o) { return cat(o.kind, "(", o.a, ",", o.b, ")"); }

struct Ret {
  int kind; // 0 void, 1 bool, 2 string, 3 CaseResult
  uint64_t value;
};

void finish(const Ret &ret, Model &m, const std::string &token) {
  if (m.ended)
    return;
  switch (ret.kind) {
  case 0: m.report(Type::Success, {}); break;
  case 1: m.report(ret.value % 2 ? Type::Success : Type::Failure, {}); break;
  case 2:
    if (ret.value % 2)
      m.report(Type::Success, {});
    else
      m.report(Type::Failure, {token});
    break;
  case 3: m.report(ret.value % 3 == 0 ? Type::Success : ret.value % 3 == 1 ? Type::Failure : Type::Discard, {token}); break;
  }
}

void compare(Ctx &c, const CaseDescription &d, const Model &m, const std::vector<std::string> &tokens,
             const std::string &what) {
  REQ(d.result.type == m.type, "classified as ", d.result, ", expected ", m.type, " ; ", what);
  REQ(d.tags == m.tags, "tags ", toString(d.tags), " expected ", toString(m.tags), " ; ", what);
  const std::string &text = d.result.description;
  if (m.type != Type::Success) {
    size_t pos = 0;
    bool first = true;
    for (auto &msg : m.messages) {
      for (size_t i = 0; i < msg.size(); i++) {
        const auto &part = msg[i];
        const auto at = text.find(part, pos);
        REQ(at != std::string::npos, "description ", quote(text), " lacks ", quote(part),
            " in the expected place; ", what);
        // Every report is on lines of its own.
        if (i == 0 && !first && !part.empty())
          REQ(text.substr(pos, at - pos).find('\n') != std::string::npos, "no new line before ", quote(part), " in ",
              quote(text), " ; ", what);
        pos = at + part.size();
      }
      first = false;
    }
    // The log comes last, complete and in order.
    if (!m.log.empty()) {
      REQ(text.size() >= pos + m.log.size() &&
              text.compare(text.size() - m.log.size(), m.log.size(), m.log) == 0,
          "description ", quote(text), " does not end with the log ", quote(m.log), " ; ", what);
      REQ(text.substr(pos, text.size() - m.log.size() - pos).find('\n') != std::string::npos,
          "no new line before the log in ", quote(text), " ; ", what);
    }
    // Nothing else: texts of overridden results do not appear.
    std::string all = m.log;
    for (auto &msg : m.messages)
      for (auto &part : msg)
        all += part + "\n";
    for (auto &t : tokens)
      if (all.find(t) == std::string::npos)
        REQ(text.find(t) == std::string::npos, "description ", quote(text), " mentions ", t,
            " which was overridden; ", what);
  }
}

std::vector<Op> anyOps(Src &s, size_t max, std::vector<std::string> &tokens, const std::string &prefix) {
  const size_t n = s.draw(max);
  std::vector<Op> ops;
  for (size_t i = 0; i < n; i++) {
    Op o;
    // Mostly steps that let the body go on.
    o.kind = int(s.draw(4) ? s.oneOf({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 33, 34, 35, 36, 37, 38})
                           : s.draw(kKinds - 1));
    if (o.kind == 4 && s.draw(2)) // reported discards, but not too often
      o.kind = 0;
    o.a = int(s.draw(3));
    o.b = s.draw(4) ? o.a + int(s.draw(1)) : int(s.draw(5));
    if (o.kind == 7) o.b += 1;
    if (o.kind == 8 && s.draw(3)) o.b += 4;
    if (o.kind == 9 && s.draw(3)) o.b = o.a + 1;
    o.token = cat("<", prefix, i, ">");
    if (!s.draw(24)) // a long text, of several lines
      o.token = cat("<", prefix, i, std::string(s.draw(s.flag() ? 300 : 9000), s.flag() ? '\n' : '-'), prefix, i, ">");
    tokens.push_back(o.token);
    ops.push_back(o);
  }
  return ops;
}

template <typename R> struct Body;
} // namespace

FACET(classify, 6) {
  std::vector<std::string> tokens;
  const auto ops = anyOps(s, 7, tokens, "s");
  const Ret ret{int(s.draw(3)), s.draw(5)};
  const std::string last = "<ret>";
  tokens.push_back(last);
  auto model = std::make_shared<Model>();
  auto runs = std::make_shared<int>(0);
  auto body = [=] {
    *model = Model();
    ++*runs;
    for (auto &o : ops)
      perform(o, *model);
    finish(ret, *model, last);
  };
  Property prop = [&]() -> Property {
    switch (ret.kind) {
    case 0: return toProperty([=] { body(); });
    case 1: return toProperty([=] { body(); return ret.value % 2 == 1; });
    case 2: return toProperty([=] { body(); return ret.value % 2 ? std::string() : last; });
    default:
      return toProperty([=] {
        body();
        return CaseResult(ret.value % 3 == 0 ? Type::Success : ret.value % 3 == 1 ? Type::Failure : Type::Discard, last);
      });
    }
  }();
  std::string what = cat("steps ", [&] {
    std::string t;
    for (auto &o : ops)
      t += opStr(o) + " ";
    return t;
  }(), "return kind ", ret.kind, "/", ret.value);
  const auto sh = prop(anyRandom(s), int(s.draw(20)));
  const auto d = sh.value();
  const Model m = *model;
  compare(c, d, m, tokens, what);
  // Evaluating again gives the same, with the log of that evaluation only.
  const auto d2 = sh.value();
  REQ(d2.result == d.result && d2.tags == d.tags, "evaluating twice: ", d.result, " vs ", d2.result, " ; ", what);

  // The verdict of a run of this property follows.
  TestParams p;
  p.seed = s.anyBits();
  p.maxSuccess = int(1 + s.draw(3));
  p.maxDiscardRatio = int(s.draw(2));
  p.disableShrinking = s.flag();
  TestListenerAdapter l;
  const auto r = testProperty(prop, TestMetadata(), p, l);
  switch (m.type) {
  case Type::Success:
    REQ(r.is<SuccessResult>() && r.get<SuccessResult>().numSuccess == p.maxSuccess, "run gave ", r, " ; ", what);
    break;
  case Type::Failure:
    REQ(r.is<FailureResult>() && r.get<FailureResult>().numSuccess == 0, "run gave ", r, " ; ", what);
    REQ_EQ(r.get<FailureResult>().description, d.result.description, what);
    break;
  case Type::Discard:
    REQ(r.is<GaveUpResult>() && r.get<GaveUpResult>().numSuccess == 0, "run gave ", r, " ; ", what);
    REQ_EQ(r.get<GaveUpResult>().description, d.result.description, what);
    break;
  }
  c.nontrivial(ops.size() >= 2 && m.type != Type::Success);
  c.label(cat(m.type, " ret", ret.kind));
  c.sample(cat(what, " -> ", d.result));
}

// Several cases of one run do not see each other's log, tags or reports.
FACET(isolation, 2) {
  std::vector<std::string> tokens;
  std::vector<std::vector<Op>> bodies;
  const size_t n = 2 + s.draw(3);
  for (size_t i = 0; i < n; i++)
    bodies.push_back(anyOps(s, 4, tokens, std::string(1, char('a' + i))));
  auto next = std::make_shared<size_t>(0);
  auto model = std::make_shared<Model>();
  const auto prop = toProperty([=] {
    *model = Model();
    const auto &ops = bodies[*next % bodies.size()];
    for (auto &o : ops)
      perform(o, *model);
    finish(Ret{0, 0}, *model, "");
  });
  for (size_t i = 0; i < n; i++) {
    *next = i;
    const auto d = prop(anyRandom(s), int(s.draw(20))).value();
    std::vector<std::string> all = tokens;
    compare(c, d, *model, all, cat("case ", i));
    for (auto &t : tokens)
      if (t[1] != char('a' + i))
        REQ(d.result.description.find(t) == std::string::npos, "case ", i, " mentions ", t, " of another case: ",
            quote(d.result.description));
  }
  c.nontrivial();
}

// A fixed set of bodies of every parameter shape: outcome must not depend on
// how many arguments the body takes.
FACET(arguments, 1) {
  const int64_t k = s.range(-5, 5);
  const Random r = anyRandom(s);
  const int size = int(s.draw(50));
  struct Seen {
    std::vector<int64_t> v;
  };
  auto seen = std::make_shared<Seen>();
  auto check = [&](const Property &p, const std::string &name) {
    seen->v.clear();
    const auto d = p(r, size).value();
    REQ(!seen->v.empty(), "body did not run");
    int64_t sum = 0;
    for (auto x : seen->v)
      sum += x;
    const bool fails = (sum + k) % 3 == 0;
    REQ(d.result.type == (fails ? Type::Failure : Type::Success), name, " with ", listStr(seen->v), " gave ", d.result);
    std::vector<int64_t> first = seen->v;
    p(r, size).value();
    REQ(first == seen->v, "arguments changed: ", listStr(first), " ", listStr(seen->v));
  };
  auto verdict = [=](std::vector<int64_t> v) {
    seen->v = v;
    int64_t sum = 0;
    for (auto x : v)
      sum += x;
    return (sum + k) % 3 != 0;
  };
  check(toProperty([=](int8_t a) { return verdict({a}); }), "one");
  check(toProperty([=](int8_t a, const std::vector<bool> &b) { return verdict({a, int64_t(b.size())}); }), "two");
  check(toProperty([=](std::string a, uint8_t b, std::pair<bool, int16_t> d) {
    RC_ASSERT(verdict({int64_t(a.size()), b, d.first, d.second}));
  }), "three");
  c.nontrivial();
}
