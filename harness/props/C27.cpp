// C27: dynamic scoping survives nesting, exceptions and nested properties.
#include "rose.h"
#include "detail/Testing.h"
#include <rapidcheck/detail/ImplicitParam.h>
#include <rapidcheck/detail/PropertyContext.h>
#include <rapidcheck/detail/TestListenerAdapter.h>
using namespace pbt;
using namespace rc;
using namespace rc::detail;
using namespace rcx;

namespace {
// The parameters. Serial counts the defaults made, so that a default made twice
// shows.
int serial = 0;
bool throwNext = false;
struct PA { using ValueType = int; static int defaultValue() { return -1; } };
struct PB { using ValueType = std::string; static std::string defaultValue() { return "default"; } };
struct PC {
  using ValueType = int;
  static int defaultValue() {
    if (throwNext) {
      throwNext = false;
      throw std::runtime_error("default refused");
    }
    return 1000 + serial++;
  }
};
struct PD {
  using ValueType = std::unique_ptr<int>;
  static std::unique_ptr<int> defaultValue() { return std::unique_ptr<int>(new int(-7)); }
};
// Default depends on another parameter.
struct PE { using ValueType = int; static int defaultValue() { return ImplicitParam<PA>::value() * 10 + 1; } };
const int PARAMS = 5;

std::string readParam(int p) {
  switch (p) {
  case 0: return str(ImplicitParam<PA>::value());
  case 1: return ImplicitParam<PB>::value();
  case 2: return str(ImplicitParam<PC>::value());
  case 3: return str(*ImplicitParam<PD>::value());
  default: return str(ImplicitParam<PE>::value());
  }
}
std::string mutateParam(int p, int v) {
  switch (p) {
  case 0: ImplicitParam<PA>::value() = v; return str(v);
  case 1: ImplicitParam<PB>::value() = "m" + str(v); return "m" + str(v);
  case 2: ImplicitParam<PC>::value() = v; return str(v);
  case 3: *ImplicitParam<PD>::value() = v; return str(v);
  default: ImplicitParam<PE>::value() = v; return str(v);
  }
}
// The reference: a stack of scopes, each with a stack of bindings per parameter.
struct RefScope { std::vector<std::string> b[PARAMS]; };
struct Ref {
  std::vector<RefScope> scopes;
  std::string &at(int p) {
    auto &v = scopes.back().b[p];
    if (v.empty()) {
      switch (p) {
      case 0: v.push_back("-1"); break;
      case 1: v.push_back("default"); break;
      case 2: v.push_back(str(1000 + serial)); break; // about to be made
      case 3: v.push_back("-7"); break;
      default: {
        const std::string a = at(0);
        v.push_back(str(std::stoi(a) * 10 + 1));
      }
      }
    }
    return v.back();
  }
};
Ref ref; // the outermost level lives as long as the program

struct Unwind { int id; };
struct Op {
  enum K { READ, MUTATE, BIND, SCOPE, TRY, THROW, DEFTHROW } k;
  int p, v;
  std::vector<Op> body;
};
const char *const names = "ABCDE";
std::string show(const std::vector<Op> &ops) {
  std::string out = "{";
  for (auto &o : ops) {
    out += out.size() > 1 ? " " : "";
    switch (o.k) {
    case Op::READ: out += cat(names[o.p], "?"); break;
    case Op::MUTATE: out += cat(names[o.p], ":=", o.v); break;
    case Op::BIND: out += cat("let ", names[o.p], "=", o.v, show(o.body)); break;
    case Op::SCOPE: out += cat("scope", show(o.body)); break;
    case Op::TRY: out += cat("try", show(o.body)); break;
    case Op::THROW: out += "throw"; break;
    case Op::DEFTHROW: out += "refuse"; break;
    }
  }
  return out + "}";
}
std::vector<Op> anyOps(Src &s, int &budget, int depth) {
  std::vector<Op> out;
  const uint64_t more = 2 + s.draw(5);
  while (budget > 0 && s.draw(more) != 0) {
    budget--;
    Op o{Op::K(s.draw(9) % 7), int(s.draw(PARAMS - 1)), int(s.draw(99)), {}};
    if ((o.k == Op::BIND || o.k == Op::SCOPE || o.k == Op::TRY)) {
      if (depth > 24)
        o.k = Op::READ;
      else
        o.body = anyOps(s, budget, depth + 1);
    }
    if (o.k == Op::THROW && s.draw(2) == 0)
      o.k = Op::READ;
    out.push_back(std::move(o));
  }
  return out;
}
struct Stats { int reads = 0, depth = 0, unwound = 0; };
Ctx *ctx;
std::string program;
void check(int p) {
  auto &c = *ctx;
  const std::string want = ref.at(p);
  const std::string got = readParam(p);
  REQ_EQ(got, want, "parameter ", names[p], " at scope ", ref.scopes.size() - 1, " of ", program);
}
void interp(const std::vector<Op> &ops, Stats &st, int depth);
template <typename P> struct Binder {
  template <typename V> static void run(int p, V v, const std::string &text, const Op &o, Stats &st, int depth) {
    struct Pop {
      size_t level;
      int p;
      ~Pop() { ref.scopes[level].b[p].pop_back(); }
    };
    ImplicitParam<P> let(std::move(v));
    ref.scopes.back().b[p].push_back(text);
    Pop pop{ref.scopes.size() - 1, p};
    check(p);
    interp(o.body, st, depth + 1);
  }
};
void interp(const std::vector<Op> &ops, Stats &st, int depth) {
  st.depth = std::max(st.depth, depth);
  for (auto &o : ops) {
    switch (o.k) {
    case Op::READ:
      check(o.p);
      st.reads++;
      break;
    case Op::MUTATE: {
      ref.at(o.p);
      const std::string want = mutateParam(o.p, o.v);
      ref.at(o.p) = want;
      break;
    }
    case Op::BIND: {
      const std::string t = o.p == 1 ? "b" + str(o.v) : str(o.v);
      switch (o.p) {
      case 0: Binder<PA>::run(0, o.v, t, o, st, depth); break;
      case 1: Binder<PB>::run(1, t, t, o, st, depth); break;
      case 2: Binder<PC>::run(2, o.v, t, o, st, depth); break;
      case 3: Binder<PD>::run(3, std::unique_ptr<int>(new int(o.v)), t, o, st, depth); break;
      default: Binder<PE>::run(4, o.v, t, o, st, depth); break;
      }
      break;
    }
    case Op::SCOPE: {
      struct Pop {
        ~Pop() { ref.scopes.pop_back(); }
      };
      ImplicitScope scope;
      ref.scopes.emplace_back();
      Pop pop;
      interp(o.body, st, depth + 1);
      break;
    }
    case Op::TRY: {
      std::vector<std::string> before;
      for (int p = 0; p < PARAMS; p++)
        before.push_back(ref.scopes.back().b[p].empty() ? "" : ref.scopes.back().b[p].back());
      const size_t level = ref.scopes.size();
      try {
        interp(o.body, st, depth + 1);
      } catch (const Unwind &) {
        st.unwound++;
      }
      if (ref.scopes.size() != level)
        std::abort();
      break;
    }
    case Op::THROW: throw Unwind{1};
    case Op::DEFTHROW: {
      // The default refuses once: nothing becomes bound.
      auto &c = *ctx;
      if (ref.scopes.back().b[2].empty()) {
        throwNext = true;
        bool threw = false;
        try {
          readParam(2);
        } catch (const std::runtime_error &) {
          threw = true;
        }
        throwNext = false;
        REQ(threw, "a default that throws was not asked for in ", program);
      }
      check(2);
      break;
    }
    }
  }
}
} // namespace

FACET(scopes, 5) {
  ctx = &c;
  int budget = int(4 + s.draw(60));
  const auto ops = anyOps(s, budget, 0);
  program = show(ops);
  const bool root = s.draw(2) == 0;
  if (ref.scopes.empty())
    ref.scopes.emplace_back();
  const Ref saved = ref;
  Stats st;
  struct Restore { // an oracle failure unwinds the real bindings; the reference too
    ~Restore() {
      ref.scopes.resize(1);
    }
  } restore;
  const auto run = [&] {
    try {
      interp(ops, st, 0);
    } catch (const Unwind &) {
      st.unwound++;
    }
    for (int p = 0; p < PARAMS; p++)
      check(p);
  };
  if (root) {
    run();
  } else {
    ImplicitScope scope;
    ref.scopes.emplace_back();
    run();
  }
  ref.scopes.resize(1);
  for (int p = 0; p < PARAMS; p++) {
    REQ(root || ref.scopes[0].b[p] == saved.scopes[0].b[p], "reference");
    check(p); // what was visible outside is visible again
  }
  c.nontrivial(st.depth >= 3 && st.reads >= 2);
  c.label(cat(root ? "outermost" : "scoped", st.unwound ? ", unwound" : ""));
  if (c.wantSample())
    c.sample(program);
}

namespace {
// Programs of bodies: nested picks and nested properties.
struct B {
  enum K { LOG, TAG, PICK, EXEC, RUN, REPORT, FAILS, DISCARDS, THROWS, SUCCEEDS, TRYB } k;
  int n;
  int cond; // 0 always, else only if the last pick is even (1) or odd (2)
  int mode;
  std::vector<B> body;
};
using Bs = std::vector<B>;
std::string show(const Bs &v) {
  std::string out = "{";
  for (auto &b : v) {
    out += out.size() > 1 ? "; " : "";
    out += b.cond == 1 ? "even? " : b.cond == 2 ? "odd? " : "";
    static const char *const n[] = {"log", "tag", "pick", "exec", "run", "report", "fail", "discard", "throw", "succeed", "try"};
    out += n[b.k];
    if (b.k == B::RUN)
      out += str(b.mode);
    out += b.body.empty() ? " " + str(b.n) : show(b.body);
  }
  return out + "}";
}
Bs anyBs(Src &s, int &budget, int runs, int depth) {
  Bs out;
  const uint64_t more = 3 + s.draw(4);
  while (budget > 0 && s.draw(more) != 0 && out.size() < 8) {
    budget--;
    static const B::K kinds[] = {B::PICK, B::LOG, B::TAG, B::PICK, B::EXEC, B::RUN, B::TRYB, B::REPORT, B::FAILS, B::DISCARDS, B::THROWS, B::SUCCEEDS};
    B b{kinds[s.draw(depth < 3 ? 11 : 3)], int(s.draw(30)), int(s.draw(4)) - 2, int(s.draw(3)), {}};
    if (b.cond < 0)
      b.cond = 0;
    if (b.k >= B::REPORT && b.k <= B::SUCCEEDS && s.draw(3) != 0)
      b.k = B::LOG;
    if (b.k == B::RUN && runs <= 0)
      b.k = B::EXEC;
    if (b.k == B::EXEC || b.k == B::RUN || b.k == B::TRYB)
      b.body = anyBs(s, budget, b.k == B::RUN ? runs - 1 : runs, depth + 1);
    out.push_back(std::move(b));
  }
  return out;
}
// The same program without nested properties, and without logging, tagging and
// reporting in nested bodies.
Bs flat(const Bs &v, bool inExec) {
  Bs out;
  for (auto &b : v) {
    if (b.k == B::RUN || (inExec && (b.k == B::LOG || b.k == B::TAG || b.k == B::REPORT)))
      continue;
    B x = b;
    x.body = flat(b.body, inExec || b.k == B::EXEC);
    out.push_back(std::move(x));
  }
  return out;
}
std::map<const B *, std::string> alone; // results of nested properties run alone
int nestedRuns;
bool recording;
void interpB(const Bs &v, int &last, int &sum);
void runBody(const Bs &v) {
  int last = 0, sum = 0;
  interpB(v, last, sum);
}
std::string runNested(const B &b) {
  const auto prop = toProperty([&b] { runBody(b.body); });
  std::ostringstream os;
  if (b.mode == 0) {
    const auto d = prop(Random(uint64_t(b.n)), b.n).value();
    os << d.result << " " << listStr(d.tags.size() ? std::vector<size_t>{d.tags.size()} : std::vector<size_t>());
    for (auto &t : d.tags)
      os << " " << t;
  } else {
    TestParams p;
    p.seed = uint64_t(b.n);
    p.maxSuccess = 1 + b.n % 4;
    p.maxSize = 20;
    p.maxDiscardRatio = 2;
    p.disableShrinking = b.mode == 2;
    struct L : TestListenerAdapter {
      std::ostringstream os;
      void onTestCaseFinished(const CaseDescription &d) override {
        os << d.result;
        for (auto &t : d.tags)
          os << " " << t;
        os << "\n";
      }
      void onShrinkTried(const CaseDescription &d, bool a) override { os << a << d.result << "\n"; }
    } l;
    const auto r = testProperty(prop, TestMetadata(), p, l);
    os << l.os.str() << r;
    if (b.mode == 3) { // and replayed
      Reproduce rep;
      rep.random = Random(uint64_t(b.n) + 1);
      rep.size = b.n;
      FailureResult f;
      if (r.match(f))
        rep = f.reproduce;
      os << reproduceProperty(prop, rep);
    }
  }
  return os.str();
}
void interpB(const Bs &v, int &last, int &sum) {
  for (auto &b : v) {
    if (b.cond && (last % 2 == 0) != (b.cond == 1))
      continue;
    switch (b.k) {
    case B::LOG: RC_LOG() << "log" << b.n << "."; break;
    case B::TAG: RC_TAG(b.n); break;
    case B::PICK: last = *gen::inRange(0, b.n + 1); sum += last; break;
    case B::EXEC: {
      const Bs &body = b.body;
      sum += *gen::exec([&body] {
        int l = 0, s = 0;
        interpB(body, l, s);
        return s;
      });
      break;
    }
    case B::RUN: {
      nestedRuns++;
      const auto r = runNested(b);
      if (recording)
        break;
      const auto &want = alone[&b];
      if (r != want)
        ctx->note(cat("nested property ", show(Bs{b}), " gave\n", r, "\ninstead of\n", want));
      break;
    }
    case B::REPORT:
      ImplicitParam<param::CurrentPropertyContext>::value()->reportResult(CaseResult(CaseResult::Type::Failure, cat("reported ", b.n)));
      break;
    case B::FAILS: RC_FAIL(cat("failed ", b.n)); break;
    case B::DISCARDS: RC_DISCARD(cat("discarded ", b.n)); break;
    case B::THROWS: throw std::runtime_error(cat("thrown ", b.n));
    case B::SUCCEEDS: RC_SUCCEED(cat("succeeded ", b.n)); break;
    case B::TRYB:
      try {
        interpB(b.body, last, sum);
      } catch (...) {
        sum++;
      }
      break;
    }
  }
}
// Innermost first.
void record(const Bs &v) {
  for (auto &b : v) {
    record(b.body);
    if (b.k == B::RUN)
      alone[&b] = runNested(b);
  }
}
struct QuietCerr {
  std::ostringstream os;
  std::streambuf *old;
  QuietCerr() : old(std::cerr.rdbuf(os.rdbuf())) {}
  ~QuietCerr() { std::cerr.rdbuf(old); }
};
bool hasExec(const Bs &v) {
  for (auto &b : v)
    if (b.k == B::EXEC || hasExec(b.body))
      return true;
  return false;
}
} // namespace

FACET(nested, 4) {
  ctx = &c;
  alone.clear();
  int budget = int(3 + s.draw(17));
  const Bs prog = anyBs(s, budget, 2, 0);
  const Bs bare = flat(prog, false);
  const Random random = anyRandom(s);
  const int size = anySize(s, 100);
  nestedRuns = 0;
  // A property alone does not depend on what surrounds it.
  const bool hadHandler = s.flag();
  {
    QuietCerr quiet;
    recording = false;
    record(prog);
    const auto a = toProperty([&prog] { runBody(prog); });
    const auto b = toProperty([&bare] { runBody(bare); });
    nestedRuns = 0;
    const auto sa = a(random, size), sb = b(random, size);
    const size_t before = quiet.os.str().size();
    const auto va = sa.value();
    const auto logged = quiet.os.str().substr(before);
    const auto vb = sb.value();
    REQ(va == vb, "case ", va, " instead of ", vb, " without what is nested, of ", show(prog));
    if (nestedRuns == 0 && !hasExec(prog))
      REQ(logged.empty(), "log went elsewhere: ", quote(logged), " of ", show(prog));
    int b2 = 40;
    const auto d = sameTree<CaseDescription>(sa, sb, b2, 3);
    REQ(d.empty(), d, " of ", show(prog));
    // The whole inside a body of yet another property.
    if (hadHandler) {
      CaseDescription inner;
      const auto outer = toProperty([&] {
        RC_LOG() << "outer";
        RC_TAG(std::string("outer"));
        const int x = *gen::inRange(0, 100);
        inner = a(random, size).value();
        const int y = *gen::inRange(0, 100);
        RC_TAG(x, y);
      });
      const auto plain = toProperty([&] {
        RC_LOG() << "outer";
        RC_TAG(std::string("outer"));
        const int x = *gen::inRange(0, 100);
        const int y = *gen::inRange(0, 100);
        RC_TAG(x, y);
      });
      const auto vo = outer(random, size).value(), vp = plain(random, size).value();
      REQ(vo == vp, "outer case ", vo, " instead of ", vp, " around ", show(prog));
      REQ(inner == va, "nested case ", inner, " instead of ", va, " of ", show(prog));
    }
    c.label(va.result.type == CaseResult::Type::Success ? "success" : va.result.type == CaseResult::Type::Failure ? "failure" : "discard");
  }
  c.nontrivial(nestedRuns > 0 && show(prog).size() > 40);
  if (c.wantSample())
    c.sample(show(prog));
}
