// The test program: checks the properties it is told to, writing what each
// case did to stdout.
#include "C09.h"
#include <cstdio>
#include <map>
#include <rapidcheck.h>
#include <rapidcheck/state.h>
#include <unistd.h>

namespace c09 {
std::string encode(const std::vector<Prop> &ps) {
  std::string out;
  for (auto &p : ps) {
    for (unsigned char ch : p.name)
      out += pbt::cat(int(ch), ".");
    out += pbt::cat(":", p.kind, ":", p.fail, ":", p.thr, ":", p.disc, ":", p.mod, ":", p.tag, ":", p.log, ";");
  }
  return out;
}
std::vector<Prop> decode(const std::string &t) {
  std::vector<Prop> out;
  std::istringstream is(t);
  for (std::string one; std::getline(is, one, ';');) {
    Prop p;
    std::istringstream f(one);
    std::string name;
    std::getline(f, name, ':');
    std::istringstream n(name);
    for (std::string x; std::getline(n, x, '.');)
      p.name += char(std::atoi(x.c_str()));
    char colon;
    f >> p.kind >> colon >> p.fail >> colon >> p.thr >> colon >> p.disc >> colon >> p.mod >> colon >> p.tag >> colon >> p.log;
    out.push_back(p);
  }
  return out;
}

namespace {
size_t now; // index of the property being checked

bool body(const Prop &p, int x, int n) {
  const auto say = [&](char o) { std::printf("%zu %d %d %c\n", now, x, n, o); };
  if (p.log)
    RC_LOG() << "x is " << x << " and n is " << n << "\n";
  if (p.disc && x % p.mod == 0) {
    say('D');
    if (p.disc == 1)
      RC_PRE(x % p.mod != 0);
    RC_DISCARD("unwanted");
  }
  if (p.tag) {
    RC_TAG(n % 3);
    RC_CLASSIFY(x < 0, "negative");
  }
  if (p.fail && (x >= p.thr || n >= p.thr + 2)) {
    say('F');
    switch (p.fail) {
    case 1: RC_FAIL("bad");
    case 2: throw std::runtime_error("thrown on purpose");
    case 3: RC_ASSERT(x < p.thr && n < p.thr + 2);
    case 4: throw 17;
    default: return false;
    }
  }
  say('S');
  return true;
}

// A counter that counts wrongly from some point on.
struct Model { int n = 0; };
struct Sut { int n = 0; const Prop *p = nullptr; };
struct Add : rc::state::Command<Model, Sut> {
  int by = *rc::gen::inRange(0, 5);
  void apply(Model &m) const override { m.n += by; }
  void run(const Model &m, Sut &s) const override {
    s.n += by;
    if (s.p->fail && s.n >= s.p->thr) {
      std::printf("%zu %d %d F\n", now, m.n, by);
      RC_ASSERT(s.n == -1);
    }
    RC_ASSERT(s.n == m.n + by);
  }
  void show(std::ostream &os) const override { os << "Add(" << by << ")"; }
};
struct Reset : rc::state::Command<Model, Sut> {
  void checkPreconditions(const Model &m) const override { RC_PRE(m.n > 3); }
  void apply(Model &m) const override { m.n = 0; }
  void run(const Model &, Sut &s) const override { s.n = 0; }
  void show(std::ostream &os) const override { os << "Reset"; }
};

template <typename F> bool run(const Prop &p, F f) {
  return p.name.empty() ? rc::check(f) : rc::check(p.name, f);
}
} // namespace

int helperMain(int argc, char **argv) {
  alarm(120);
  const auto ps = decode(argv[0]);
  bool ok = true;
  for (now = 0; now < ps.size(); now++) {
    const Prop &p = ps[now];
    std::cerr << "\n@@@ " << now << "\n";
    switch (p.kind) {
    case 0: ok &= run(p, [&](int x, const std::vector<int> &v) { return body(p, x, int(v.size())); }); break;
    case 1:
      ok &= run(p, [&] {
        const int x = *rc::gen::inRange(-50, 100).as("x");
        const auto v = *rc::gen::container<std::vector<int>>(rc::gen::inRange(0, x + 60));
        return body(p, x, int(v.size()));
      });
      break;
    case 2: ok &= run(p, [&](const std::string &s, const std::map<int, bool> &m, double) { return body(p, int(m.size()), int(s.size())); }); break;
    case 3:
      ok &= run(p, [&] {
        Sut sut;
        sut.p = &p;
        rc::state::check(Model(), sut, rc::state::gen::execOneOfWithArgs<Add, Reset>());
        if (p.disc && sut.n % p.mod == 0) {
          std::printf("%zu %d 0 D\n", now, sut.n);
          RC_DISCARD("unwanted");
        }
        std::printf("%zu %d 0 S\n", now, sut.n);
        return true;
      });
      break;
    case 4: ok &= run(p, [&](char a, unsigned char b, const std::pair<long, bool> &l) { return body(p, int(l.first), a + b); }); break;
    case 5:
      ok &= run(p, [&](int x) { // and without a value
        if (!body(p, x, 0))
          RC_FAIL("returned false");
      });
      break;
    default: ok &= run(p, [&](rc::Maybe<std::vector<int>> v) { return body(p, v ? int(v->size()) : -1, 0); }); break;
    }
  }
  std::cerr << "\n@@@ end\n";
  std::fflush(stdout);
  return ok ? 0 : 1;
}
static pbt::RegisterHelper registered(&helperMain);
} // namespace c09
