#pragma once
#include "source.h"
#include <array>
namespace C19 {
using namespace pbt;
using namespace rc;
using namespace rcx;

// Members are chosen at run time through pointers to members of equal type.
struct Obj {
  int64_t a = -1, b = -2, cc = -3;
  std::string t = "t0", u = "u0";
  std::vector<std::string> log;
  void setA(int64_t x) { a = x; log.push_back(cat("A", x)); }
  void setB(int64_t x) { b = x; log.push_back(cat("B", x)); }
  void setC(int64_t x) { cc = x; log.push_back(cat("C", x)); }
  void setT(const std::string &x) { t = x; log.push_back("T" + x); }
  void setU(const std::string &x) { u = x; log.push_back("U" + x); }
  int setAT(int64_t x, const std::string &y) { a = x; t = y; log.push_back(cat("AT", x, y)); return 3; }
  int setBU(int64_t x, const std::string &y) { b = x; u = y; log.push_back(cat("BU", x, y)); return 4; }
  void setABC(int64_t x, int64_t y, int64_t z) { a = x; b = y; cc = z; log.push_back(cat("ABC", x, ",", y, ",", z)); }
  void setCAB(int64_t x, int64_t y, int64_t z) { cc = x; a = y; b = z; log.push_back(cat("CAB", x, ",", y, ",", z)); }
  bool operator==(const Obj &o) const { return a == o.a && b == o.b && cc == o.cc && t == o.t && u == o.u && log == o.log; }
};
inline std::ostream &operator<<(std::ostream &os, const Obj &o) {
  os << "{" << o.a << "," << o.b << "," << o.cc << "," << o.t << "," << o.u << "|";
  for (auto &l : o.log)
    os << l << ";";
  return os << "}";
}
struct Arg { int64_t x; std::string s; int64_t y;
  Arg(int64_t x_, std::string s_, int64_t y_) : x(x_), s(std::move(s_)), y(y_) {}
  bool operator==(const Arg &o) const { return x == o.x && s == o.s && y == o.y; } };
struct Owner { std::unique_ptr<int64_t> p; std::string s; Owner(std::unique_ptr<int64_t> p_, std::string s_) : p(std::move(p_)), s(std::move(s_)) {} };

template <typename T> void compare(Ctx &c, const Shrinkable<T> &sh, const Lazy<T> &ref, const std::string &what) {
  int budget = 600;
  const auto d = lazyDiff<T>(sh, ref, budget);
  REQ(d.empty(), d, "; expected ", lazyStr<T>(ref), " in ", what);
  c.nontrivial(budget < 597);
  if (c.wantSample())
    c.sample(cat(what, ": ", lazyStr<T>(ref).substr(0, 300)));
}
template <typename T> void oneCall(Ctx &c, const Source<T> &src, int size, const std::string &what) {
  REQ(!src.calls->empty(), "a generator was not used in ", what);
  for (auto &x : *src.calls) {
    REQ_EQ(x.size, size, "size of an argument in ", what);
    REQ(x.random == src.calls->front().random, "an argument was generated from two random states in ", what);
  }
}
template <typename P> long useCount(const std::unique_ptr<P> &) { return 1; }
template <typename P> long useCount(const std::shared_ptr<P> &p) { return p.use_count(); }
// Separately produced values never share their pointee.
template <typename P> void fresh(Src &s, Ctx &c, const Shrinkable<P> &sh, const std::string &what) {
  std::vector<P> all;
  std::set<const void *> seen;
  const auto add = [&](const Shrinkable<P> &n) {
    for (int i = 0; i < 2; i++) {
      P p = n.value();
      REQ(p != nullptr, "null pointee in ", what);
      REQ(seen.insert(p.get()).second, "two produced values share a pointee in ", what);
      REQ_EQ(useCount(p), 1, "the pointee of a produced value is also held elsewhere in ", what);
      all.push_back(std::move(p));
    }
  };
  int n = 0;
  randomWalk(s, sh, 3, 4, [&](const Shrinkable<P> &x, int) { if (n++ < 20) add(x); });
}
inline Obj plain(const Obj &o) { return o; }
inline Obj plain(const std::unique_ptr<Obj> &o) { return *o; }
inline Obj plain(const std::shared_ptr<Obj> &o) { return *o; }
template <typename T> struct Make { static Obj of(int64_t a) { Obj o; o.a = a; o.b = a * 2; o.t = cat("base", a); return o; } };
template <typename T> struct Make<std::unique_ptr<T>> { static std::unique_ptr<T> of(int64_t a) { return std::unique_ptr<T>(new T(Make<T>::of(a))); } };
template <typename T> struct Make<std::shared_ptr<T>> { static std::shared_ptr<T> of(int64_t a) { return std::make_shared<T>(Make<T>::of(a)); } };
// Runs the test if the type is a pointer.
template <typename P> struct Fresh { static void run(Src &, Ctx &, const Shrinkable<P> &, const std::string &) {} };
template <typename P> struct Fresh<std::unique_ptr<P>> { static void run(Src &s, Ctx &c, const Shrinkable<std::unique_ptr<P>> &sh, const std::string &w) { fresh(s, c, sh, w); } };
template <typename P> struct Fresh<std::shared_ptr<P>> { static void run(Src &s, Ctx &c, const Shrinkable<std::shared_ptr<P>> &sh, const std::string &w) { fresh(s, c, sh, w); } };
// Default-constructed base: only the values have one.
template <typename T> struct Plain { template <typename... B> static Gen<T> build(const B &... b) { return gen::build<T>(gen::map(gen::just(0), [](int) { return Make<T>::of(0); }), b...); } static Obj base() { return plain(Make<T>::of(0)); } };
template <> struct Plain<Obj> { template <typename... B> static Gen<Obj> build(const B &... b) { return gen::build<Obj>(b...); } static Obj base() { return Obj(); } };

using Str = std::string;
using AT = std::tuple<int64_t, Str>;
using T3 = std::tuple<int64_t, int64_t, int64_t>;
// One kind of binding: a source, the members it can be bound to, and the model.
template <typename V, typename Member> struct Bind {
  Member m;
  Source<V> src;
  std::function<void(Obj &, const V &)> model;
};
using Var = int64_t Obj::*;
using SVar = Str Obj::*;
using Set1 = void (Obj::*)(int64_t);
using SetS = void (Obj::*)(const Str &);
inline Var var(uint64_t i) { return std::array<Var, 3>{{&Obj::a, &Obj::b, &Obj::cc}}[i % 3]; }
inline SVar svar(uint64_t i) { return i % 2 ? &Obj::t : &Obj::u; }
inline Set1 set1(uint64_t i) { return std::array<Set1, 3>{{&Obj::setA, &Obj::setB, &Obj::setC}}[i % 3]; }
inline SetS setS(uint64_t i) { return i % 2 ? &Obj::setT : &Obj::setU; }

template <typename T> void buildCase(Src &s, Ctx &c) {
  const bool withBase = s.flag();
  const auto base = anySrc<int64_t>(s, 3);
  const auto i1 = anySrc<int64_t>(s, 4), i2 = anySrc<int64_t>(s, 4), i3 = anySrc<int64_t>(s, 3), i4 = anySrc<int64_t>(s, 3);
  const auto i5 = anySrc<int64_t>(s, 3);
  const auto m1 = s.draw(5), m2 = s.draw(5), m3 = s.draw(5), m4 = s.draw(5);
  const Random random = anyRandom(s);
  const int size = anySize(s);
  const auto baseGen = gen::map(base.gen(), [](int64_t x) { return Make<T>::of(x); });
  const std::string what = cat("build with ", withBase ? "" : "no ", "base");
  using Tup = std::tuple<int64_t, int64_t, int64_t, int64_t, int64_t, int64_t>; // base and the sources in binding order
  const auto tree = [&](const Source<int64_t> &x) { return x.calls->empty() ? rose<int64_t>(0) : x.calls->front().tree; };
  const auto finish = [&](const Gen<T> &g, std::function<void(Obj &, const Tup &)> apply, const std::string &kind) {
    const auto sh = g(random, size);
    sh.value();
    const auto ref = lazyMap<Tup>(
        lazyTuple<int64_t, int64_t, int64_t, int64_t, int64_t, int64_t>(tree(base), tree(i1), tree(i2), tree(i3), tree(i4), tree(i5)),
        [=](const Tup &t) {
          Obj o = withBase ? plain(Make<T>::of(std::get<0>(t))) : Plain<T>::base();
          apply(o, t);
          return o;
        });
    compare<Obj>(c, shrinkable::map(sh, [](T &&x) { return plain(x); }), ref, what + " " + kind);
    Fresh<T>::run(s, c, sh, what + " " + kind);
    std::vector<Random> rs;
    for (auto *x : {&base, &i1, &i2, &i3, &i4, &i5})
      if (!x->calls->empty()) {
        oneCall(c, *x, size, what);
        rs.push_back(x->calls->front().random);
      }
    for (size_t i = 0; i < rs.size(); i++)
      for (size_t j = 0; j < i; j++)
        REQ(rs[i] != rs[j], "two bindings share a random state in ", what);
  };
  const auto str = [](const Source<int64_t> &x) { return gen::map(x.gen(), [](int64_t v) { return fromInt<Str>(v); }); };
  const auto toS = [](int64_t v) { return fromInt<Str>(v); };
#define B(...) (withBase ? gen::build(baseGen, __VA_ARGS__) : Plain<T>::build(__VA_ARGS__))
  switch (s.draw(5)) {
  case 0: {
    const auto v = var(m1);
    finish(B(gen::set(v, i1.gen())), [=](Obj &o, const Tup &t) { o.*v = std::get<1>(t); }, "one member");
    break;
  }
  case 1: {
    const auto v = var(m1), w = var(m2);
    const auto x = svar(m3);
    finish(B(gen::set(v, i1.gen()), gen::set(w, i2.gen()), gen::set(x, str(i3))),
           [=](Obj &o, const Tup &t) { o.*v = std::get<1>(t); o.*w = std::get<2>(t); o.*x = toS(std::get<3>(t)); }, "three members");
    break;
  }
  case 2: {
    const auto f = set1(m1), g = set1(m2);
    const auto h = setS(m3);
    finish(B(gen::set(f, i1.gen()), gen::set(h, str(i2)), gen::set(g, i3.gen())),
           [=](Obj &o, const Tup &t) { (o.*f)(std::get<1>(t)); (o.*h)(toS(std::get<2>(t))); (o.*g)(std::get<3>(t)); }, "three setters");
    break;
  }
  case 3: {
    const auto f = m1 % 2 ? &Obj::setAT : &Obj::setBU;
    const auto v = var(m2);
    finish(B(gen::set(v, i1.gen()), gen::set(f, gen::tuple(i2.gen(), str(i3)))),
           [=](Obj &o, const Tup &t) { o.*v = std::get<1>(t); (o.*f)(std::get<2>(t), toS(std::get<3>(t))); }, "member and two-argument setter");
    break;
  }
  case 4: {
    const auto f = m1 % 2 ? &Obj::setABC : &Obj::setCAB;
    const auto g = set1(m2);
    finish(B(gen::set(f, gen::tuple(i1.gen(), i2.gen(), i3.gen())), gen::set(g, i4.gen())),
           [=](Obj &o, const Tup &t) { (o.*f)(std::get<1>(t), std::get<2>(t), std::get<3>(t)); (o.*g)(std::get<4>(t)); }, "three-argument setter and setter");
    break;
  }
  default: {
    const auto g = set1(m1);
    const auto v = var(m2), w = var(m3);
    const auto h = setS(m4);
    finish(B(gen::set(g, i1.gen()), gen::set(v, i2.gen()), gen::set(h, str(i3)), gen::set(w, i4.gen()), gen::set(&Obj::setC, i5.gen())),
           [=](Obj &o, const Tup &t) { (o.*g)(std::get<1>(t)); o.*v = std::get<2>(t); (o.*h)(toS(std::get<3>(t))); o.*w = std::get<4>(t); o.setC(std::get<5>(t)); },
           "five bindings");
    break;
  }
  }
#undef B
}
} // namespace C19
