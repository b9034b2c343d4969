// C30: optional, variant and type-erased values behave as regular values.
#include "rcx.h"
#include <rapidcheck/Maybe.h>
#include <rapidcheck/detail/Any.h>
#include <rapidcheck/detail/Variant.h>
#include <array>
using namespace pbt;
using namespace rc;
using rc::detail::Any;
using rc::detail::Variant;

namespace {
// Every live object, by address, and whether the next operation throws.
std::set<const void *> live;
std::string misuse;
int throwIn = 0;
int thrown = 0;
struct Boom {};
void touch(const void *p, const char *what) {
  if (!live.count(p) && misuse.empty())
    misuse = cat("object that is not alive ", what);
}
void maybeThrow() {
  if (throwIn > 0 && --throwIn == 0) {
    thrown++;
    throw Boom();
  }
}
const int GONE = -1; // value of a moved-from object

// MOVES: moving may throw too.
template <int I, bool MOVES> struct Obj {
  int v;
  char *heap; // leaks and double frees show
  explicit Obj(int x = 0) : v(x) {
    maybeThrow();
    born();
  }
  Obj(int x, int y) : v(x * 100 + y) {
    maybeThrow();
    born();
  }
  Obj(const Obj &o) : v(o.v) {
    touch(&o, "copied");
    maybeThrow();
    born();
  }
  Obj(Obj &&o) noexcept(!MOVES) : v(o.v) {
    touch(&o, "moved");
    if (MOVES)
      maybeThrow();
    o.v = GONE;
    born();
  }
  Obj &operator=(const Obj &o) {
    touch(this, "assigned to");
    touch(&o, "assigned");
    maybeThrow();
    v = o.v;
    return *this;
  }
  Obj &operator=(Obj &&o) noexcept(!MOVES) {
    touch(this, "assigned to");
    touch(&o, "move-assigned");
    if (MOVES)
      maybeThrow();
    if (this != &o) {
      v = o.v;
      o.v = GONE;
    }
    return *this;
  }
  ~Obj() {
    touch(this, "destroyed");
    live.erase(this);
    delete heap;
  }
  void born() {
    heap = new char('x');
    if (!live.insert(this).second && misuse.empty())
      misuse = "object made where another one is alive";
  }
  bool operator==(const Obj &o) const {
    touch(this, "compared");
    touch(&o, "compared");
    return v == o.v;
  }
};
template <int I, bool M> std::ostream &operator<<(std::ostream &os, const Obj<I, M> &o) {
  touch(&o, "printed");
  return os << char('A' + I) << o.v;
}
using O = Obj<0, true>;
using A = Obj<0, false>;
using B = Obj<1, false>;
// Holds an object of another alternative inside.
struct Box {
  A inner;
  double pad[3];
  explicit Box(int v) : inner(v), pad() {}
  Box(const Box &) = default;
  Box(Box &&) = default;
  Box &operator=(const Box &) = default;
  Box &operator=(Box &&) = default;
  bool operator==(const Box &o) const { return inner == o.inner; }
};
std::ostream &operator<<(std::ostream &os, const Box &b) { return os << "[" << b.inner << "]"; }

struct Start {
  size_t before;
  Start() : before(live.size()) {
    misuse.clear();
    throwIn = 0;
    thrown = 0;
  }
  ~Start() { throwIn = 0; }
};
// Runs f with the next object operation throwing if asked; true if it threw.
template <typename F> bool attempt(bool fault, F f) {
  throwIn = fault ? 1 : 0;
  bool threw = false;
  try {
    f();
  } catch (const Boom &) {
    threw = true;
  }
  throwIn = 0;
  return threw;
}
std::string log_;
void did(const std::string &s) { log_ += (log_.empty() ? "" : ", ") + s; }
} // namespace

FACET(maybe, 4) {
  Start start;
  log_.clear();
  using M = Maybe<O>;
  struct Ref { bool has = false; int v = 0; };
  const size_t N = 4;
  std::array<std::unique_ptr<M>, N> m;
  std::array<Ref, N> ref;
  int faults = 0, moves = 0, ops = 0;
  const auto verify = [&] {
    REQ(misuse.empty(), misuse, " after ", log_);
    size_t n = 0;
    for (size_t i = 0; i < N; i++) {
      if (!m[i])
        continue;
      REQ_EQ(static_cast<bool>(*m[i]), ref[i].has, "presence in ", i, " after ", log_);
      if (ref[i].has) {
        n++;
        const M &k = *m[i];
        REQ_EQ((*k).v, ref[i].v, "value of ", i, " after ", log_);
        REQ_EQ(k->v, ref[i].v, "value of ", i, " after ", log_);
        REQ(live.count(&*k), "value of ", i, " is not alive after ", log_);
      }
    }
    REQ_EQ(live.size() - start.before, n, "objects alive after ", log_);
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j < N; j++) {
        if (!m[i] || !m[j])
          continue;
        const bool want = ref[i].has == ref[j].has && (!ref[i].has || ref[i].v == ref[j].v);
        REQ_EQ(*m[i] == *m[j], want, "equality of ", i, " and ", j, " after ", log_);
        REQ_EQ(*m[i] != *m[j], !want, "inequality of ", i, " and ", j, " after ", log_);
      }
  };
  const size_t len = 1 + s.draw(40);
  for (size_t step = 0; step < len; step++) {
    const size_t i = s.draw(N - 1), j = s.draw(N - 1);
    const int v = int(s.draw(9));
    const bool fault = s.draw(4) == 0;
    const uint64_t op = s.draw(19);
    ops++;
    // Construction into slot i.
    const auto construct = [&](const std::string &what, Ref r, const std::function<M *()> &f, size_t from = N) {
      m[i].reset();
      ref[i] = Ref();
      if (from == i)
        return; // its source is gone
      const bool threw = attempt(fault, [&] { m[i].reset(f()); });
      did(cat(what, " ", i, threw ? " throws" : ""));
      faults += threw;
      REQ(threw == !m[i], "slot ", i);
      if (!threw)
        ref[i] = r;
    };
    if (op <= 5) {
      switch (op) {
      case 0: construct("default", Ref(), [] { return new M(); }); break;
      case 1: construct("nothing", Ref(), [] { return new M(Nothing); }); break;
      case 2: {
        O o(v);
        construct(cat("value ", v), Ref{true, v}, [&] { return new M(o); });
        break;
      }
      case 3: {
        O o(v);
        construct(cat("rvalue ", v), Ref{true, v}, [&] { return new M(std::move(o)); });
        if (m[i])
          REQ_EQ(o.v, GONE, "source of a move after ", log_);
        break;
      }
      case 4:
        if (m[j])
          construct(cat("copy of ", j), ref[j], [&] { return new M(*m[j]); }, j);
        break;
      default:
        if (m[j]) {
          const Ref r = ref[j];
          construct(cat("move of ", j), r, [&] { return new M(std::move(*m[j])); }, j);
          if (m[i] && i != j && r.has)
            ref[j].v = GONE;
          moves++;
        }
        break;
      }
      verify();
      continue;
    }
    if (!m[i]) {
      m[i].reset(new M());
      ref[i] = Ref();
    }
    M &x = *m[i];
    bool threw = false;
    switch (op) {
    case 6: {
      O o(v);
      threw = attempt(fault, [&] { x = o; });
      if (!threw)
        ref[i] = Ref{true, v};
      did(cat(i, " = ", v));
      break;
    }
    case 7: {
      O o(v);
      threw = attempt(fault, [&] { x = std::move(o); });
      if (!threw)
        ref[i] = Ref{true, v};
      did(cat(i, " = rvalue ", v));
      break;
    }
    case 8:
      x = Nothing;
      ref[i] = Ref();
      did(cat(i, " = nothing"));
      break;
    case 9:
    case 10:
      if (!m[j])
        break;
      threw = attempt(fault, [&] { x = *m[j]; });
      if (!threw)
        ref[i] = ref[j];
      did(cat(i, " = ", j, " copied"));
      break;
    case 11:
    case 12:
      if (!m[j])
        break;
      threw = attempt(fault, [&] { x = std::move(*m[j]); });
      if (!threw && i != j) {
        ref[i] = ref[j];
        if (ref[j].has)
          ref[j].v = GONE;
      }
      moves++;
      did(cat(i, " = ", j, " moved"));
      break;
    case 13:
      threw = attempt(fault, [&] { x.init(v); });
      ref[i] = threw ? Ref() : Ref{true, v};
      did(cat("init ", i, " ", v));
      break;
    case 14:
      threw = attempt(fault, [&] { x.init(v, 7); });
      ref[i] = threw ? Ref() : Ref{true, v * 100 + 7};
      did(cat("init ", i, " ", v, " 7"));
      break;
    case 15:
      x.reset();
      ref[i] = Ref();
      did(cat("reset ", i));
      break;
    case 16:
      if (!ref[i].has)
        break;
      if (v % 2)
        (*x).v = v;
      else
        x->v = v;
      ref[i].v = v;
      did(cat("set ", i, " ", v));
      break;
    case 17:
      if (!ref[i].has)
        break;
      {
        O o(0);
        threw = attempt(fault, [&] { o = *std::move(x); });
        if (!threw) {
          REQ_EQ(o.v, ref[i].v, "extracted after ", log_);
          ref[i].v = GONE;
        }
      }
      did(cat("extract ", i));
      break;
    case 18:
      if (!m[j])
        break;
      std::swap(x, *m[j]);
      std::swap(ref[i], ref[j]);
      // A swap goes through moves: an empty one stays empty.
      did(cat("swap ", i, " ", j));
      moves++;
      break;
    default:
      m[i].reset();
      ref[i] = Ref();
      did(cat("destroy ", i));
      break;
    }
    if (threw)
      did("(throws)");
    faults += threw;
    verify();
    if (m[i]) {
      std::ostringstream os;
      os << *m[i];
      REQ(!Nothing, "Nothing is something");
      REQ_EQ(os.str(), (ref[i].has ? cat("A", ref[i].v) : std::string("Nothing")), "display after ", log_);
    }
  }
  for (auto &p : m)
    p.reset();
  REQ(misuse.empty(), misuse, " after ", log_);
  REQ_EQ(live.size(), start.before, "objects alive at the end of ", log_);
  c.nontrivial(ops > 5 && (faults > 0 || moves > 1));
  c.label(cat(std::min(faults, 3), " faults"));
  if (c.wantSample())
    c.sample(log_);
}

namespace {
using V = Variant<A, B, Box, std::string>;
struct VRef {
  int type; // 0..3
  int v;
  bool operator==(const VRef &o) const { return type == o.type && v == o.v; }
};
std::string text(int v) { return v == GONE ? "" : std::string(size_t(v % 3) * 20, 'x') + str(v); }
std::string shown(const VRef &r) {
  switch (r.type) {
  case 0: return cat("A", r.v);
  case 1: return cat("B", r.v);
  case 2: return cat("[A", r.v, "]");
  default: return text(r.v);
  }
}
} // namespace

FACET(variant, 4) {
  Start start;
  log_.clear();
  const size_t N = 4;
  std::array<std::unique_ptr<V>, N> m;
  std::array<VRef, N> ref;
  int faults = 0, changes = 0, ops = 0;
  const auto verify = [&] {
    REQ(misuse.empty(), misuse, " after ", log_);
    size_t n = 0;
    for (size_t i = 0; i < N; i++) {
      if (!m[i])
        continue;
      const V &x = *m[i];
      const VRef &r = ref[i];
      n += r.type != 3;
      REQ_EQ(x.is<A>(), r.type == 0, "type of ", i, " after ", log_);
      REQ_EQ(x.is<B>(), r.type == 1, "type of ", i, " after ", log_);
      REQ_EQ(x.is<Box>(), r.type == 2, "type of ", i, " after ", log_);
      REQ_EQ(x.is<std::string>(), r.type == 3, "type of ", i, " after ", log_);
      std::ostringstream os;
      os << x;
      REQ_EQ(os.str(), shown(r), "value of ", i, " after ", log_);
      switch (r.type) {
      case 0: REQ_EQ(x.get<A>().v, r.v, "value of ", i, " after ", log_); break;
      case 1: REQ_EQ(x.get<B>().v, r.v, "value of ", i, " after ", log_); break;
      case 2: REQ_EQ(x.get<Box>().inner.v, r.v, "value of ", i, " after ", log_); break;
      default: REQ_EQ(x.get<std::string>(), text(r.v), "value of ", i, " after ", log_); break;
      }
    }
    REQ_EQ(live.size() - start.before, n, "objects alive after ", log_);
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j < N; j++) {
        if (!m[i] || !m[j])
          continue;
        REQ_EQ(*m[i] == *m[j], ref[i] == ref[j], "equality of ", i, " and ", j, " after ", log_);
        REQ_EQ(*m[i] != *m[j], !(ref[i] == ref[j]), "inequality of ", i, " and ", j, " after ", log_);
      }
  };
  const size_t len = 1 + s.draw(40);
  for (size_t step = 0; step < len; step++) {
    const size_t i = s.draw(N - 1), j = s.draw(N - 1);
    const int v = int(s.draw(9)), t = int(s.draw(3));
    const bool fault = s.draw(4) == 0;
    const uint64_t op = s.draw(14);
    ops++;
    bool threw = false;
    const auto construct = [&](const std::string &what, VRef r, const std::function<V *()> &f) {
      m[i].reset();
      threw = attempt(fault, [&] { m[i].reset(f()); });
      did(cat(what, " ", i, threw ? " throws" : ""));
      ref[i] = r;
    };
    if (op <= 1 || !m[i]) {
      const bool rv = op == 1;
      const std::string what = cat(rv ? "rvalue " : "value ", shown(VRef{t, v}));
      switch (t) {
      case 0: {
        A o(v);
        construct(what, VRef{t, v}, [&] { return rv ? new V(std::move(o)) : new V(o); });
        break;
      }
      case 1: {
        const B o(v);
        construct(what, VRef{t, v}, [&] { return new V(o); });
        break;
      }
      case 2: {
        Box o(v);
        construct(what, VRef{t, v}, [&] { return rv ? new V(std::move(o)) : new V(o); });
        break;
      }
      default: {
        std::string o(text(v));
        construct(what, VRef{t, v}, [&] { return rv ? new V(std::move(o)) : new V(o); });
        break;
      }
      }
      faults += threw;
      verify();
      continue;
    }
    V &x = *m[i];
    switch (op) {
    case 2:
      if (!m[j] || i == j)
        break;
      construct(cat("copy of ", j), ref[j], [&] { return new V(*m[j]); });
      break;
    case 3:
      if (!m[j] || i == j)
        break;
      construct(cat("move of ", j), ref[j], [&] { return new V(std::move(*m[j])); });
      if (!threw)
        ref[j].v = GONE;
      break;
    case 4:
    case 5:
    case 6:
      if (!m[j])
        break;
      threw = attempt(fault, [&] { x = *m[j]; });
      changes += ref[i].type != ref[j].type;
      if (!threw)
        ref[i] = ref[j];
      did(cat(i, " = ", j, " copied"));
      break;
    case 7:
    case 8:
      if (!m[j] || i == j)
        break;
      threw = attempt(fault, [&] { x = std::move(*m[j]); });
      changes += ref[i].type != ref[j].type;
      ref[i] = ref[j];
      ref[j].v = GONE;
      did(cat(i, " = ", j, " moved"));
      break;
    case 9:
      changes += ref[i].type != t;
      switch (t) {
      case 0: { const A o(v); threw = attempt(fault, [&] { x = o; }); break; }
      case 1: { const B o(v); threw = attempt(fault, [&] { x = o; }); break; }
      case 2: { const Box o(v); threw = attempt(fault, [&] { x = o; }); break; }
      default: { const std::string o(text(v)); x = o; break; }
      }
      if (!threw)
        ref[i] = VRef{t, v};
      did(cat(i, " = ", shown(VRef{t, v})));
      break;
    case 10:
      changes += ref[i].type != t;
      switch (t) {
      case 0: x = A(v); break;
      case 1: x = B(v); break;
      case 2: x = Box(v); break;
      default: x = text(v); break;
      }
      ref[i] = VRef{t, v};
      did(cat(i, " = rvalue ", shown(ref[i])));
      break;
    case 11:
      switch (ref[i].type) {
      case 0: x.get<A>().v = v; break;
      case 1: x.get<B>().v = v; break;
      case 2: x.get<Box>().inner.v = v; break;
      default: x.get<std::string>() = text(v); break;
      }
      ref[i].v = v;
      did(cat("set ", i, " ", v));
      break;
    case 12: { // match
      A a(77);
      B b(77);
      Box box(77);
      std::string st = "none";
      bool ma = false, mb = false, mc = false, md = false;
      threw = attempt(fault, [&] {
        ma = x.match(a);
        mb = x.match(b);
        mc = x.match(box);
        md = x.match(st);
      });
      if (!threw) {
        REQ(ma == (ref[i].type == 0) && mb == (ref[i].type == 1) && mc == (ref[i].type == 2) && md == (ref[i].type == 3), "matching ", i, " after ", log_);
        const int got = ref[i].type == 0 ? a.v : ref[i].type == 1 ? b.v : ref[i].type == 2 ? box.inner.v : ref[i].v;
        REQ_EQ(got, ref[i].v, "matched value of ", i, " after ", log_);
        REQ(ref[i].type == 3 ? st == text(ref[i].v) : st == "none", "matched string of ", i, " after ", log_);
        REQ((ma || a.v == 77) && (mb || b.v == 77) && (mc || box.inner.v == 77), "a match of another type changed its argument after ", log_);
      }
      did(cat("match ", i));
      break;
    }
    case 13: // from a part of itself
      if (ref[i].type != 2)
        break;
      did(cat(i, " = part of ", i));
      x = static_cast<const V &>(x).get<Box>().inner;
      ref[i].type = 0;
      changes++;
      break;
    default:
      if (v < 5) {
        if (m[j] && i != j) {
          std::swap(x, *m[j]);
          std::swap(ref[i], ref[j]);
          did(cat("swap ", i, " ", j));
        }
        break;
      }
      switch (ref[i].type) {
      case 0: { const A o = std::move(x).get<A>(); REQ_EQ(o.v, ref[i].v, "extracted after ", log_); break; }
      case 1: { const B o = std::move(x).get<B>(); REQ_EQ(o.v, ref[i].v, "extracted after ", log_); break; }
      case 2: { const Box o = std::move(x).get<Box>(); REQ_EQ(o.inner.v, ref[i].v, "extracted after ", log_); break; }
      default: { const std::string o = std::move(x).get<std::string>(); REQ_EQ(o, text(ref[i].v), "extracted after ", log_); break; }
      }
      ref[i].v = GONE;
      did(cat("extract ", i));
      break;
    }
    if (threw)
      did("(throws)");
    faults += threw;
    // What a moved-from string holds is its own business.
    for (size_t k = 0; k < N; k++)
      if (m[k] && ref[k].type == 3 && ref[k].v == GONE)
        m[k]->get<std::string>().clear();
    verify();
  }
  for (auto &p : m)
    p.reset();
  REQ(misuse.empty(), misuse, " after ", log_);
  REQ_EQ(live.size(), start.before, "objects alive at the end of ", log_);
  c.nontrivial(ops > 5 && changes > 0);
  c.label(cat(std::min(changes, 4), " changes of type, ", std::min(faults, 2), " faults"));
  if (c.wantSample())
    c.sample(log_);
}

FACET(any, 3) {
  Start start;
  log_.clear();
  const size_t N = 4;
  std::array<std::unique_ptr<Any>, N> m;
  struct Ref { int type; int v; }; // -1: null
  std::array<Ref, N> ref;
  int faults = 0, moves = 0;
  using Vec = std::vector<int>;
  const auto verify = [&] {
    REQ(misuse.empty(), misuse, " after ", log_);
    size_t n = 0;
    for (size_t i = 0; i < N; i++) {
      if (!m[i])
        continue;
      const Any &x = *m[i];
      REQ_EQ(static_cast<bool>(x), ref[i].type >= 0, "presence in ", i, " after ", log_);
      std::ostringstream os, ts, os2;
      x.showValue(os);
      x.showType(ts);
      os2 << x;
      REQ_EQ(os.str(), os2.str(), "display of ", i);
      const int v = ref[i].v;
      switch (ref[i].type) {
      case -1:
        REQ(os.str().empty() && ts.str().empty(), "display of a null after ", log_);
        break;
      case 0:
        n++;
        REQ_EQ(x.get<O>().v, v, "value of ", i, " after ", log_);
        REQ_EQ(os.str(), cat("A", v), "display of ", i, " after ", log_);
        break;
      case 1:
        n++;
        REQ_EQ(x.get<B>().v, v, "value of ", i, " after ", log_);
        REQ_EQ(os.str(), cat("B", v), "display of ", i, " after ", log_);
        break;
      case 2:
        REQ_EQ(x.get<int>(), v, "value of ", i, " after ", log_);
        REQ_EQ(os.str(), str(v), "display of ", i, " after ", log_);
        REQ_EQ(ts.str(), std::string("int"), "type of ", i, " after ", log_);
        break;
      default:
        REQ(x.get<Vec>() == Vec(3, v), "value of ", i, " after ", log_);
        REQ_EQ(os.str(), cat("[", v, ", ", v, ", ", v, "]"), "display of ", i, " after ", log_);
        REQ_EQ(ts.str(), std::string("std::vector<int>"), "type of ", i, " after ", log_);
        break;
      }
    }
    REQ_EQ(live.size() - start.before, n, "objects alive after ", log_);
  };
  const size_t len = 1 + s.draw(30);
  for (size_t step = 0; step < len; step++) {
    const size_t i = s.draw(N - 1), j = s.draw(N - 1);
    const int v = int(s.draw(9)), t = int(s.draw(3));
    const bool fault = s.draw(4) == 0;
    const uint64_t op = s.draw(8);
    if (!m[i]) {
      m[i].reset(new Any());
      ref[i] = Ref{-1, 0};
    }
    Any &x = *m[i];
    bool threw = false;
    switch (op) {
    case 0:
    case 1: {
      switch (t) {
      case 0: {
        O o(v);
        threw = attempt(fault, [&] { if (op) x = Any::of(std::move(o)); else x = Any::of(o); });
        break;
      }
      case 1: {
        const B o(v);
        threw = attempt(fault, [&] { x = Any::of(o); });
        break;
      }
      case 2: x = Any::of(v); break;
      default: {
        Vec k(3, v);
        if (op)
          x = Any::of(std::move(k));
        else
          x = Any::of(k);
      }
      }
      if (!threw)
        ref[i] = Ref{t, v};
      did(cat(i, " = of type ", t, " ", v));
      break;
    }
    case 2:
    case 3:
      if (!m[j] || i == j)
        break;
      x = std::move(*m[j]);
      ref[i] = ref[j];
      ref[j] = Ref{-1, 0};
      moves++;
      did(cat(i, " = ", j, " moved"));
      break;
    case 4:
      if (!m[j] || i == j)
        break;
      m[i].reset(new Any(std::move(*m[j])));
      ref[i] = ref[j];
      ref[j] = Ref{-1, 0};
      moves++;
      did(cat("move of ", j, " to ", i));
      break;
    case 5:
      x.reset();
      ref[i] = Ref{-1, 0};
      did(cat("reset ", i));
      break;
    case 6:
      switch (ref[i].type) {
      case 0: x.get<O>().v = v; break;
      case 1: x.get<B>().v = v; break;
      case 2: x.get<int>() = v; break;
      case 3: x.get<Vec>().assign(3, v); break;
      default:;
      }
      ref[i].v = v;
      did(cat("set ", i, " ", v));
      break;
    case 7:
      if (!m[j])
        break;
      std::swap(x, *m[j]);
      std::swap(ref[i], ref[j]);
      did(cat("swap ", i, " ", j));
      moves++;
      break;
    default:
      m[i].reset();
      did(cat("destroy ", i));
      break;
    }
    if (threw)
      did("(throws)");
    faults += threw;
    verify();
  }
  for (auto &p : m)
    p.reset();
  REQ(misuse.empty(), misuse, " after ", log_);
  REQ_EQ(live.size(), start.before, "objects alive at the end of ", log_);
  c.nontrivial(len > 5 && (moves > 0 || faults > 0));
  c.label(cat(std::min(faults, 2), " faults"));
  if (c.wantSample())
    c.sample(log_);
}
