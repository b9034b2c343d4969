// C25: shrinkers propose only valid, simpler values and can reach the minimum.
#include "C20.h"
#include <cmath>
#include <deque>
#include <rapidcheck/shrink/Shrink.h>
using namespace C20;
namespace {
using Wide = __int128;
Wide mag(Wide a, Wide b) { return a > b ? a - b : b - a; }
std::string wstr(Wide x) {
  if (x == 0)
    return "0";
  std::string s;
  const bool neg = x < 0;
  if (neg)
    x = -x;
  for (; x; x /= 10)
    s.insert(s.begin(), char('0' + int(x % 10)));
  return neg ? "-" + s : s;
}
template <typename X> std::vector<X> drain(Seq<X> q, size_t cap = 100000) {
  std::vector<X> out;
  while (out.size() < cap) {
    auto x = q.next();
    if (!x)
      break;
    out.push_back(std::move(*x));
  }
  return out;
}
// Also from a copy taken part way, and the end stays ended.
template <typename X> std::vector<X> drainForked(Src &s, Ctx &c, const Seq<X> &q0) {
  const auto all = drain<X>(q0);
  const size_t at = s.draw(all.size());
  Seq<X> q = q0;
  for (size_t i = 0; i < at; i++)
    REQ(*q.next() == all[i], "element ", i, " on a second visit");
  Seq<X> fork = q;
  for (size_t i = at; i < all.size(); i++) {
    const auto x = fork.next(), y = q.next();
    REQ(x && *x == all[i] && y && *y == all[i], "element ", i, " of a copy made at ", at);
  }
  REQ(!q.next() && !q.next() && !fork.next(), "elements after the end");
  return all;
}

template <typename X> void towardsCase(Src &s, Ctx &c) {
  const X v = anyInt<X>(s), t = s.draw(3) == 0 ? v : anyInt<X>(s);
  const auto q = drainForked<X>(s, c, shrink::towards<X>(v, t));
  const Wide dist = mag(v, t);
  if (dist == 0)
    REQ(q.empty(), "shrinks of ", wstr(v), " towards itself");
  else {
    REQ(!q.empty() && q[0] == t, "the first shrink of ", wstr(v), " towards ", wstr(t), " is not the target");
    Wide prev = -1;
    for (X x : q) {
      REQ(x != v, wstr(v), " is its own shrink towards ", wstr(t));
      const bool between = t < v ? (x >= t && x < v) : (x <= t && x > v);
      REQ(between, wstr(x), " is not between ", wstr(v), " and ", wstr(t));
      REQ(Wide(mag(x, t)) > prev, "shrinks of ", wstr(v), " towards ", wstr(t), " repeat or come back: ", wstr(x));
      prev = mag(x, t);
    }
    // Steps of one remain possible, so that no value in between is unreachable.
    REQ(mag(q.back(), v) == 1, "the last shrink of ", wstr(v), " towards ", wstr(t), " is ", wstr(q.back()));
    REQ(q.size() <= 2 * sizeof(X) * 8 + 2, q.size(), " shrinks of ", wstr(v), " towards ", wstr(t));
  }
  // The boundary of a monotone predicate between value and target is found.
  const Wide off = dist ? Wide((static_cast<unsigned __int128>(s.anyBits()) << 2) % static_cast<unsigned __int128>(dist + 1)) : 0;
  const Wide thr = t < v ? Wide(t) + off : Wide(t) - off;
  const auto sh = shrinkable::shrinkRecur(v, [t](X x) { return shrink::towards<X>(x, t); });
  int steps = 0;
  const auto min = greedy(sh, [&](const Shrinkable<X> &x) { return mag(x.value(), t) >= mag(thr, t); }, steps, 20000);
  REQ(steps < 20000, "greedy shrinking of ", wstr(v), " towards ", wstr(t), " takes ", steps, " steps");
  REQ(Wide(min.value()) == thr, "greedy shrinking of ", wstr(v), " towards ", wstr(t), " stops at ", wstr(min.value()), " instead of ", wstr(thr));
  c.nontrivial(q.size() > 2);
  c.sample(cat("towards ", wstr(v), " -> ", wstr(t), ": ", q.size(), " shrinks, threshold ", wstr(thr), " after ", steps));
}

template <typename X> void integralCase(Src &s, Ctx &c) {
  const X v = anyInt<X>(s);
  const auto q = drainForked<X>(s, c, shrink::integral<X>(v));
  const auto simplerInt = [](Wide a, Wide b) { return mag(a, 0) < mag(b, 0) || (mag(a, 0) == mag(b, 0) && a > b); };
  std::set<X> seen;
  for (X x : q) {
    REQ(x != v, wstr(v), " is its own shrink");
    REQ(simplerInt(x, v), wstr(x), " is not simpler than ", wstr(v));
    REQ(seen.insert(x).second, wstr(x), " is proposed twice for ", wstr(v));
  }
  if (v == 0)
    REQ(q.empty(), "shrinks of zero");
  else {
    REQ(!q.empty() && q[0] == 0, "the first shrink of ", wstr(v), " is not zero");
    if (v < 0 && v != std::numeric_limits<X>::min())
      REQ(q.size() > 1 && q[1] == X(-v), "the second shrink of ", wstr(v), " is not its negation");
    bool near = false;
    for (X x : q)
      near = near || (mag(x, 0) == mag(v, 0) - 1);
    REQ(near, "no shrink of ", wstr(v), " is a single step closer to zero");
  }
  // Boundaries of monotone predicates in both directions.
  const Wide m = mag(v, 0);
  const Wide thr = m ? Wide(static_cast<unsigned __int128>(s.anyBits()) % static_cast<unsigned __int128>(m + 1)) : 0;
  const auto sh = shrinkable::shrinkRecur(v, [](X x) { return shrink::integral<X>(x); });
  int steps = 0;
  auto min = greedy(sh, [&](const Shrinkable<X> &x) { return v < 0 ? Wide(x.value()) <= -thr : Wide(x.value()) >= thr; }, steps, 20000);
  REQ(steps < 20000 && Wide(min.value()) == (v < 0 ? -thr : thr), "greedy shrinking of ", wstr(v), " to the threshold ", wstr(thr), " stops at ", wstr(min.value()));
  min = greedy(sh, [&](const Shrinkable<X> &x) { return mag(x.value(), 0) >= thr; }, steps, 40000);
  const Wide best = min.value();
  REQ(steps < 40000 && mag(best, 0) == thr, "greedy shrinking of ", wstr(v), " by magnitude ", wstr(thr), " stops at ", wstr(best));
  if (v != std::numeric_limits<X>::min() || thr != m)
    REQ(best >= 0, "greedy shrinking of ", wstr(v), " by magnitude ", wstr(thr), " stays negative at ", wstr(best));
  c.nontrivial(q.size() > 2);
  c.sample(cat("integral ", wstr(v), ": ", q.size(), " shrinks, threshold ", wstr(thr), " after ", steps));
}

template <typename X> X anyReal(Src &s) {
  using L = std::numeric_limits<X>;
  const std::vector<X> special = {X(0), -X(0), X(1), X(-1), X(0.5), X(-0.5), L::min(), -L::min(), L::denorm_min(), L::max(), L::lowest(), L::infinity(), -L::infinity(), L::quiet_NaN(), X(1) - L::epsilon(), X(1) + L::epsilon(), X(1e6) + X(0.25)};
  switch (s.draw(3)) {
  case 0: return s.pick(special);
  case 1: return X(s.range(-1000, 1000)) / X(8);
  case 2: return X(int64_t(s.word())) / X(1 + s.draw(1000));
  default: return X(std::ldexp(double(s.range(-100000, 100000)), int(s.range(-40, 40))));
  }
}
template <typename X> void realCase(Src &s, Ctx &c) {
  const X v = anyReal<X>(s);
  const auto d = [](X x) { std::ostringstream os; os.precision(20); os << x; return os.str(); };
  const auto simplerReal = [](X a, X b) { return std::abs(a) < std::abs(b) || (std::abs(a) == std::abs(b) && a > 0 && b < 0); };
  const auto q = drain<X>(shrink::real<X>(v));
  if (v == 0 || std::isnan(v))
    REQ(q.empty(), "shrinks of ", d(v));
  else
    REQ(!q.empty() && q[0] == 0, "the first shrink of ", d(v), " is not zero");
  bool neg = false, whole = false;
  for (X x : q) {
    REQ(simplerReal(x, v), d(x), " is not simpler than ", d(v));
    neg = neg || x == -v;
    whole = whole || x == std::trunc(v);
  }
  if (v < 0)
    REQ(neg, "the negation of ", d(v), " is not proposed");
  if (!std::isnan(v) && !std::isinf(v) && std::trunc(v) != v)
    REQ(whole, "the whole part of ", d(v), " is not proposed");
  REQ(drain<X>(shrink::real<X>(v)).size() == q.size(), "shrinks of ", d(v), " on a second visit");
  // Termination.
  const auto sh = shrinkable::shrinkRecur(v, [](X x) { return shrink::real<X>(x); });
  int steps = 0;
  const uint64_t salt = s.draw(100);
  const auto min = greedy(sh, [&](const Shrinkable<X> &x) { return hash64(salt, uint64_t(hashStr(d(x.value())))) % 3 != 0; }, steps, 200);
  REQ(steps < 200, "greedy shrinking of ", d(v), " does not end");
  const auto top = greedy(sh, [](const Shrinkable<X> &x) { return x.value() != 0; }, steps, 400);
  if (v != 0 && std::abs(v) >= 1 && !std::isinf(v))
    REQ(top.value() == std::trunc(std::abs(v)), d(v), " shrinks to ", d(top.value()), " when anything but zero fails");
  (void)min;
  c.nontrivial(q.size() > 1);
  c.sample(cat("real ", d(v), ": ", q.size(), " shrinks"));
}

template <typename C> void chunkCase(Src &s, Ctx &c, C v) {
  using E = typename C::value_type;
  const auto q = drainForked<C>(s, c, shrink::removeChunks(v));
  const size_t n = v.size();
  REQ_EQ(q.size(), n * (n + 1) / 2, "chunk removals of a collection of ", n);
  // Elements are distinct here, so each result identifies its chunk.
  std::set<std::pair<size_t, size_t>> seen;
  size_t last = n;
  for (const C &r : q) {
    REQ(r.size() < n, "a removal of nothing from ", n, " elements");
    const size_t gone = n - r.size();
    REQ(gone <= last, "a removal of ", gone, " elements after one of ", last, " from ", n);
    last = gone;
    size_t at = 0;
    while (at < r.size() && r[at] == v[at])
      at++;
    for (size_t i = at; i < r.size(); i++)
      REQ(r[i] == E(v[i + gone]), "not a contiguous removal of ", gone, " elements from ", n);
    REQ(seen.insert({at, gone}).second, "the removal of ", gone, " elements at ", at, " from ", n, " is repeated");
  }
  c.nontrivial(n > 2);
  c.sample(cat("chunks of ", n, ": ", q.size(), " removals"));
}
// An element shrinker that is a pure function of the element, as a library
// independent list.
template <typename E> struct Shrinks {
  uint64_t salt;
  std::vector<E> list(const E &x) const;
  struct Walk {
    std::vector<E> v;
    size_t i;
    Maybe<E> operator()() {
      if (i >= v.size())
        return Nothing;
      return v[i++];
    }
  };
  Seq<E> operator()(const E &x) const { return makeSeq<Walk>(Walk{list(x), 0}); }
};
template <> std::vector<int> Shrinks<int>::list(const int &x) const {
  std::vector<int> out;
  for (uint64_t i = 0, n = hash64(salt, uint64_t(x)) % 4; i < n; i++)
    out.push_back(int(hash64(salt + i, uint64_t(x)) % 50));
  return out;
}
template <> std::vector<std::string> Shrinks<std::string>::list(const std::string &x) const {
  std::vector<std::string> out;
  for (uint64_t i = 0, n = hash64(salt, hashStr(x)) % 4; i < n; i++)
    out.push_back("a long replacement number " + str(hash64(salt + i, hashStr(x)) % 50));
  return out;
}
template <> std::vector<char> Shrinks<char>::list(const char &x) const {
  std::vector<char> out;
  for (uint64_t i = 0, n = hash64(salt, uint64_t(x)) % 4; i < n; i++)
    out.push_back(char('a' + hash64(salt + i, uint64_t(x)) % 26));
  return out;
}
template <typename C> void elementCase(Src &s, Ctx &c, const C &v) {
  using E = typename C::value_type;
  const Shrinks<E> f{s.draw(1000)};
  std::vector<C> want;
  for (size_t i = 0; i < v.size(); i++)
    for (auto &x : f.list(v[i])) {
      C w = v;
      w[i] = x;
      want.push_back(w);
    }
  const auto got = drainForked<C>(s, c, shrink::eachElement(v, f));
  REQ_EQ(got.size(), want.size(), "element shrinks of a collection of ", v.size());
  for (size_t i = 0; i < want.size(); i++)
    REQ(got[i] == want[i], "element shrink ", i, " of a collection of ", v.size());
  c.nontrivial(want.size() > 2);
  c.sample(cat("elements of ", v.size(), ": ", want.size(), " shrinks"));
}
template <typename C> C iota(Src &s, size_t n) {
  C out;
  const int start = int(s.draw(50));
  for (size_t i = 0; i < n; i++)
    out.push_back(typename C::value_type(start + int(i)));
  return out;
}
std::vector<std::string> texts(Src &s, size_t n) {
  std::vector<std::string> out;
  const int start = int(s.draw(50));
  for (size_t i = 0; i < n; i++)
    out.push_back("an element of some length " + str(start + int(i)));
  return out;
}
} // namespace

FACET(towards, 4) {
  c.label(intType(s, [&](auto x) { towardsCase<decltype(x)>(s, c); }));
}
FACET(integral, 4) {
  c.label(intType(s, [&](auto x) { integralCase<decltype(x)>(s, c); }));
}
FACET(reals, 2) {
  if (s.flag())
    realCase<double>(s, c);
  else
    realCase<float>(s, c);
}
FACET(chunks, 3) {
  const size_t n = s.length(s.draw(11) ? 24 : 130);
  switch (s.draw(3)) {
  case 0: chunkCase(s, c, iota<std::vector<int>>(s, n)); break;
  case 1: chunkCase(s, c, iota<std::string>(s, n)); break;
  case 2: chunkCase(s, c, texts(s, n)); break;
  default: chunkCase(s, c, iota<std::basic_string<wchar_t>>(s, n));
  }
}
FACET(elements, 3) {
  const size_t n = s.length(s.draw(11) ? 14 : 150);
  switch (s.draw(2)) {
  case 0: elementCase(s, c, s.list(n, [&] { return int(s.draw(20)); })); break;
  case 1: elementCase(s, c, iota<std::string>(s, n)); break;
  default: elementCase(s, c, texts(s, n));
  }
}
// Large collections: the first removals, and the shrinks of the few elements
// that have any.
FACET(wide, 1) {
  const size_t n = s.draw(3) ? s.draw(1500) : s.draw(70000);
  std::vector<int> v(n, 0);
  if (s.flag()) {
    for (size_t i = 0; i < n; i++)
      v[i] = int(i);
    auto q = shrink::removeChunks(v);
    std::set<std::pair<size_t, size_t>> seen;
    size_t last = n, count = 0;
    for (size_t k = 0; k < 60; k++) {
      const auto r = q.next();
      REQ(bool(r) == (k < n * (n + 1) / 2), "removal ", k, " of ", n, " elements");
      if (!r)
        break;
      const size_t gone = n - r->size();
      REQ(gone > 0 && (gone == last || (gone + 1 == last && count == n - last + 1)), "a removal of ", gone, " elements of ", n, " after ", count, " of ", last);
      count = gone == last ? count + 1 : 1;
      last = gone;
      size_t at = 0;
      while (at < r->size() && (*r)[at] == v[at])
        at++;
      for (size_t i = at; i < r->size(); i++)
        REQ((*r)[i] == v[i + gone], "not a contiguous removal of ", gone, " elements from ", n);
      REQ(seen.insert({at, gone}).second, "the removal of ", gone, " elements at ", at, " from ", n, " is repeated");
    }
  } else if (n > 0) {
    std::set<size_t> at;
    for (uint64_t i = 1 + s.draw(3); i > 0; i--) {
      at.insert(s.flag() ? n - 1 - s.draw(std::min<size_t>(n - 1, 5)) : s.draw(n - 1));
      v[*at.rbegin()] = 0;
    }
    for (size_t i : at)
      v[i] = int(1 + s.draw(3));
    auto q = shrink::eachElement(v, [](int x) { return seq::range(0, x); });
    for (size_t i : at)
      for (int x = 0; x < v[i]; x++) {
        const auto r = q.next();
        REQ(r, "no shrink of element ", i, " of ", n);
        auto want = v;
        want[i] = x;
        REQ(*r == want, "shrink of element ", i, " of ", n, " to ", x);
      }
    REQ(!q.next(), "more shrinks of elements of ", n);
  }
  c.nontrivial(n > 300);
  if (c.wantSample())
    c.sample(cat(n, " elements"));
}
template <typename X> void charCase(Src &s, Ctx &c) {
  const X v = s.flag() ? X(s.draw(127)) : X(s.anyBits());
  const auto want = simpler<X>(v);
  const auto got = drainForked<X>(s, c, shrink::character<X>(v));
  REQ_EQ(got.size(), want.size(), "shrinks of character ", uint64_t(v));
  for (size_t i = 0; i < want.size(); i++)
    REQ(got[i] == want[i], "shrink ", i, " of character ", uint64_t(v), " is ", uint64_t(got[i]));
  int steps = 0;
  greedy(shrinkable::shrinkRecur(v, [](X x) { return shrink::character<X>(x); }),
         [&](const Shrinkable<X> &x) { return hash64(uint64_t(v), uint64_t(x.value())) % 3 != 0; }, steps, 400);
  REQ(steps < 400, "greedy shrinking of character ", uint64_t(v), " does not end");
  c.nontrivial(want.size() > 3);
}
FACET(small, 2) {
  REQ(drain<bool>(shrink::boolean(false)).empty(), "shrinks of false");
  REQ((drain<bool>(shrink::boolean(true)) == std::vector<bool>{false}), "shrinks of true");
  switch (s.draw(2)) {
  case 0: charCase<char>(s, c); break;
  case 1: charCase<wchar_t>(s, c); break;
  default: charCase<char32_t>(s, c);
  }
}
// Greedy use of both collection shrinkers leaves exactly what matters.
FACET(minimal, 2) {
  const size_t n = s.length(30);
  const auto v = s.list(n, [&] { return int(s.draw(1000)); });
  const int thr = int(s.draw(800));
  const size_t need = s.draw(4);
  const auto fails = [&](const std::vector<int> &x) { return size_t(std::count_if(x.begin(), x.end(), [&](int e) { return e >= thr; })) >= need; };
  if (!fails(v))
    return;
  const auto sh = shrinkable::shrinkRecur(v, [](const std::vector<int> &x) {
    return seq::concat(shrink::removeChunks(x), shrink::eachElement(x, [](int e) { return shrink::integral<int>(e); }));
  });
  int steps = 0;
  const auto min = greedy(sh, [&](const Shrinkable<std::vector<int>> &x) { return fails(x.value()); }, steps, 1000000);
  REQ(min.value() == std::vector<int>(need, thr), "the minimum of ", n, " elements with ", need, " of at least ", thr, " is ", listStr(min.value()));
  c.nontrivial(need > 0 && v.size() > need);
}
