// C13: arbitrary numbers respect size limits, cover their type, shrink to zero.
#include "rcx.h"
#include <chrono>
#include <cmath>
using namespace pbt;
using namespace rc;
using namespace rcx;

namespace {
using W = __int128;
std::string wstr(W x) {
  return x < 0 ? "-" + wstr(-x) : x < 10 ? std::string(1, char('0' + int(x))) : wstr(x / 10) + char('0' + int(x % 10));
}
template <typename T> int bitsOf() { return int(sizeof(T) * 8); }
// Largest permitted number of bits at a size.
template <typename T> int maxBits(int size) { return (std::min(size, 100) * bitsOf<T>() + 99) / 100; }
template <typename T> bool fits(T v, int size) {
  const int n = maxBits<T>(size);
  if (n == 0)
    return v == 0;
  const W lim = W(1) << (std::is_signed<T>::value ? n - 1 : n);
  return W(v) < lim && (!std::is_signed<T>::value || W(v) >= -lim);
}
W mag(W x) { return x < 0 ? -x : x; }
int numSize(Src &s) {
  switch (s.draw(6)) {
  case 0: return 0;
  case 1: return 100;
  case 2: return int(s.draw(5));
  case 3: return int(s.draw(2147483647));
  case 4: return 2147483647;
  default: return int(s.draw(100));
  }
}
// s is a simpler integer than v.
bool simpler(W s, W v) { return mag(s) < mag(v) || (s == -v && v < 0); }

template <typename T> void checkIntTree(Src &s, Ctx &c, const Shrinkable<T> &sh, const std::string &what, std::function<bool(T)> pred) {
  randomWalk(s, sh, 10, 5, [&](const Shrinkable<T> &n, int) {
    const T x = n.value();
    REQ(pred(x), wstr(x), " in the tree of ", what);
    auto seq = n.shrinks();
    int cnt = 0;
    bool zero = false;
    while (auto k = seq.next()) {
      const T y = k->value();
      REQ(y != x, wstr(x), " shrinks to itself in ", what);
      REQ(simpler(W(y), W(x)), "shrink ", wstr(y), " of ", wstr(x), " is not simpler, in ", what);
      REQ(pred(y), wstr(y), " in the tree of ", what);
      zero |= y == 0;
      REQ(++cnt < 140, "too many shrinks");
    }
    if (pred(0) && x != 0)
      REQ(zero, wstr(x), " cannot shrink to zero in ", what);
  });
}
template <typename F> const char *realType(Src &s, F f) {
  switch (s.draw(2)) {
  case 0: f(double()); return "double";
  case 1: f(float()); return "float";
  default: f(static_cast<long double>(0)); return "long double";
  }
}
template <typename T> void checkRealTree(Src &s, Ctx &c, const Shrinkable<T> &root, const std::string &what, std::function<bool(T)> pred) {
  Shrinkable<T> cur = root;
  for (int depth = 0;; depth++) {
    REQ(depth < 12, "endless shrinking of ", root.value(), " in ", what);
    const T x = cur.value();
    REQ(std::isfinite(x) && pred(x), x, " in the tree of ", what);
    auto seq = cur.shrinks();
    std::vector<Shrinkable<T>> kids;
    while (auto k = seq.next()) {
      const T y = k->value();
      REQ(std::isfinite(y) && pred(y), y, " in the tree of ", what);
      REQ(y != x, x, " shrinks to itself in ", what);
      REQ(std::fabs(y) < std::fabs(x) || (y == -x && x < 0), "shrink ", y, " of ", x, " is not simpler in ", what);
      kids.push_back(std::move(*k));
      REQ(kids.size() < 2000, "too many shrinks of ", x);
    }
    if (kids.empty()) {
      REQ(!pred(0) || x == 0, x, " cannot be shrunk to zero in ", what);
      break;
    }
    cur = kids[s.below(kids.size())];
  }
}
} // namespace

FACET(integers, 5) {
  std::string what;
  const char *tn = intType(s, [&](auto tag) {
    using T = decltype(tag);
    const int size = numSize(s);
    what = cat("size ", size);
    const auto sh = gen::arbitrary<T>()(anyRandom(s), size);
    const T v = sh.value();
    REQ(fits(v, size), wstr(v), " has too many bits for ", what);
    checkIntTree<T>(s, c, sh, what, [=](T x) { return true; });
    // Greedy search reaches any threshold between the value and zero.
    const uint64_t m = uint64_t(mag(W(v)));
    const W t = v < 0 ? -W(s.draw(m)) : W(s.draw(m));
    int steps = 0;
    const auto min = greedy(sh, [&](const Shrinkable<T> &x) { return v < 0 ? W(x.value()) <= t : W(x.value()) >= t; }, steps, 200000);
    REQ(W(min.value()) == t, "greedy from ", wstr(v), " to threshold ", wstr(t), " found ", wstr(min.value()));
    // Termination under an arbitrary predicate.
    const uint64_t salt = s.draw(1000);
    int st2 = 0;
    greedy(sh, [&](const Shrinkable<T> &x) { return hash64(salt, uint64_t(W(x.value()))) % 2 == 0; }, st2, 100000);
    REQ(st2 < 100000, "greedy shrinking of ", wstr(v), " does not end");
    c.nontrivial(mag(W(v)) > 1);
    what = cat(what, " value ", wstr(v), " threshold ", wstr(t));
  });
  c.label(tn);
  c.sample(cat(tn, " ", what));
}

FACET(reals, 3) {
  std::string what;
  const char *tn = realType(s, [&](auto tag) {
    using T = decltype(tag);
    const int size = numSize(s);
    what = cat("size ", size);
    const auto sh = gen::arbitrary<T>()(anyRandom(s), size);
    const T v = sh.value();
    const int n = maxBits<int64_t>(size);
    const double lim = size == 0 ? 0 : n == 0 ? 1 : std::ldexp(1.0, n - 1) + 1;
    REQ(std::isfinite(v) && std::fabs(double(v)) <= lim, v, " too large for ", what);
    checkRealTree<T>(s, c, sh, what, [](T) { return true; });
    c.nontrivial(v != 0);
    what = cat(what, " value ", v);
  });
  c.label(tn);
  c.sample(cat(tn, " ", what));
}

FACET(signs, 4) {
  std::string what;
  const auto doIt = [&](auto tag, auto check) {
    using T = decltype(tag);
    const int size = numSize(s), k = int(s.draw(3));
    static const char *const names[] = {"positive", "nonNegative", "nonZero", "negative"};
    what = cat(names[k], " size ", size);
    const Gen<T> g = k == 0 ? gen::positive<T>() : k == 1 ? gen::nonNegative<T>() : k == 2 ? gen::nonZero<T>() : gen::negative<T>();
    const std::function<bool(T)> pred = [k](T x) { return k == 0 ? x > 0 : k == 1 ? x >= 0 : k == 2 ? x != 0 : x < 0; };
    const bool possible = k != 3 || std::is_signed<T>::value;
    const Random random = anyRandom(s);
    bool ok = false;
    try {
      const auto sh = g(random, size);
      sh.value();
      ok = true;
      check(sh, pred);
    } catch (const GenerationFailure &) {
      REQ(!ok, "generation failed late");
    }
    REQ_EQ(ok, possible, what);
    c.nontrivial(ok);
  };
  const char *tn;
  if (s.flag())
    tn = intType(s, [&](auto tag) {
      using T = decltype(tag);
      doIt(tag, [&](const Shrinkable<T> &sh, std::function<bool(T)> p) { checkIntTree<T>(s, c, sh, what, p); });
    });
  else
    tn = realType(s, [&](auto tag) {
      using T = decltype(tag);
      doIt(tag, [&](const Shrinkable<T> &sh, std::function<bool(T)> p) { checkRealTree<T>(s, c, sh, what, p); });
    });
  c.label(tn);
  c.sample(cat(tn, " ", what));
}

// The whole permitted width is used, with both signs; both truth values occur.
FACET(coverage, 1) {
  Random random = anyRandom(s);
  const int size = 1 + numSize(s) % 200;
  intType(s, [&](auto tag) {
    using T = decltype(tag);
    const int n = std::min(size, 100) * bitsOf<T>() / 100; // surely included
    const auto g = gen::arbitrary<T>();
    bool neg = false, top = false;
    uint64_t ones = 0, zeros = 0;
    for (int i = 0; i < 120; i++) {
      const T v = g(random.split(), size).value();
      neg |= v < 0;
      const uint64_t m = v < 0 ? ~uint64_t(W(v)) : uint64_t(v);
      const int w = std::is_signed<T>::value ? n - 1 : n;
      top |= w <= 0 || (m >> (w - 1)) != 0;
      ones |= uint64_t(W(v));
      zeros |= ~uint64_t(W(v));
    }
    REQ(top, "width ", n, " never reached at size ", size, " in ", sizeof(T) * 8, " bits");
    if (std::is_signed<T>::value && n > 1)
      REQ(neg, "no negative value at size ", size);
    for (int i = 0; i < n; i++)
      REQ((ones >> i & 1) && (zeros >> i & 1), "bit ", i, " constant at size ", size, " of ", sizeof(T) * 8, " bits");
    c.nontrivial(n > 1);
  });
  realType(s, [&](auto tag) {
    using T = decltype(tag);
    const auto g = gen::arbitrary<T>();
    bool neg = false, pos = false, frac = false;
    for (int i = 0; i < 120; i++) {
      const T v = g(random.split(), size).value();
      neg |= v < 0;
      pos |= v > 0;
      frac |= v != std::trunc(v);
    }
    REQ(pos, "no positive real at size ", size);
    if (size >= 5)
      REQ(neg, "no negative real at size ", size);
    if (size < 20)
      REQ(frac, "no fraction at size ", size);
  });
  bool t = false, f = false;
  const int bsize = numSize(s);
  for (int i = 0; i < 120; i++) {
    const auto sh = gen::arbitrary<bool>()(random.split(), bsize);
    const bool b = sh.value();
    (b ? t : f) = true;
    auto seq = sh.shrinks();
    auto k = seq.next();
    REQ(bool(k) == b, "shrinks of ", b);
    if (k) {
      REQ(!k->value() && !k->shrinks().next(), "shrink of true");
      REQ(!seq.next(), "two shrinks of true");
    }
  }
  REQ(t && f, "one truth value never occurs at size ", bsize);
}

// Durations and time points are their representation's tree.
FACET(chrono, 1) {
  using Ms = std::chrono::duration<int32_t, std::milli>;
  using Ds = std::chrono::duration<double>;
  using Tp = std::chrono::time_point<std::chrono::system_clock, Ms>;
  const Random r = anyRandom(s);
  const int size = numSize(s);
  Shrinkable<int32_t> a = gen::arbitrary<int32_t>()(r, size);
  Shrinkable<Ms> b = gen::arbitrary<Ms>()(r, size);
  Shrinkable<Tp> t = gen::arbitrary<Tp>()(r, size);
  for (int d = 0; d < 20; d++) {
    REQ_EQ(b.value().count(), a.value(), "duration at size ", size);
    REQ_EQ(t.value().time_since_epoch().count(), a.value(), "time point at size ", size);
    auto sa = a.shrinks();
    auto sb = b.shrinks();
    auto st = t.shrinks();
    std::vector<Shrinkable<int32_t>> ka;
    std::vector<Shrinkable<Ms>> kb;
    std::vector<Shrinkable<Tp>> kt;
    for (;;) {
      auto x = sa.next();
      auto y = sb.next();
      auto z = st.next();
      REQ(bool(x) == bool(y) && bool(x) == bool(z), "different number of shrinks");
      if (!x)
        break;
      REQ_EQ(y->value().count(), x->value(), "");
      REQ_EQ(z->value().time_since_epoch().count(), x->value(), "");
      ka.push_back(*x);
      kb.push_back(*y);
      kt.push_back(*z);
    }
    if (ka.empty())
      break;
    const size_t i = s.below(ka.size());
    a = ka[i];
    b = kb[i];
    t = kt[i];
    c.nontrivial(d > 1);
  }
  const auto rd = gen::arbitrary<double>()(r, size).value();
  REQ_EQ(gen::arbitrary<Ds>()(r, size).value().count(), rd, "");
}
