// C12: range generators stay in range, scale with size and shrink to the minimum.
#include "rcx.h"
#include <rapidcheck/gen/detail/ScaleInteger.h>
#include <set>
using namespace pbt;
using namespace rc;
using namespace rcx;

namespace {
using W = __int128;
std::string wstr(W x) {
  return x < 0 ? "-" + wstr(-x) : x < 10 ? std::string(1, char('0' + int(x))) : wstr(x / 10) + char('0' + int(x % 10));
}
template <typename T> struct Range { T min, max; };
template <typename T> Range<T> anyRange(Src &s) {
  T a = anyInt<T>(s), b;
  switch (s.draw(3)) {
  case 0: { // small range
    const W room = W(std::numeric_limits<T>::max()) - W(a);
    W n = 1 + W(s.draw(20));
    if (room < n) {
      a = T(W(std::numeric_limits<T>::max()) - n);
    }
    b = T(W(a) + n);
    break;
  }
  default: b = anyInt<T>(s);
  }
  if (b < a)
    std::swap(a, b);
  if (a == b) {
    if (b < std::numeric_limits<T>::max())
      b = T(b + 1);
    else
      a = T(a - 1);
  }
  return Range<T>{a, b};
}
// Sizes for a pure range generator; far above nominal too.
int rangeSize(Src &s) {
  switch (s.draw(5)) {
  case 0: return 0;
  case 1: return 100;
  case 2: return int(s.draw(5));
  case 3: return int(s.draw(2147483647));
  default: return int(s.draw(100));
  }
}
// Largest permitted offset at this size: the proportional part, rounded up.
template <typename T> W maxOffset(const Range<T> &r, int size) {
  const W span = W(r.max) - W(r.min) - 1;
  return (span * std::min(size, 100) + 99) / 100;
}
template <typename T> std::string show(const Range<T> &r, int size) {
  return cat("[", wstr(r.min), ", ", wstr(r.max), ") at size ", size);
}
} // namespace

FACET(tree, 6) {
  const char *tn = "";
  std::string what;
  bool nt = false;
  tn = intType(s, [&](auto tag) {
    using T = decltype(tag);
    const auto r = anyRange<T>(s);
    const int size = rangeSize(s);
    what = show(r, size);
    const auto sh = gen::inRange<T>(r.min, r.max)(anyRandom(s), size);
    const T v = sh.value();
    REQ(v >= r.min && v < r.max, wstr(v), " not in ", what);
    REQ(W(v) - W(r.min) <= maxOffset(r, size), wstr(v), " too large for ", what);
    if (size == 0)
      REQ(v == r.min, "size 0 gave ", wstr(v), " in ", what);
    int nodes = 0;
    randomWalk(s, sh, 12, 6, [&](const Shrinkable<T> &n, int) {
      const T x = n.value();
      REQ(x >= r.min && x < r.max, "shrink ", wstr(x), " of ", wstr(v), " not in ", what);
      auto seq = n.shrinks();
      std::set<T> seen;
      W last = W(r.min) - 1;
      while (auto k = seq.next()) {
        const T y = k->value();
        nodes++;
        REQ(y != x && y < x && y >= r.min, "shrink ", wstr(y), " of ", wstr(x), " in ", what);
        REQ(W(y) > last, "shrinks of ", wstr(x), " do not approach the value: ", wstr(y), " in ", what);
        if (last < W(r.min))
          REQ(y == r.min, "first shrink of ", wstr(x), " is ", wstr(y), " in ", what);
        last = W(y);
        REQ(seen.size() < 70, "too many shrinks of ", wstr(x));
        seen.insert(y);
      }
      REQ(x == r.min || !seen.empty(), "no shrink of ", wstr(x), " in ", what);
    });
    nt = nodes > 3;
  });
  c.label(tn);
  c.nontrivial(nt);
  c.sample(cat(tn, " ", what));
}

FACET(threshold, 4) {
  std::string what;
  bool nt = false;
  const char *tn = intType(s, [&](auto tag) {
    using T = decltype(tag);
    const auto r = anyRange<T>(s);
    const int size = rangeSize(s);
    const auto sh = gen::inRange<T>(r.min, r.max)(anyRandom(s), size);
    const T v = sh.value();
    // A threshold at or below the value.
    const uint64_t off = uint64_t(W(v) - W(r.min));
    const T t = T(W(r.min) + W(s.flag() ? s.draw(off) : off - std::min<uint64_t>(off, s.word())));
    int steps = 0;
    const auto min = greedy(sh, [&](const Shrinkable<T> &x) { return x.value() >= t; }, steps, 200000);
    what = cat(show(r, size), " from ", wstr(v), " threshold ", wstr(t));
    REQ(min.value() == t, "greedy found ", wstr(min.value()), " in ", what, " after ", steps, " steps");
    // A fault confined to a window: the minimum is a local one, within it.
    const T hi = T(W(t) + W(s.draw(uint64_t(W(v) - W(t)))));
    int st2 = 0;
    const auto m2 = greedy(sh, [&](const Shrinkable<T> &x) { const T y = x.value(); return y == v || (y >= t && y <= hi); }, st2, 200000);
    auto seq = m2.shrinks();
    while (auto k = seq.next())
      REQ(!(k->value() >= t && k->value() <= hi), "not a local minimum");
    nt = steps > 3;
  });
  c.label(tn);
  c.nontrivial(nt);
  c.sample(cat(tn, " ", what));
}

// Every value of the proportional part occurs; large ranges are covered evenly.
FACET(coverage, 1) {
  std::string what;
  const char *tn = intType(s, [&](auto tag) {
    using T = decltype(tag);
    auto r = anyRange<T>(s);
    const int size = s.flag() ? 100 + int(s.draw(1000)) : int(s.draw(100));
    what = show(r, size);
    const W span = W(r.max) - W(r.min) - 1;
    const W part = span * std::min(size, 100) / 100; // surely included
    Random random = anyRandom(s);
    const auto g = gen::inRange<T>(r.min, r.max);
    if (part < 20) {
      std::set<W> seen;
      const int n = int(part + 2) * 60;
      for (int i = 0; i < n; i++)
        seen.insert(W(g(random.split(), size).value()) - W(r.min));
      for (W i = 0; i <= part; i++)
        REQ(seen.count(i), "offset ", wstr(i), " never occurs in ", n, " draws of ", what);
    } else {
      bool low = false, high = false, midl = false, midh = false;
      for (int i = 0; i < 300; i++) {
        const W o = W(g(random.split(), size).value()) - W(r.min);
        (o < part / 4 + 1 ? low : o < part / 2 ? midl : o < part - part / 4 ? midh : high) = true;
      }
      REQ(low && midl && midh && high, "a quarter never occurs in 300 draws of ", what);
    }
    c.nontrivial(part > 1);
  });
  c.label(tn);
}

FACET(invalid, 1) {
  intType(s, [&](auto tag) {
    using T = decltype(tag);
    T a = anyInt<T>(s), b = s.flag() ? a : anyInt<T>(s);
    if (a < b)
      std::swap(a, b);
    const int size = rangeSize(s);
    bool failed = false;
    const auto g = gen::inRange<T>(a, b);
    try {
      g(anyRandom(s), size).value();
    } catch (const GenerationFailure &) {
      failed = true;
    }
    REQ(failed, "[", wstr(a), ", ", wstr(b), ") generated a value");
    c.nontrivial(a != b);
  });
}

// The part of a range that a size permits, to within rounding.
FACET(scaling, 1) {
  for (int n = 0; n < 64; n++) {
    uint64_t x = s.draw(2) ? s.anyBits() : ~uint64_t(0) - s.draw(200);
    const int size = n < 8 ? rangeSize(s) : int(s.draw(100));
    if (n > 30 && size > 0 && size <= 100) {
      // A number whose halves, multiplied separately, carry into each other.
      const uint64_t m = 1 + s.draw(uint64_t(size - 1));
      x = (((m << 32) - 1) / uint64_t(size)) << 32 | (0xffffffffu - (s.flag() ? s.draw(100) : s.word() >> 33));
    }
    const uint64_t got = gen::detail::scaleInteger(x, size);
    const W exact = W(x) * std::min(size, 100);
    REQ(W(got) >= exact / 100 && W(got) <= (exact + 99) / 100, "the part of ", x, " at size ", size, " is ", got);
    REQ(size < 100 || got == x, "the whole of ", x, " is ", got);
  }
  c.nontrivial();
}
