// Helpers shared by the property harnesses.
#pragma once
#include "pbt.h"
#include <limits>
#include <rapidcheck.h>

namespace rcx {

inline rc::Random anyRandom(pbt::Src &s) {
  return rc::Random(s.draw(3) == 0 ? s.draw(1000) : s.anyBits());
}

// Sizes: mostly 0..100, sometimes above nominal.
inline int anySize(pbt::Src &s, int cap = 200) {
  switch (s.draw(4)) {
  case 0: return static_cast<int>(s.draw(std::min(cap, 5)));
  case 1: return std::min(cap, 100);
  case 2: return static_cast<int>(s.draw(cap));
  default: return static_cast<int>(s.draw(std::min(cap, 100)));
  }
}

// Visits the nodes of a random path through a shrink tree, and at each node up
// to `width` of its immediate shrinks. visit(shrinkable, depth).
template <typename T, typename Visit>
void randomWalk(pbt::Src &s, const rc::Shrinkable<T> &root, int maxDepth,
                int width, Visit visit) {
  rc::Shrinkable<T> cur = root;
  for (int d = 0; d <= maxDepth; d++) {
    visit(cur, d);
    auto seq = cur.shrinks();
    std::vector<rc::Shrinkable<T>> kids;
    while (static_cast<int>(kids.size()) < width) {
      auto k = seq.next();
      if (!k)
        break;
      kids.push_back(std::move(*k));
    }
    if (kids.empty())
      return;
    for (const auto &k : kids)
      visit(k, d + 1);
    cur = kids[s.below(kids.size())];
  }
}

// Greedy descent: accepts the first shrink satisfying pred, as shrinking does.
template <typename T, typename Pred>
rc::Shrinkable<T> greedy(rc::Shrinkable<T> best, Pred pred, int &steps,
                         int maxSteps = 1000000) {
  auto seq = best.shrinks();
  while (steps < maxSteps) {
    auto k = seq.next();
    if (!k)
      break;
    steps++;
    if (pred(*k)) {
      best = std::move(*k);
      seq = best.shrinks();
    }
  }
  return best;
}

// Calls f with a value of one of the integer types.
template <typename F> const char *intType(pbt::Src &s, F f) {
  switch (s.draw(11)) {
  case 0: f(int()); return "int";
  case 1: f(int8_t()); return "int8_t";
  case 2: f(uint8_t()); return "uint8_t";
  case 3: f(int16_t()); return "int16_t";
  case 4: f(uint16_t()); return "uint16_t";
  case 5: f(unsigned()); return "unsigned";
  case 6: f(int64_t()); return "int64_t";
  case 7: f(uint64_t()); return "uint64_t";
  case 8: f(static_cast<long long>(0)); return "long long";
  case 9: f(static_cast<unsigned long long>(0)); return "unsigned long long";
  case 10: f(char()); return "char";
  default: f(static_cast<long>(0)); return "long";
  }
}

// Any value of the type, biased towards extremes, zero and powers of two.
template <typename T> T anyInt(pbt::Src &s) {
  switch (s.draw(5)) {
  case 0: return std::numeric_limits<T>::min();
  case 1: return std::numeric_limits<T>::max();
  case 2: return static_cast<T>(s.range(-3, 3));
  default: return static_cast<T>(s.word());
  }
}

inline __int128 wide(__int128 x) { return x; }

} // namespace rcx
