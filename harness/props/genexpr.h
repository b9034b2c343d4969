// Random generator expressions over one uniform value type.
#pragma once
#include "rose.h"

namespace rcx {

using Val = std::vector<int64_t>;

struct GX {
  rc::Gen<Val> gen;
  std::string desc;
  int depth;
};

// A random expression of the given nesting depth over every generator and
// combinator of the library. Defined in genexpr_impl.h.
GX anyGX(pbt::Src &s, int depth);

// What a shrinkable's value is observed to be: the value or the failure.
struct Obs {
  bool ok;
  Val v;
  std::string err;
  bool operator==(const Obs &o) const { return ok == o.ok && v == o.v && err == o.err; }
};
inline std::ostream &operator<<(std::ostream &os, const Obs &o) {
  if (o.ok)
    return os << pbt::listStr(o.v);
  return os << "failed: " << o.err;
}
template <typename T> Obs observe(const rc::Shrinkable<T> &sh) {
  try {
    return Obs{true, sh.value(), ""};
  } catch (const rc::GenerationFailure &e) {
    return Obs{false, {}, e.what()};
  }
}
inline uint64_t obsHash(const Obs &o) {
  uint64_t h = o.ok ? 1 : pbt::hashStr(o.err);
  for (auto x : o.v)
    h = pbt::hash64(h, static_cast<uint64_t>(x));
  return h;
}

// Depth-first signature of a shrink tree up to `budget` nodes, at most `width`
// shrinks per node.
inline uint64_t treeHash(const rc::Shrinkable<Val> &sh, int &budget, int width = 1000000) {
  uint64_t h = obsHash(observe(sh));
  auto seq = sh.shrinks();
  for (int i = 0; i < width && budget > 0; i++) {
    auto k = seq.next();
    if (!k)
      break;
    budget--;
    h = pbt::hash64(h, treeHash(*k, budget, width));
  }
  return pbt::hash64(h, 77);
}

} // namespace rcx
