#pragma once
#include "rcx.h"
#include <deque>
#include <list>
#include <set>
namespace C23 {
using namespace pbt;
using namespace rc;
using namespace rcx;
using T = int64_t;
using Vec = std::vector<T>;

// What is known of a sequence: its elements, or (if not complete) a prefix.
struct Model {
  Vec v;
  bool complete = true;
  std::vector<size_t> need; // source elements that must be read for each element
};
struct SeqM {
  Seq<T> seq;
  Model m;
  std::string desc;
};
struct Boom {};
constexpr size_t kPrefix = 60;

// Pure callbacks, possibly throwing for some elements.
struct Fn {
  uint64_t salt;
  unsigned den, boom; // predicate density, one in `boom` elements throws (0: none)
  uint64_t h(T x) const { return hash64(salt, uint64_t(x)); }
  bool throws(T x) const { return boom && h(x) / 64 % boom == 0; }
  T map(T x) const { if (throws(x)) throw Boom(); return T(h(x) % 20); }
  bool pred(T x) const { if (throws(x)) throw Boom(); return h(x) % den != 0; }
  size_t len(T x) const { if (throws(x)) throw Boom(); return h(x) % 4; }
};
inline Fn anyFn(Src &s) { return Fn{s.draw(1000), unsigned(1 + s.draw(5)), s.draw(4) == 0 ? unsigned(2 + s.draw(10)) : 0}; }

// A source that counts how many of its elements were read.
struct Counted {
  Vec v;
  size_t pos;
  std::shared_ptr<size_t> reads;
  Maybe<T> operator()() {
    if (pos >= v.size())
      return Nothing;
    ++*reads;
    return v[pos++];
  }
};

SeqM anySource(Src &s);
// One combinator over the given sequence (others are drawn as needed).
SeqM combine(Src &s, SeqM in, int depth, bool lazyOnly = false);
SeqM anySeq(Src &s, int depth);
inline Model from(const Model &m, size_t pos) {
  Model out;
  out.v.assign(m.v.begin() + long(pos), m.v.end());
  if (!m.need.empty())
    out.need.assign(m.need.begin() + long(pos), m.need.end());
  out.complete = m.complete;
  return out;
}
} // namespace C23
