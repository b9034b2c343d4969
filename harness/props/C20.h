#pragma once
#include "source.h"
#include <locale>
namespace C20 {
using namespace pbt;
using namespace rc;
using namespace rcx;

// The simple characters that precede the value, in order.
template <typename T> std::vector<T> simpler(const T &v) {
  std::vector<T> list = {T('a'), T('b'), T('c')};
  if (!(v >= T('a') && v <= T('z')))
    list.push_back(v >= T('A') && v <= T('Z') ? T(v - T('A') + T('a')) : v);
  for (char ch : std::string("ABC123 \n"))
    list.push_back(T(ch));
  std::vector<T> out;
  for (T x : list) {
    if (x == v)
      break;
    out.push_back(x);
  }
  return out;
}
template <typename S> std::string text(const S &x) {
  std::string out = "\"";
  for (auto ch : x)
    out += ch >= 32 && ch < 127 ? std::string(1, char(ch)) : cat("<", uint64_t(typename std::make_unsigned<decltype(ch)>::type(ch)), ">");
  return out + "\"";
}

template <typename T> void characterCase(Src &s, Ctx &c) {
  const Random random = anyRandom(s);
  const int size = anySize(s);
  const auto sh = (s.flag() ? gen::character<T>() : gen::resize(int(s.draw(5)), gen::character<T>()))(random, size);
  std::function<void(const Shrinkable<T> &, const std::string &, int)> go = [&](const Shrinkable<T> &x, const std::string &path, int depth) {
    const T v = x.value();
    REQ(v != T(0), "the terminator is generated at ", path);
    const auto want = simpler<T>(v);
    auto seq = x.shrinks();
    std::vector<Shrinkable<T>> kids;
    for (size_t i = 0;; i++) {
      auto k = seq.next();
      if (!k)
        break;
      const T kv = k->value();
      REQ(kv != T(0), "the terminator is a shrink of character ", uint64_t(v), " at ", path);
      REQ(kv != v, "a character is its own shrink at ", path);
      REQ(i < want.size(), "more shrinks than simpler characters for ", uint64_t(v), " at ", path);
      REQ(kv == want[i], "shrink ", i, " of character ", uint64_t(v), " is ", uint64_t(kv), " instead of ", uint64_t(want[i]), " at ", path);
      kids.push_back(std::move(*k));
    }
    REQ(kids.size() == want.size(), "only ", kids.size(), " shrinks of character ", uint64_t(v), " at ", path);
    if (depth < 2)
      for (size_t i = 0; i < kids.size(); i++)
        go(kids[i], cat(path, "/", i), depth + 1);
    else if (!kids.empty() && depth < 12)
      go(kids.back(), path + "/last", depth + 1);
    if (depth == 0) {
      c.nontrivial(kids.size() > 3);
      c.sample(cat("character ", uint64_t(v), " with ", kids.size(), " shrinks"));
    }
  };
  go(sh, "root", 0);
}

template <typename S> void stringCase(Src &s, Ctx &c) {
  using T = typename S::value_type;
  const Random random = anyRandom(s);
  const int size = int(s.draw(3) == 0 ? s.draw(200) : s.draw(14));
  const Gen<S> g = s.flag() ? gen::string<S>() : gen::arbitrary<S>();
  const auto sh = g(random, size);
  int visited = 0;
  randomWalk(s, sh, 4, 2, [&](const Shrinkable<S> &x, int) {
    const S v = x.value();
    REQ(v.size() <= size_t(size), "a string of ", v.size(), " characters at size ", size);
    for (T ch : v)
      REQ(ch != T(0), "the terminator is in a string: ", text(v));
    // The shrinks: every removal of a chunk, longest first, then every simpler
    // character in order.
    std::vector<S> tail;
    for (size_t i = 0; i < v.size(); i++)
      for (T ch : simpler<T>(v[i])) {
        S w = v;
        w[i] = ch;
        tail.push_back(w);
      }
    const size_t removals = v.size() * (v.size() + 1) / 2;
    const size_t cap = 400;
    auto seq = x.shrinks();
    std::multiset<S> gone;
    size_t n = 0, last = 0;
    for (; n < cap + 1; n++) {
      auto k = seq.next();
      if (!k)
        break;
      const S w = k->value();
      for (T ch : w)
        REQ(ch != T(0), "the terminator is in a shrink: ", text(w), " of ", text(v));
      if (n < removals) {
        REQ(w.size() < v.size(), "shrink ", n, " of ", text(v), " is ", text(w), " and not a removal");
        REQ(w.size() >= last, "removals are not longest first in ", text(v));
        last = w.size();
        bool ok = false;
        const size_t cut = v.size() - w.size();
        for (size_t i = 0; i + cut <= v.size() && !ok; i++)
          ok = v.substr(0, i) + v.substr(i + cut) == w;
        REQ(ok, text(w), " is not ", text(v), " without a chunk");
        gone.insert(w);
      } else {
        REQ(n - removals < tail.size(), "too many shrinks of ", text(v));
        REQ(w == tail[n - removals], "shrink ", n, " of ", text(v), " is ", text(w), " instead of ", text(tail[n - removals]));
      }
    }
    if (n <= cap) {
      REQ_EQ(n, removals + tail.size(), "number of shrinks of ", text(v));
      std::multiset<S> all;
      for (size_t k = 1; k <= v.size(); k++)
        for (size_t i = 0; i + k <= v.size(); i++)
          all.insert(v.substr(0, i) + v.substr(i + k));
      REQ(gone == all, "removals differ for ", text(v));
    }
    visited++;
  });
  c.nontrivial(sh.value().size() > 1);
  if (c.wantSample())
    c.sample(cat("string ", text(sh.value()).substr(0, 200), ", ", visited, " nodes"));
}

// Greedy minimisation ends, keeps the predicate and leaves nothing to remove.
template <typename S> void greedyCase(Src &s, Ctx &c) {
  using T = typename S::value_type;
  const Random random = anyRandom(s);
  const int size = int(s.draw(60));
  const auto sh = gen::string<S>()(random, size);
  const uint64_t salt = s.anyBits();
  const unsigned den = unsigned(1 + s.draw(4));
  const auto hit = [=](T ch) { return hash64(salt, uint64_t(ch)) % den == 0; };
  size_t have = 0;
  for (T ch : sh.value())
    have += hit(ch);
  if (!have)
    return;
  const size_t want = 1 + s.draw(have - 1);
  const auto pred = [&](const S &x) {
    size_t n = 0;
    for (T ch : x)
      n += hit(ch);
    return n >= want;
  };
  int steps = 0;
  const auto best = greedy(sh, [&](const Shrinkable<S> &x) { return pred(x.value()); }, steps, 300000);
  const S v = best.value();
  REQ(pred(v), "greedy shrinking lost the predicate");
  REQ(steps < 300000, "greedy shrinking of ", text(sh.value()), " does not end");
  REQ_EQ(v.size(), want, "characters left over by greedy shrinking: ", text(v), " of ", text(sh.value()));
  for (T ch : v) {
    for (T y : simpler<T>(ch))
      REQ(!hit(y), "character ", uint64_t(ch), " could still become ", uint64_t(y));
  }
  c.nontrivial(want > 1 && sh.value().size() > want);
}

template <typename T> void coverCase(Src &s, Ctx &c) {
  Random r = anyRandom(s);
  const bool strings = s.flag();
  std::set<uint64_t> seen;
  std::set<size_t> lengths;
  const int n = 25000, size = int(s.draw(11));
  int drawn = 0;
  for (int i = 0; i < n && drawn < n; i++) {
    if (strings) {
      const auto v = gen::string<std::basic_string<T>>()(r.split(), 200).value();
      for (T ch : v)
        seen.insert(uint64_t(typename std::make_unsigned<T>::type(ch)));
      drawn += int(v.size());
      if (i < 1500)
        lengths.insert(gen::string<std::basic_string<T>>()(r.split(), size).value().size());
    } else {
      seen.insert(uint64_t(typename std::make_unsigned<T>::type(gen::character<T>()(r.split(), size).value())));
      drawn++;
    }
  }
  for (uint64_t x = 1; x < (sizeof(T) == 1 ? 256 : 128); x++)
    REQ(seen.count(x), "character ", x, " never occurs among ", drawn, " draws");
  REQ(!seen.count(0), "the terminator occurs");
  if (sizeof(T) > 1)
    REQ(*seen.rbegin() > 255, "no wide character occurs");
  if (strings && drawn >= n)
    REQ(lengths.empty() || *lengths.rbegin() <= size_t(size), "string longer than size");
  c.nontrivial();
}
} // namespace C20
