// Explicit rose trees: the reference model for shrink trees.
#pragma once
#include "rcx.h"
#include <memory>

namespace rcx {

template <typename T> struct Rose {
  T v;
  std::vector<std::shared_ptr<const Rose>> kids;
};
template <typename T> using RoseP = std::shared_ptr<const Rose<T>>;

template <typename T> RoseP<T> rose(T v, std::vector<RoseP<T>> kids = {}) {
  auto r = std::make_shared<Rose<T>>();
  r->v = std::move(v);
  r->kids = std::move(kids);
  return r;
}

// A Shrinkable written against the documented interface only.
template <typename T> struct RoseImpl {
  RoseP<T> r;
  struct Kids {
    RoseP<T> r;
    size_t i;
    rc::Maybe<rc::Shrinkable<T>> operator()() {
      if (i >= r->kids.size())
        return rc::Nothing;
      return rc::makeShrinkable<RoseImpl>(RoseImpl{r->kids[i++]});
    }
  };
  T value() const { return r->v; }
  rc::Seq<rc::Shrinkable<T>> shrinks() const { return rc::makeSeq<Kids>(Kids{r, 0}); }
};
template <typename T> rc::Shrinkable<T> toShrinkable(RoseP<T> r) {
  return rc::makeShrinkable<RoseImpl<T>>(RoseImpl<T>{std::move(r)});
}

// Random tree with at most `budget` nodes below the root, and once in a while
// as many as a thousand more right below the root.
template <typename F>
auto genRose(pbt::Src &s, F value, int &budget, int depth = 0) -> RoseP<decltype(value(0))> {
  using T = decltype(value(0));
  T v = value(depth);
  std::vector<RoseP<T>> kids;
  if (depth < 8) {
    const unsigned den = static_cast<unsigned>(1 + s.draw(6) + (depth == 0 ? 3 : 0));
    while (budget > 0 && kids.size() < 8 && s.draw(den) > 0) {
      int sub = static_cast<int>(s.draw(static_cast<uint64_t>(--budget)));
      budget -= sub;
      kids.push_back(genRose(s, value, sub, depth + 1));
      budget += sub;
    }
  }
  if (depth == 0 && s.draw(49) == 49)
    for (uint64_t n = s.length(1000); n > 0; n--)
      kids.push_back(rose<T>(value(1)));
  return rose<T>(std::move(v), std::move(kids));
}

template <typename T> size_t roseSize(const RoseP<T> &r) {
  size_t n = 1;
  for (auto &k : r->kids)
    n += roseSize<T>(k);
  return n;
}

template <typename T> bool roseEq(const RoseP<T> &a, const RoseP<T> &b) {
  if (!(a->v == b->v) || a->kids.size() != b->kids.size())
    return false;
  for (size_t i = 0; i < a->kids.size(); i++)
    if (!roseEq<T>(a->kids[i], b->kids[i]))
      return false;
  return true;
}

// Materializes a shrink tree down to a depth, at most maxKids per node and
// `budget` nodes in total.
template <typename T>
RoseP<T> fromShrinkable(const rc::Shrinkable<T> &sh, int &budget, int depth = 1000000) {
  T v = sh.value();
  std::vector<RoseP<T>> kids;
  if (depth > 0 && budget > 0) {
    auto seq = sh.shrinks();
    while (budget > 0) {
      auto k = seq.next();
      if (!k)
        break;
      budget--;
      kids.push_back(fromShrinkable<T>(*k, budget, depth - 1));
    }
  }
  return rose<T>(std::move(v), std::move(kids));
}

template <typename T> std::string roseStr(const RoseP<T> &r, int budget = 60) {
  std::ostringstream os;
  std::function<void(const RoseP<T> &)> go = [&](const RoseP<T> &x) {
    os << x->v;
    if (x->kids.empty())
      return;
    os << "(";
    for (size_t i = 0; i < x->kids.size(); i++) {
      if (budget-- <= 0) {
        os << "...";
        break;
      }
      if (i)
        os << " ";
      go(x->kids[i]);
    }
    os << ")";
  };
  go(r);
  return os.str();
}

// Compares a library shrink tree with an explicit one. Returns a description of
// the first difference, or the empty string.
template <typename T>
std::string treeDiff(const rc::Shrinkable<T> &sh, const RoseP<T> &r, int &budget,
                     const std::string &path = "root") {
  if (!(sh.value() == r->v))
    return pbt::cat("value differs at ", path);
  auto seq = sh.shrinks();
  for (size_t i = 0; i < r->kids.size(); i++) {
    if (budget-- <= 0)
      return "";
    auto k = seq.next();
    if (!k)
      return pbt::cat("only ", i, " shrinks instead of ", r->kids.size(), " at ", path);
    auto d = treeDiff<T>(*k, r->kids[i], budget, pbt::cat(path, "/", i));
    if (!d.empty())
      return d;
  }
  if (seq.next())
    return pbt::cat("more than ", r->kids.size(), " shrinks at ", path);
  if (seq.next())
    return pbt::cat("sequence of shrinks restarts after its end at ", path);
  return "";
}

// Compares two library shrink trees, up to a node budget, depth first.
template <typename T>
std::string sameTree(const rc::Shrinkable<T> &a, const rc::Shrinkable<T> &b, int &budget,
                     int depth = 1000000, const std::string &path = "root") {
  if (!(a.value() == b.value()))
    return pbt::cat("value differs at ", path);
  if (depth <= 0)
    return "";
  auto sa = a.shrinks();
  auto sb = b.shrinks();
  for (size_t i = 0;; i++) {
    if (budget-- <= 0)
      return "";
    auto ka = sa.next();
    auto kb = sb.next();
    if (!ka && !kb)
      return "";
    if (!ka || !kb)
      return pbt::cat("number of shrinks differs (", i, ka ? " vs more" : " vs fewer", ") at ", path);
    auto d = sameTree<T>(*ka, *kb, budget, depth - 1, pbt::cat(path, "/", i));
    if (!d.empty())
      return d;
  }
}

} // namespace rcx
