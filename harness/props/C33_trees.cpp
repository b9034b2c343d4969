#include "C33_ops.h"
namespace c33 {
template <typename V> static void tree(Src &s, World &w) {
  int cost = 0;
  std::string d;
  Shrinkable<V> t = genericTree<V>(s, w, cost, d);
  w.last = d;
  const State st = made();
  throwIn = 0;
  pools(w, static_cast<V *>(nullptr)).trees.add(std::move(t), cost, d, st);
}
template <typename V> static void sequence(Src &s, World &w) {
  int cost = 0;
  std::string d;
  Seq<V> q = genericSeq<V>(s, w, cost, d);
  w.last = d;
  const State st = made();
  throwIn = 0;
  pools(w, static_cast<V *>(nullptr)).seqs.add(std::move(q), cost, d, st);
}
void makeTree(Src &s, World &w, Val *) { tree<Val>(s, w); }
void makeTree(Src &s, World &w, Vec *) { tree<Vec>(s, w); }
void makeSeq_(Src &s, World &w, Val *) { sequence<Val>(s, w); }
void makeSeq_(Src &s, World &w, Vec *) { sequence<Vec>(s, w); }
} // namespace c33
