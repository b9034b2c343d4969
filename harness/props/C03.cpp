// C03: generation is a pure function of the random state and the size.
#include "genexpr.h"
#include <rapidcheck/detail/Property.h>
using namespace pbt;
using namespace rc;
using namespace rcx;

namespace {
// Runs something unrelated to disturb any hidden state.
void disturb(Src &s) {
  const GX g = anyGX(s, static_cast<int>(s.draw(1)));
  const auto sh = g.gen(anyRandom(s), static_cast<int>(s.draw(12)));
  observe(sh);
  auto seq = sh.shrinks();
  for (int i = 0; i < 3; i++)
    seq.next();
}

// Values of the first `width` shrinks, taking all values only at the end.
std::vector<Obs> lateKids(const Shrinkable<Val> &sh, size_t width) {
  std::vector<Shrinkable<Val>> kids;
  auto seq = sh.shrinks();
  while (kids.size() < width) {
    auto k = seq.next();
    if (!k)
      break;
    kids.push_back(*k);
  }
  std::vector<Obs> out(kids.size());
  for (size_t i = kids.size(); i-- > 0;)
    out[i] = observe(kids[i]);
  return out;
}
} // namespace

FACET(repeatable, 5) {
  const GX g = anyGX(s, static_cast<int>(s.draw(3)));
  const Random r = anyRandom(s);
  const int size = static_cast<int>(s.draw(g.depth > 2 ? 8 : 25));
  const auto a = g.gen(r, size);
  const Obs va = observe(a);
  int budget = 150;
  const uint64_t ha = treeHash(a, budget, 12);
  const int used = 150 - budget;

  disturb(s);
  // A second evaluation, in a random order of requests.
  const Gen<Val> copy = g.gen;
  const Random rc1 = r;
  auto b = copy(rc1, size);
  if (s.flag())
    disturb(s);
  if (s.flag()) {
    const auto late = lateKids(b, 12);
    auto seq = a.shrinks();
    for (size_t i = 0; i < late.size(); i++) {
      auto k = seq.next();
      REQ(k, "fewer shrinks the first time; ", g.desc);
      REQ(observe(*k) == late[i], "shrink ", i, ": ", observe(*k), " vs ", late[i], " ; ", g.desc,
          " size ", size);
    }
    if (late.size() < 12)
      REQ(!seq.next(), "more shrinks the first time; ", g.desc);
  }
  budget = 150;
  const uint64_t hb = treeHash(b, budget, 12);
  const Obs vb = observe(b);
  REQ(va == vb, "values ", va, " vs ", vb, " ; ", g.desc, " size ", size);
  REQ_EQ(ha, hb, "trees differ; ", g.desc, " size ", size, " value ", va);
  // Asking the first result again.
  REQ(observe(a) == va, "value changed to ", observe(a), " from ", va, " ; ", g.desc);
  budget = 150;
  REQ_EQ(treeHash(a, budget, 12), ha, "tree of one result changed; ", g.desc);
  c.nontrivial(g.depth >= 1 && used > 0);
  c.label(cat("depth", g.depth));
  c.digest(ha);
  c.sample(cat(g.desc, " size ", size, " -> ", va, ", ", used, "+ shrinks"));
}

// Walking one copy of a sequence of shrinks or of a node never changes what
// another copy yields.
FACET(copies, 3) {
  const GX g = anyGX(s, static_cast<int>(s.draw(2)));
  const Random r = anyRandom(s);
  const int size = static_cast<int>(s.draw(20));
  const auto root = g.gen(r, size);
  // Reference: materialize the first levels in order.
  std::vector<Obs> ref;
  {
    auto seq = root.shrinks();
    while (ref.size() < 40) {
      auto k = seq.next();
      if (!k)
        break;
      ref.push_back(observe(*k));
    }
  }
  // A pool of sequences at known positions.
  struct Pos {
    Seq<Shrinkable<Val>> seq;
    size_t at;
  };
  std::vector<Pos> pool;
  pool.push_back(Pos{root.shrinks(), 0});
  const size_t ops = 5 + s.draw(40);
  size_t forks = 0;
  for (size_t i = 0; i < ops; i++) {
    const size_t k = s.below(pool.size());
    switch (s.draw(5)) {
    case 0:
      if (pool.size() < 6) {
        pool.push_back(Pos{pool[k].seq, pool[k].at});
        forks++;
      }
      break;
    case 1:
      if (pool.size() < 6)
        pool.push_back(Pos{root.shrinks(), 0});
      break;
    case 2: { // explore a child deeply, then drop it
      Seq<Shrinkable<Val>> tmp = pool[k].seq;
      auto kid = tmp.next();
      if (kid) {
        int budget = 20;
        treeHash(*kid, budget, 4);
      }
      break;
    }
    default: {
      auto kid = pool[k].seq.next();
      if (pool[k].at >= 40)
        break;
      if (pool[k].at >= ref.size()) {
        REQ(!kid, "sequence is longer on another copy; ", g.desc);
        break;
      }
      REQ(kid, "sequence ends early at ", pool[k].at, " on another copy; ", g.desc);
      REQ(observe(*kid) == ref[pool[k].at], "element ", pool[k].at, " ", observe(*kid), " vs ",
          ref[pool[k].at], " ; ", g.desc);
      pool[k].at++;
    }
    }
  }
  c.nontrivial(ref.size() >= 2 && forks > 0);
}

// The same for whole properties: outcome, tags, counterexample.
FACET(properties, 2) {
  const GX g = anyGX(s, static_cast<int>(s.draw(2)));
  const GX h = anyGX(s, static_cast<int>(s.draw(1)));
  const int64_t mod = static_cast<int64_t>(1 + s.draw(4));
  const auto gg = g.gen, hg = h.gen;
  const auto prop = rc::detail::toProperty([=](int arg) {
    const Val v = *gg;
    Val w;
    if (v.size() % 2)
      w = *hg.as("other");
    RC_TAG(v.size() % 3);
    RC_LOG() << v.size() << "," << w.size();
    if (arg % mod == 1)
      RC_DISCARD("no");
    return v.size() < w.size();
  });
  const Random r = anyRandom(s);
  const int size = static_cast<int>(s.draw(15));
  auto seen = [&](const Shrinkable<rc::detail::CaseDescription> &root) {
    uint64_t hash = 0;
    auto node = root;
    std::vector<unsigned> choice{0, 3, 1, 0, 2};
    for (unsigned n : choice) {
      const auto d = node.value();
      hash = hash64(hash, hashStr(cat(d.result)));
      for (auto &t : d.tags)
        hash = hash64(hash, hashStr(t));
      for (auto &e : d.example())
        hash = hash64(hash, hashStr(e.first + "=" + e.second));
      auto seq = node.shrinks();
      auto k = seq.next();
      for (unsigned i = 0; i < n && k; i++) {
        auto next = seq.next();
        if (!next)
          break;
        k = next;
      }
      if (!k)
        break;
      node = *k;
    }
    return hash;
  };
  const auto a = prop(r, size);
  const uint64_t h1 = seen(a);
  disturb(s);
  const auto b = prop(r, size);
  REQ_EQ(seen(b), h1, g.desc, " ; ", h.desc);
  REQ_EQ(seen(a), h1, "re-evaluation; ", g.desc, " ; ", h.desc);
  c.nontrivial();
  c.digest(h1);
}
