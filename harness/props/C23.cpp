// C23: lazy sequence operations agree with their list meaning.
#include "C23.h"
using namespace C23;

// A history over a pool of live sequences.
FACET(histories, 8) {
  struct Live { SeqM s; size_t pos; };
  std::vector<Live> pool;
  int nexts = 0, forks = 0;
  const auto step = [&](Live &l) {
    const auto x = l.s.seq.next();
    if (l.pos < l.s.m.v.size()) {
      REQ(x, "the sequence ends after ", l.pos, " of ", l.s.m.v.size(), " elements: ", l.s.desc);
      REQ(*x == l.s.m.v[l.pos], "element ", l.pos, " is ", *x, " instead of ", l.s.m.v[l.pos], ": ", l.s.desc);
      l.pos++;
      nexts++;
    } else
      REQ(!x, "element ", *x, " after the end: ", l.s.desc);
  };
  const auto ready = [](const Live &l) { return l.s.m.complete || l.pos < l.s.m.v.size(); };
  pool.push_back(Live{anySeq(s, 2), 0});
  const size_t n = 2 + s.draw(30);
  for (size_t i = 0; i < n; i++) {
    const size_t k = s.below(pool.size());
    switch (s.draw(9)) {
    case 0: case 1: case 2:
      if (ready(pool[k]))
        step(pool[k]);
      break;
    case 3:
      for (size_t j = 0, m = s.draw(pool[k].s.m.v.size() > 30 ? 100 : 12); j < m && ready(pool[k]); j++)
        step(pool[k]);
      break;
    case 4: // copy
      if (pool.size() < 8) {
        pool.push_back(Live(pool[k]));
        forks += pool[k].pos > 0;
      }
      break;
    case 5: { // copy assignment, possibly to itself
      const size_t j = s.below(pool.size());
      pool[j] = pool[k];
      break;
    }
    case 6: { // move out and back in
      Seq<T> tmp(std::move(pool[k].s.seq));
      if (s.flag()) {
        Seq<T> other;
        other = std::move(tmp);
        pool[k].s.seq = std::move(other);
      } else
        pool[k].s.seq = std::move(tmp);
      break;
    }
    case 7: // a combinator over the rest
      if (pool.size() < 8) {
        SeqM in{pool[k].s.seq, from(pool[k].s.m, pool[k].pos), cat("rest(", pool[k].pos, ",", pool[k].s.desc, ")")};
        pool.push_back(Live{combine(s, in, 1), 0});
        forks += pool[k].pos > 0;
      }
      break;
    case 8:
      if (pool.size() < 8)
        pool.push_back(Live{anySeq(s, 2), 0});
      break;
    default:
      if (pool.size() > 1)
        pool.erase(pool.begin() + long(k));
    }
  }
  // Whatever is left agrees to the end, and stays ended.
  for (auto &l : pool) {
    while (l.pos < l.s.m.v.size())
      step(l);
    if (l.s.m.complete) {
      step(l);
      step(l);
    }
  }
  c.nontrivial(nexts > 4 && forks > 0);
  if (c.wantSample())
    c.sample(cat(pool.size(), " live, ", nexts, " elements, ", forks, " forks; ", pool[0].s.desc.substr(0, 200)));
}

FACET(queries, 4) {
  SeqM a = anySeq(s, 2);
  if (!a.m.complete) {
    const size_t n = s.draw(a.m.v.size());
    a.seq = seq::take(n, a.seq);
    a.m.v.resize(n);
    a.m.complete = true;
  }
  if (a.m.v.size() > 900) { // the printed form is cut then
    a.seq = seq::take(900, a.seq);
    a.m.v.resize(900);
  }
  const Vec v = a.m.v;
  const size_t skip = s.draw(3) == 0 && !v.empty() ? s.draw(v.size()) : 0;
  for (size_t i = 0; i < skip; i++)
    a.seq.next();
  const Vec r(v.begin() + long(skip), v.end());
  const Fn f = Fn{s.draw(1000), unsigned(1 + s.draw(5)), 0};
  const auto pred = [&](const T &x) { return f.pred(x); };
  REQ_EQ(seq::length(a.seq), r.size(), "length of ", a.desc);
  REQ_EQ(seq::all(a.seq, pred), std::all_of(r.begin(), r.end(), pred), "all of ", a.desc);
  REQ_EQ(seq::any(a.seq, pred), std::any_of(r.begin(), r.end(), pred), "any of ", a.desc);
  const T probe = !r.empty() && s.flag() ? s.pick(r) : T(s.draw(30));
  REQ_EQ(seq::contains(a.seq, probe), std::find(r.begin(), r.end(), probe) != r.end(), "contains ", probe, " in ", a.desc);
  for (size_t i : {size_t(0), s.draw(r.size() + 2), r.empty() ? 0 : r.size() - 1, r.size()}) {
    const auto x = seq::at(a.seq, i);
    REQ_EQ(bool(x), i < r.size(), "existence of element ", i, " of ", a.desc);
    if (x)
      REQ(*x == r[i], "element ", i, " is ", *x, " instead of ", r[i], " in ", a.desc);
  }
  const auto l = seq::last(a.seq);
  REQ_EQ(bool(l), !r.empty(), "existence of the last element of ", a.desc);
  if (l)
    REQ(*l == r.back(), "last element ", *l, " of ", a.desc);
  Vec seen;
  seq::forEach(a.seq, [&](T x) { seen.push_back(x); });
  REQ(seen == r, "for-each gives ", listStr(seen), " instead of ", listStr(r), " for ", a.desc);
  seen.clear();
  for (auto it = begin(a.seq); it != end(a.seq); ++it)
    seen.push_back(*it);
  REQ(seen == r, "iteration gives ", listStr(seen), " instead of ", listStr(r), " for ", a.desc);
  REQ(a.seq == a.seq && !(a.seq != a.seq), "a sequence differs from itself: ", a.desc);
  REQ(a.seq == seq::fromContainer(r), "a sequence differs from its elements: ", a.desc);
  Vec w = r;
  switch (s.draw(2)) {
  case 0: w.push_back(T(s.draw(9))); break;
  case 1: if (!w.empty()) w.pop_back(); break;
  default: if (!w.empty()) w[s.below(w.size())] += 1;
  }
  if (w != r) {
    REQ(a.seq != seq::fromContainer(w) && !(a.seq == seq::fromContainer(w)), "a sequence equals other elements ", listStr(w), ": ", a.desc);
    REQ(seq::fromContainer(w) != a.seq, "other elements ", listStr(w), " equal a sequence: ", a.desc);
  }
  std::ostringstream os;
  os << a.seq;
  std::string text = "[";
  for (size_t i = 0; i < r.size(); i++)
    text += (i ? ", " : "") + str(r[i]);
  REQ_EQ(os.str(), text + "]", "printed form of ", a.desc);
  c.nontrivial(r.size() > 2);
}

// Elements are read from the source no earlier than needed.
FACET(laziness, 3) {
  const Vec v = s.list(s.draw(11) == 11 ? 200 : 20, [&] { return T(s.draw(30)); });
  const auto reads = std::make_shared<size_t>(0);
  SeqM p{makeSeq<Counted>(Counted{v, 0, reads}), Model(), "source"};
  p.m.v = v;
  for (size_t i = 0; i < v.size(); i++)
    p.m.need.push_back(i + 1);
  const size_t depth = 1 + s.draw(3);
  for (size_t i = 0; i < depth; i++) {
    p = combine(s, p, 0, true);
    if (p.m.v.size() != p.m.need.size())
      break;
  }
  REQ_EQ(*reads, size_t(0), "reads before anything was asked for: ", p.desc);
  for (size_t i = 0; i < p.m.v.size(); i++) {
    const auto x = p.seq.next();
    REQ(x && *x == p.m.v[i], "element ", i, " of ", p.desc);
    if (i < p.m.need.size())
      REQ(*reads <= p.m.need[i], *reads, " source elements read for ", i + 1, " results where ", p.m.need[i], " suffice: ", p.desc);
    if (!p.m.complete && i + 1 == p.m.v.size())
      return;
  }
  c.nontrivial(p.m.v.size() > 1);
}

// Move-only and class-typed elements pass through unharmed.
FACET(classes, 2) {
  const auto v = s.list(7, [&] { return "text number " + str(s.draw(30)); });
  const Fn f{s.draw(1000), unsigned(1 + s.draw(4)), 0};
  std::vector<std::string> want;
  auto seq0 = seq::fromContainer(v);
  const auto copyAt = s.draw(v.size());
  auto chain = seq::map(seq::filter(seq0, [f](const std::string &x) { return f.pred(T(hashStr(x))); }),
                        [](std::string &&x) { return std::unique_ptr<std::string>(new std::string(std::move(x) + "!")); });
  for (auto &x : v)
    if (f.pred(T(hashStr(x))))
      want.push_back(x + "!");
  std::vector<std::string> got, got2;
  auto copy = chain;
  for (size_t i = 0;; i++) {
    if (i == copyAt)
      copy = chain, got2 = got;
    auto x = chain.next();
    if (!x)
      break;
    got.push_back(**x);
  }
  REQ(got == want, "elements of a chain of ", v.size(), " strings");
  if (copyAt <= got.size()) {
    while (auto x = copy.next())
      got2.push_back(**x);
    REQ(got2 == want, "elements after copying at ", copyAt);
  }
  std::vector<std::string> again;
  while (auto x = seq0.next())
    again.push_back(*x);
  REQ(again == v, "the original sequence after use of copies");
  c.nontrivial(want.size() > 1);
}
