#include "C23.h"
namespace C23 {
SeqM anySource(Src &s) {
  const Vec v = s.list(s.draw(11) == 11 ? 300 : 8, [&] { return T(s.draw(9)); });
  SeqM o;
  o.m.v = v;
  switch (s.draw(13)) {
  case 0: o.seq = seq::fromContainer(v); o.desc = "vector" + listStr(v); break;
  case 1: o.seq = seq::fromContainer(std::list<T>(v.begin(), v.end())); o.desc = "list" + listStr(v); break;
  case 2: {
    const std::set<T> x(v.begin(), v.end());
    o.seq = seq::fromContainer(x);
    o.m.v.assign(x.begin(), x.end());
    o.desc = "set" + listStr(x);
    break;
  }
  case 3: o.seq = seq::fromIteratorRange(v.begin(), v.end()); o.desc = "iterators" + listStr(v); break;
  case 4: {
    const std::deque<T> x(v.begin(), v.end());
    o.seq = seq::fromContainer(x);
    o.desc = "deque" + listStr(v);
    break;
  }
  case 5: o.m.v = {T(s.draw(9)), T(s.draw(9)), T(s.draw(9))}; o.seq = seq::just(o.m.v[0], o.m.v[1], o.m.v[2]); o.desc = "just" + listStr(o.m.v); break;
  case 6: o.m.v = {T(s.draw(9))}; o.seq = seq::just(o.m.v[0]); o.desc = "just" + listStr(o.m.v); break;
  case 7: {
    const T a = s.range(-6, 6), b = s.draw(11) == 11 ? s.range(-300, 300) : s.range(-6, 6);
    o.seq = seq::range<T>(a, b);
    o.m.v.clear();
    for (T x = a; x != b; x += a < b ? 1 : -1)
      o.m.v.push_back(x);
    o.desc = cat("range(", a, ",", b, ")");
    break;
  }
  case 8: {
    const T a = T(s.draw(9));
    o.seq = seq::repeat(a);
    o.m.v.assign(kPrefix, a);
    o.m.complete = false;
    o.desc = cat("repeat(", a, ")");
    break;
  }
  case 9: {
    Fn f = anyFn(s);
    f.boom = 0;
    const T a = T(s.draw(9));
    o.seq = seq::iterate(a, [f](T x) { return f.map(x); });
    o.m.v.clear();
    for (T x = a; o.m.v.size() < kPrefix; x = f.map(x))
      o.m.v.push_back(x);
    o.m.complete = false;
    o.desc = cat("iterate(", a, ")");
    break;
  }
  case 10: {
    o.seq = seq::cast<T>(seq::index());
    o.m.v.clear();
    for (size_t i = 0; i < kPrefix; i++)
      o.m.v.push_back(T(i));
    o.m.complete = false;
    o.desc = "index";
    break;
  }
  case 11: o.seq = Seq<T>(); o.m.v.clear(); o.desc = "empty"; break;
  case 12: {
    const size_t a = s.draw(5), b = a + s.draw(4);
    o.seq = seq::map(seq::subranges(a, b), [](const std::pair<size_t, size_t> &p) { return T(p.first * 100 + p.second); });
    o.m.v.clear();
    for (size_t k = b - a; k > 0; k--)
      for (size_t i = a; i + k <= b; i++)
        o.m.v.push_back(T(i * 100 + i + k));
    o.desc = cat("subranges(", a, ",", b, ")");
    break;
  }
  default: {
    auto reads = std::make_shared<size_t>(0);
    o.seq = makeSeq<Counted>(Counted{v, 0, reads});
    o.desc = "user" + listStr(v);
  }
  }
  return o;
}

SeqM anySeq(Src &s, int depth) {
  SeqM o = anySource(s);
  for (size_t i = 0, n = depth > 0 ? s.draw(3) : 0; i < n; i++)
    o = combine(s, o, depth - 1);
  return o;
}

SeqM combine(Src &s, SeqM in, int depth, bool lazyOnly) {
  SeqM o;
  const Fn f = anyFn(s);
  const Vec v = in.m.v;
  const std::vector<size_t> need = in.m.need;
  Vec &out = o.m.v;
  auto &on = o.m.need;
  o.m.complete = in.m.complete;
  const auto push = [&](T x, size_t i) {
    out.push_back(x);
    if (!need.empty())
      on.push_back(need[i]);
  };
  // The rest of the result after a callback threw: none.
  const auto guarded = [&](const std::function<void()> &g) {
    try {
      g();
    } catch (const Boom &) {
      o.m.complete = true;
    }
  };
  switch (s.draw(lazyOnly ? 9 : 13)) {
  case 0:
    o.seq = seq::map(in.seq, [f](T x) { return f.map(x); });
    guarded([&] { for (size_t i = 0; i < v.size(); i++) push(f.map(v[i]), i); });
    o.desc = "map(" + in.desc + ")";
    break;
  case 1:
    o.seq = seq::filter(in.seq, [f](const T &x) { return f.pred(x); });
    guarded([&] { for (size_t i = 0; i < v.size(); i++) if (f.pred(v[i])) push(v[i], i); });
    o.desc = "filter(" + in.desc + ")";
    break;
  case 2: {
    size_t n = s.draw(in.m.v.size() > 20 ? in.m.v.size() + 2 : 10);
    if (s.draw(15) == 15)
      n = s.flag() ? SIZE_MAX - s.draw(2) : (size_t(1) << (16 + s.draw(47))) + s.draw(2);
    o.seq = seq::take(n, in.seq);
    for (size_t i = 0; i < std::min(n, v.size()); i++)
      push(v[i], i);
    o.m.complete = in.m.complete || v.size() >= n;
    o.desc = cat("take(", n, ",", in.desc, ")");
    break;
  }
  case 3: {
    size_t n = s.draw(in.m.v.size() > 20 ? in.m.v.size() + 2 : 10);
    if (in.m.complete && s.draw(15) == 15)
      n = s.flag() ? SIZE_MAX - s.draw(2) : (size_t(1) << (16 + s.draw(47))) + s.draw(2);
    o.seq = seq::drop(n, in.seq);
    for (size_t i = n; i < v.size(); i++)
      push(v[i], i);
    o.desc = cat("drop(", n, ",", in.desc, ")");
    break;
  }
  case 4:
    o.seq = seq::takeWhile(in.seq, [f](const T &x) { return f.pred(x); });
    guarded([&] {
      for (size_t i = 0; i < v.size(); i++) {
        if (!f.pred(v[i])) { o.m.complete = true; break; }
        push(v[i], i);
      }
    });
    o.desc = "takeWhile(" + in.desc + ")";
    break;
  case 5:
    o.seq = seq::dropWhile(in.seq, [f](const T &x) { return f.pred(x); });
    guarded([&] {
      size_t i = 0;
      while (i < v.size() && f.pred(v[i]))
        i++;
      for (; i < v.size(); i++)
        push(v[i], i);
    });
    o.desc = "dropWhile(" + in.desc + ")";
    break;
  case 6:
    o.seq = seq::mapMaybe(in.seq, [f](T x) -> Maybe<T> { const T y = f.map(x); if (y % 2) return y; return Nothing; });
    guarded([&] { for (size_t i = 0; i < v.size(); i++) { const T y = f.map(v[i]); if (y % 2) push(y, i); } });
    o.desc = "mapMaybe(" + in.desc + ")";
    break;
  case 7: {
    const bool viaJoin = s.flag();
    const auto inner = [f](T x) { return seq::take(f.len(x), seq::iterate(x, [](T y) { return y + 1; })); };
    o.seq = viaJoin ? seq::join(seq::map(in.seq, inner)) : seq::mapcat(in.seq, inner);
    guarded([&] { for (size_t i = 0; i < v.size(); i++) for (size_t j = 0, n = f.len(v[i]); j < n; j++) push(v[i] + T(j), i); });
    o.desc = cat(viaJoin ? "join" : "mapcat", "(", in.desc, ")");
    break;
  }
  case 8: {
    o.seq = seq::cast<T>(seq::cast<int8_t>(in.seq));
    for (size_t i = 0; i < v.size(); i++)
      push(T(int8_t(v[i])), i);
    o.desc = "cast(" + in.desc + ")";
    break;
  }
  case 9: {
    SeqM b = lazyOnly ? anySource(s) : anySeq(s, depth);
    const T tag = T(s.draw(9));
    if (s.flag()) {
      o.seq = seq::concat(in.seq, b.seq);
      out = v;
      if (in.m.complete) { out.insert(out.end(), b.m.v.begin(), b.m.v.end()); o.m.complete = b.m.complete; }
      o.desc = "concat(" + in.desc + "," + b.desc + ")";
    } else {
      o.seq = seq::concat(b.seq, in.seq, seq::just(tag));
      out = b.m.v;
      o.m.complete = b.m.complete;
      if (b.m.complete) {
        out.insert(out.end(), v.begin(), v.end());
        o.m.complete = in.m.complete;
        if (in.m.complete)
          out.push_back(tag);
      }
      o.desc = cat("concat(", b.desc, ",", in.desc, ",", tag, ")");
    }
    if (lazyOnly)
      on.clear();
    break;
  }
  case 10: case 11: {
    const SeqM b = anySeq(s, depth), d = anySeq(s, depth);
    const bool three = s.flag();
    // Reading the element after the shortest sequence's last must be known to end.
    size_t n = std::min(v.size(), b.m.v.size());
    if (three)
      n = std::min(n, d.m.v.size());
    const auto known = [&](const Model &m) { return m.complete || m.v.size() > n; };
    const auto ends = [&](const Model &m) { return m.complete && m.v.size() == n; };
    o.m.complete = known(in.m) && known(b.m) && (!three || known(d.m)) && (ends(in.m) || ends(b.m) || (three && ends(d.m)));
    const auto z2 = [f](T x, T y) { return f.map(x * 3 + y); };
    const auto z3 = [f](T x, T y, T z) { return f.map(x * 3 + y * 5 + z); };
    o.seq = three ? seq::zipWith(z3, in.seq, b.seq, d.seq) : seq::zipWith(z2, in.seq, b.seq);
    guarded([&] { for (size_t i = 0; i < n; i++) out.push_back(three ? z3(v[i], b.m.v[i], d.m.v[i]) : z2(v[i], b.m.v[i])); });
    o.desc = "zipWith(" + in.desc + "," + b.desc + (three ? "," + d.desc : "") + ")";
    break;
  }
  case 12: {
    o.seq = seq::cycle(in.seq);
    out = v;
    if (in.m.complete) {
      o.m.complete = v.empty();
      while (!v.empty() && out.size() < kPrefix)
        out.insert(out.end(), v.begin(), v.end());
    }
    o.desc = "cycle(" + in.desc + ")";
    break;
  }
  default: { // a join of sequences of different kinds
    std::vector<Seq<T>> parts;
    std::vector<Model> ms;
    std::string d;
    parts.push_back(in.seq);
    ms.push_back(in.m);
    for (size_t i = 0, n = s.draw(3); i < n; i++) {
      const SeqM b = anySeq(s, depth);
      parts.push_back(b.seq);
      ms.push_back(b.m);
      d += "," + b.desc;
    }
    o.seq = seq::join(seq::fromContainer(parts));
    o.m.complete = true;
    for (auto &m : ms) {
      out.insert(out.end(), m.v.begin(), m.v.end());
      if (!m.complete) { o.m.complete = false; break; }
    }
    o.desc = "join(" + in.desc + d + ")";
  }
  }
  return o;
}
} // namespace C23
