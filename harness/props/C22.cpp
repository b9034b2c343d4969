// C22: size and shrink controls affect only what they name.
#include "genexpr.h"
#include "source.h"
#include "detail/Testing.h"
using namespace pbt;
using namespace rc;
using namespace rcx;
using T = int64_t;

namespace {
// Extra shrinks: up to three smaller values, decided by the value.
std::vector<T> extra(uint64_t salt, T x) {
  std::vector<T> out;
  if (x <= 0)
    return out;
  const uint64_t h = hash64(salt, uint64_t(x));
  for (uint64_t i = 0; i < h % 4; i++)
    out.push_back(T(hash64(h, i) % uint64_t(x)));
  return out;
}
int via(uint64_t salt, int size) { return int(hash64(salt, uint64_t(size)) % 150); }
int scaled(int x, double f) { return int(std::min(x * f, double(std::numeric_limits<int>::max()))); }
double factor(Src &s) { return s.oneOf({0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 0.1}); }

// A generator under a stack of controls, with what it must do: a function from
// the outer size to the size the source sees, and one from the source's tree.
struct Controlled {
  Gen<T> gen;
  std::function<int(int)> size;
  std::function<Lazy<T>(Lazy<T>)> tree;
  std::string desc;
  int depth = 0;
};
// Signature of a tree up to a node budget. What is below a value that fails to
// generate does not matter: such a case is discarded, not shrunk.
uint64_t sigOf(const Shrinkable<Val> &sh, int &budget) {
  const auto o = observe(sh);
  uint64_t h = obsHash(o);
  if (!o.ok)
    return h;
  auto seq = sh.shrinks();
  for (int i = 0; i < 6 && budget > 0; i++) {
    auto k = seq.next();
    if (!k)
      break;
    budget--;
    h = hash64(h, sigOf(*k, budget));
  }
  return hash64(h, 77);
}
Lazy<T> bare(const Lazy<T> &r) { return leaf<T>(r.v); }

Controlled control(Src &s, Controlled in) {
  const auto inSize = in.size;
  const auto inTree = in.tree;
  const auto g = in.gen;
  Controlled o = in;
  o.depth++;
  switch (s.draw(9)) {
  case 0: {
    const int n = s.draw(9) == 0 ? std::numeric_limits<int>::max() : int(s.draw(300));
    o.gen = gen::resize(n, g);
    o.size = [=](int) { return inSize(n); };
    o.desc = cat("resize(", n, ", ", in.desc, ")");
    break;
  }
  case 1: {
    const double f = factor(s);
    o.gen = gen::scale(f, g);
    o.size = [=](int x) { return inSize(scaled(x, f)); };
    o.desc = cat("scale(", f, ", ", in.desc, ")");
    break;
  }
  case 2: {
    const uint64_t salt = s.draw(1000);
    o.gen = gen::withSize([=](int x) { return gen::resize(via(salt, x), g); });
    o.size = [=](int x) { return inSize(via(salt, x)); };
    o.desc = cat("withSize(resize, ", in.desc, ")");
    break;
  }
  case 3:
    o.gen = gen::withSize([=](int) { return g; });
    o.desc = cat("withSize(", in.desc, ")");
    break;
  case 4:
    o.gen = gen::noShrink(g);
    o.tree = [=](Lazy<T> r) { return bare(inTree(r)); };
    o.desc = cat("noShrink(", in.desc, ")");
    break;
  case 5: case 6: {
    const uint64_t salt = s.draw(1000);
    o.gen = gen::shrink(g, [=](const T &x) { return seq::fromContainer(extra(salt, x)); });
    o.tree = [=](Lazy<T> r) {
      return lazyBind<T>(inTree(r), [=](const T &v) { return lazyRecur<T>(v, [=](const T &x) { return extra(salt, x); }); });
    };
    o.desc = cat("shrink(", in.desc, ")");
    break;
  }
  case 7:
    o.gen = gen::lazy([=] { return g; });
    o.desc = cat("lazy(", in.desc, ")");
    break;
  case 8: {
    const std::string name = s.ascii(8);
    const std::string before = g.name();
    o.gen = g.as(name);
    if (o.gen.name() != name || g.name() != before)
      throw std::logic_error("naming");
    o.desc = cat("as(", in.desc, ")");
    break;
  }
  default: {
    const auto copy = g;
    o.gen = copy;
    o.depth--;
  }
  }
  return o;
}
} // namespace

FACET(stack, 8) {
  const auto src = anySrc<T>(s, 8);
  Controlled ct{src.gen(), [](int x) { return x; }, [](Lazy<T> r) { return r; }, "source", 0};
  for (size_t i = 0, n = 1 + s.draw(6); i < n; i++)
    ct = control(s, ct);
  REQ(src.calls->empty(), "the source was used before anything was generated: ", ct.desc);
  const Random random = anyRandom(s);
  const int size = anySize(s);
  const auto sh = ct.gen(random, size);
  sh.value();
  REQ(!src.calls->empty(), "the source was never used: ", ct.desc);
  const int want = ct.size(size);
  const auto ref = ct.tree(lazy<T>(src.calls->front().tree));
  int budget = 800;
  const auto d = lazyDiff<T>(sh, ref, budget);
  for (auto &call : *src.calls) {
    REQ_EQ(call.size, want, "size seen by the source of ", ct.desc, " at size ", size);
    REQ(call.random == random, "another random state was passed on by ", ct.desc);
  }
  REQ(d.empty(), d, "; expected ", lazyStr<T>(ref), " for ", ct.desc);
  c.nontrivial(ct.depth >= 2 && (budget < 798 || want != size));
  if (c.wantSample())
    c.sample(cat(ct.desc, " at size ", size, " -> size ", want, ", tree ", lazyStr<T>(ref).substr(0, 200)));
}

// The controls over any library generator.
FACET(library, 4) {
  const GX g = anyGX(s, int(s.draw(2)));
  const Random random = anyRandom(s);
  const int n = int(s.draw(40)), outer = int(s.draw(40));
  const auto sig = [&](const Gen<Val> &x, int size) {
    int budget = 40;
    return sigOf(x(random, size), budget);
  };
  const auto ref = sig(g.gen, n);
  REQ_EQ(sig(gen::resize(n, g.gen), outer), ref, "resize of ", g.desc, " to ", n, " at ", outer);
  const double f = factor(s);
  REQ_EQ(sig(gen::scale(f, g.gen), n), sig(g.gen, scaled(n, f)), "scale of ", g.desc, " by ", f, " at ", n);
  const auto gg = g.gen;
  REQ_EQ(sig(gen::withSize([=](int x) { return gen::resize(x + 1, gg); }), n), sig(gg, n + 1), "withSize of ", g.desc);
  REQ_EQ(sig(gen::lazy([=] { return gg; }), n), ref, "lazy ", g.desc);
  REQ_EQ(sig(gg.as("name"), n), ref, "as of ", g.desc);
  REQ_EQ(sig(gen::shrink(gg, [](const Val &) { return Seq<Val>(); }), n), ref, "shrink without additions of ", g.desc);
  const auto bareSh = gen::noShrink(gg)(random, n);
  REQ(observe(bareSh) == observe(gg(random, n)), "noShrink changes the value of ", g.desc);
  REQ(!observe(bareSh).ok || !bareSh.shrinks().next(), "noShrink leaves shrinks in ", g.desc);
  c.nontrivial(g.depth > 0 && n != outer);
}

FACET(just, 1) {
  const Random random = anyRandom(s);
  const int size = anySize(s);
  const std::string v = s.bytes(8);
  const auto g = gen::just(v);
  const auto sh = g(random, size);
  REQ_EQ(sh.value(), v, "just");
  REQ(!sh.shrinks().next(), "just has shrinks");
  REQ_EQ(gen::resize(3, g)(Random(7), 1).value(), v, "just");
  // A recursive generator made with lazy ends and sees every smaller size.
  struct Rec {
    static Gen<std::vector<int>> gen() {
      return gen::withSize([](int n) {
        if (n <= 0)
          return gen::just(std::vector<int>());
        return gen::map(gen::resize(n / 2, gen::lazy(&Rec::gen)), [n](std::vector<int> x) {
          x.push_back(n);
          return x;
        });
      });
    }
  };
  std::vector<int> want;
  for (int n = size; n > 0; n /= 2)
    want.insert(want.begin(), n);
  const auto got = Rec::gen()(random, size).value();
  REQ(got == want, "recursion through lazy gives ", listStr(got), " instead of ", listStr(want));
  c.nontrivial(size > 1);
}

// The name shows in the counterexample in place of the type and changes nothing else.
FACET(names, 2) {
  struct Pick { bool named; std::string name; T value; };
  std::vector<Pick> picks;
  std::vector<Gen<T>> gens;
  for (size_t i = 0, n = 1 + s.draw(4); i < n; i++) {
    Pick p{s.flag(), "n" + s.ascii(6), T(s.draw(1000))};
    auto g = gen::just(p.value);
    Gen<T> made = p.named ? g.as("other").as(p.name) : g;
    for (int n = int(s.draw(3)); n > 0; n--) { // handed on
      Gen<T> slot = s.flag() ? gen::just(T(4711)).as("slot other") : gen::just(T(4711));
      switch (s.draw(4)) {
      case 0: slot = made; break;
      case 1: slot = std::move(made); break;
      case 2: {
        Gen<T> copy(made);
        std::swap(slot, copy);
        break;
      }
      case 3: {
        Gen<T> moved(std::move(made));
        const auto &self = moved;
        moved = self;
        slot = moved;
        break;
      }
      default: {
        std::vector<Gen<T>> room{slot, made};
        room.erase(room.begin());
        slot = room[0];
      }
      }
      made = std::move(slot);
    }
    gens.push_back(made);
    picks.push_back(p);
  }
  const auto prop = detail::toProperty([gens] {
    for (auto &g : gens)
      *g;
    RC_FAIL("no");
  });
  const auto desc = prop(anyRandom(s), anySize(s)).value();
  const auto ex = desc.example();
  REQ_EQ(ex.size(), picks.size(), "entries of the counterexample");
  for (size_t i = 0; i < picks.size(); i++) {
    const auto name = ex[i].first, value = ex[i].second;
    if (picks[i].named)
      REQ_EQ(name, picks[i].name, "name of pick ", i);
    else
      REQ(name.find("other") == std::string::npos && !name.empty(), "name of unnamed pick ", i, ": ", name);
    REQ_EQ(value, str(picks[i].value), "value of pick ", i);
  }
  c.nontrivial(picks.size() > 1);
}
