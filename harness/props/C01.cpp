// C01: random streams against an independent Threefish-256 / split-path model.
#include "rcx.h"
#include <array>
#include <map>
using namespace pbt;
using rc::Random;

namespace {
// Reference Threefish-256, written from the Skein specification (72 rounds).
using Block = std::array<uint64_t, 4>;
Block threefish(const Block &key, uint64_t t0, uint64_t t1, Block x) {
  static const int R[8][2] = {{14, 16}, {52, 57}, {23, 40}, {5, 37},
                              {25, 33}, {46, 12}, {58, 22}, {32, 32}};
  uint64_t k[5] = {key[0], key[1], key[2], key[3], 0x1BD11BDAA9FC1A22ULL};
  for (int i = 0; i < 4; i++)
    k[4] ^= key[i];
  const uint64_t t[3] = {t0, t1, t0 ^ t1};
  auto addKey = [&](uint64_t s) {
    x[0] += k[s % 5];
    x[1] += k[(s + 1) % 5] + t[s % 3];
    x[2] += k[(s + 2) % 5] + t[(s + 1) % 3];
    x[3] += k[(s + 3) % 5] + s;
  };
  for (int r = 0; r < 72; r++) {
    if (r % 4 == 0)
      addKey(r / 4);
    for (int j = 0; j < 2; j++) {
      uint64_t &a = x[2 * j], &b = x[2 * j + 1];
      a += b;
      const int n = R[r % 8][j];
      b = ((b << n) | (b >> (64 - n))) ^ a;
    }
    std::swap(x[1], x[3]);
  }
  addKey(18);
  return x;
}

struct Model {
  Block key;
  uint64_t bits = 0;
  unsigned nbits = 0;
  uint64_t counter = 0;
  void append(bool b) {
    if (nbits == 64) {
      key = threefish(key, 13, 37, {{bits, counter, 0, 0}});
      bits = 0;
      nbits = 0;
    }
    if (b)
      bits |= uint64_t(1) << nbits;
    nbits++;
  }
  Model split() {
    Model r(*this);
    append(false);
    r.append(true);
    return r;
  }
  uint64_t next() {
    const Block b =
        threefish(key, 13, 37, {{bits, counter - counter % 4, 0, 0}});
    const uint64_t word = b[counter % 4];
    if (counter == ~uint64_t(0)) { // the counter goes round into another path
      append(true);
      counter = 0;
    } else {
      counter++;
    }
    return word;
  }
  std::string describe() const {
    return cat("key={", key[0], ",", key[1], ",", key[2], ",", key[3],
               "} bits=", bits, " nbits=", nbits, " counter=", counter);
  }
  bool operator==(const Model &o) const {
    return key == o.key && bits == o.bits && nbits == o.nbits &&
        counter == o.counter;
  }
};

struct Pair {
  Random r;
  Model m;
};

Pair anyRoot(Src &s) {
  switch (s.draw(3)) {
  case 0: return {Random(), Model{{{0, 0, 0, 0}}}};
  case 1: {
    const uint64_t x = s.word();
    return {Random(x), Model{{{x, x, x, x}}}};
  }
  default: {
    Block k{{s.word(), s.word(), s.word(), s.word()}};
    return {Random(k), Model{k}};
  }
  }
}
} // namespace

FACET(history, 5) {
  std::vector<Pair> pool;
  std::vector<std::string> log;
  pool.push_back(anyRoot(s));
  const size_t nops = 1 + s.length(40);
  int splits = 0, nexts = 0, copies = 0;
  for (size_t i = 0; i < nops; i++) {
    const size_t a = s.below(pool.size());
    switch (s.draw(6)) {
    case 0:
    case 1:
      if (pool[a].m.counter == 0) { // splitting is only allowed before drawing
        Pair p;
        p.r = pool[a].r.split();
        p.m = pool[a].m.split();
        pool.push_back(p);
        splits++;
        break;
      } // fallthrough
    case 2:
    case 3: {
      const int n = 1 + static_cast<int>(s.draw(6));
      for (int j = 0; j < n; j++) {
        const auto before = pool[a].m;
        const uint64_t want = pool[a].m.next();
        const uint64_t got = pool[a].r.next();
        REQ_EQ(got, want, "draw at ", before.describe());
        c.count(1);
      }
      nexts++;
      break;
    }
    case 4:
      pool.push_back(pool[a]);
      copies++;
      break;
    case 5: {
      const size_t b = s.below(pool.size());
      pool[b].r = pool[a].r;
      pool[b].m = pool[a].m;
      copies++;
      break;
    }
    default:
      if (pool.size() < 8)
        pool.push_back(anyRoot(s));
    }
  }
  // Equality agrees with the model, and every survivor continues correctly.
  for (size_t i = 0; i < pool.size(); i++)
    for (size_t j = 0; j < pool.size(); j++) {
      REQ_EQ(pool[i].r == pool[j].r, pool[i].m == pool[j].m, "equality of ",
             pool[i].m.describe(), " and ", pool[j].m.describe());
      REQ_EQ(pool[i].r != pool[j].r, !(pool[i].m == pool[j].m), "inequality");
      const bool lt = pool[i].r < pool[j].r, gt = pool[j].r < pool[i].r;
      REQ((lt || gt) == (pool[i].r != pool[j].r) && !(lt && gt),
          "ordering inconsistent with equality");
      if (pool[i].r == pool[j].r)
        REQ_EQ(std::hash<Random>()(pool[i].r), std::hash<Random>()(pool[j].r),
               "hash");
    }
  for (auto &p : pool)
    for (int k = 0; k < 5; k++)
      REQ_EQ(p.r.next(), p.m.next(), "continuation");
  c.nontrivial(splits > 0 && nexts > 0 && copies > 0);
  if (c.wantSample())
    c.sample(cat("ops=", nops, " splits=", splits, " draws=", nexts,
                 " copies=", copies, " last ", pool.back().m.describe()));
}

FACET(deep_split, 2) {
  Pair p = anyRoot(s);
  const int depth = static_cast<int>(s.draw(220));
  for (int i = 0; i < depth; i++) {
    Pair q;
    q.r = p.r.split();
    q.m = p.m.split();
    const bool right = s.flag();
    Pair other = right ? p : q;
    if (right)
      p = q;
    if (i % 16 == 0 || (i > 60 && i < 68) || (i > 124 && i < 132)) {
      const int n = 1 + static_cast<int>(s.draw(8));
      for (int k = 0; k < n; k++)
        REQ_EQ(other.r.next(), other.m.next(), "sibling at depth ", i);
      c.count(n);
    }
  }
  for (int k = 0; k < 6; k++)
    REQ_EQ(p.r.next(), p.m.next(), "at depth ", depth, " ", p.m.describe());
  c.nontrivial(depth > 64);
  if (depth > 128)
    c.label("depth>128");
  if (c.wantSample())
    c.sample(cat("depth=", depth, " ", p.m.describe()));
}

FACET(long_stream, 1) {
  Pair p = anyRoot(s);
  const int pre = static_cast<int>(s.draw(5));
  for (int i = 0; i < pre; i++) {
    Pair q;
    q.r = p.r.split();
    q.m = p.m.split();
    if (s.flag())
      p = q;
  }
  const int n = static_cast<int>(s.chance(1, 60) ? 66000 + s.draw(9000) : s.draw(600));
  for (int k = 0; k < n; k++)
    REQ_EQ(p.r.next(), p.m.next(), "word ", k);
  c.count(n);
  c.nontrivial(n > 4);
  if (n > 65536)
    c.label("words>65536");
  if (c.wantSample())
    c.sample(cat("words=", n, " ", p.m.describe()));
}

// A state that has already given billions of words, made by writing the number
// of words drawn into its serialised form. The layout is confirmed first, on a
// number of words that can be drawn; when it is another one nothing is judged.
FACET(far_stream, 1) {
  Pair p = anyRoot(s);
  const int pre = static_cast<int>(s.draw(70));
  for (int i = 0; i < pre; i++) {
    Pair q;
    q.r = p.r.split();
    q.m = p.m.split();
    if (s.flag())
      p = q;
  }
  auto compact = [](uint64_t x, std::string &o) {
    while (x >= 0x80) {
      o += static_cast<char>((x & 0x7F) | 0x80);
      x >>= 7;
    }
    o += static_cast<char>(x);
  };
  auto at = [&](uint64_t counter) {
    std::string o;
    for (auto k : p.m.key)
      for (int i = 0; i < 8; i++)
        o += static_cast<char>((k >> (8 * i)) & 0xFF);
    compact(p.m.bits, o);
    compact(counter, o);
    o += static_cast<char>(p.m.nbits);
    return o;
  };
  auto load = [](const std::string &text) {
    Random r;
    rc::deserialize(text.begin(), text.end(), r);
    return r;
  };
  const int known = 1 + static_cast<int>(s.draw(200));
  Random drawn = p.r;
  for (int i = 0; i < known; i++)
    drawn.next();
  std::string own;
  rc::serialize(drawn, std::back_inserter(own));
  if (own != at(known) || load(own) != drawn) {
    c.label("another layout");
    return;
  }
  uint64_t start = s.anyBits() >> s.draw(63);
  if (s.flag())
    start = (uint64_t(1) << (8 + s.draw(55))) - s.draw(8);
  if (s.draw(3) == 0)
    start = ~uint64_t(0) - s.draw(40);
  Random r = load(at(start));
  Model m = p.m;
  m.counter = start;
  const int n = 1 + static_cast<int>(s.draw(40));
  for (int k = 0; k < n; k++)
    REQ_EQ(r.next(), m.next(), "word ", start + k);
  c.count(n);
  c.nontrivial(start > 0xFFFFFFFF);
  if (c.wantSample())
    c.sample(cat("first word=", start, " ", m.describe()));
}

// Distinct split paths give distinct streams (no two of a set of generators
// with different paths agree on their first words).
FACET(distinct_paths, 1) {
  Random root = anyRoot(s).r;
  std::vector<Random> leaves{root};
  const int n = 2 + static_cast<int>(s.draw(60));
  while (static_cast<int>(leaves.size()) < n) {
    const size_t i = s.below(leaves.size());
    Random right = leaves[i].split();
    leaves.push_back(right);
  }
  std::map<std::pair<uint64_t, uint64_t>, size_t> seen;
  for (size_t i = 0; i < leaves.size(); i++) {
    Random r = leaves[i];
    const uint64_t a = r.next(), b = r.next();
    auto ins = seen.insert({{a, b}, i});
    REQ(ins.second, "two split paths share a stream: leaves ",
        ins.first->second, " and ", i);
  }
  c.nontrivial(n > 8);
  if (c.wantSample())
    c.sample(cat("leaves=", n));
}
