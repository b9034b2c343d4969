// C02: binary and base64 codecs restore values and generator states exactly.
#include "rcx.h"
#include <array>
#include <rapidcheck/detail/Results.h>
#include <rapidcheck/detail/Serialization.h>
#include "detail/Base64.h"
#include "detail/StringSerialization.h"
using namespace pbt;
using namespace rc;
using namespace rc::detail;
using Bytes = std::vector<std::uint8_t>;

namespace {

Random anyState(Src &s, std::string *how = nullptr, bool forSplit = false) {
  Random r = s.flag() ? Random(s.word())
                      : Random(Random::Key{{s.word(), s.word(), s.word(), s.word()}});
  const int splits = static_cast<int>(s.draw(3) == 0 ? s.draw(140) : s.draw(6));
  for (int i = 0; i < splits; i++) {
    Random right = r.split();
    if (s.flag())
      r = right;
  }
  const int draws = forSplit ? 0 : static_cast<int>(s.draw(300) == 300 ? 65500 + s.draw(70) : s.draw(4) == 0 ? s.draw(200) : s.draw(9));
  for (int i = 0; i < draws; i++)
    r.next();
  if (how)
    *how = cat("splits=", splits, " draws=", draws);
  return r;
}

std::size_t anyIndex(Src &s) {
  switch (s.draw(3)) {
  case 0: return s.draw(3);
  case 1: return s.draw(300);
  default: return s.word();
  }
}

uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
// Many values from a few choices, for lengths beyond what a tape can carry.
template <typename F> void bulk(Src &s, size_t max, F f) {
  const size_t n = s.draw(2) ? s.draw(std::min<size_t>(max, 700)) : s.draw(max);
  const uint64_t seed = s.anyBits();
  const int small = int(s.draw(2)); // 0: any word
  for (size_t i = 0; i < n; i++) {
    const uint64_t w = mix(seed + i);
    f(small == 0 ? w : small == 1 ? w % 3 : w % 300);
  }
}

Reproduce anyReproduce(Src &s) {
  Reproduce r;
  r.random = anyState(s);
  r.size = static_cast<int>(static_cast<uint32_t>(s.draw(1) ? s.draw(200) : s.word()));
  r.shrinkPath = s.list(60, [&] { return anyIndex(s); });
  if (s.draw(9) == 9)
    bulk(s, 70000, [&](uint64_t w) { r.shrinkPath.push_back(w); });
  return r;
}

Bytes junk(Src &s, size_t n) {
  Bytes b;
  const size_t k = s.draw(n);
  for (size_t i = 0; i < k; i++)
    b.push_back(static_cast<uint8_t>(s.draw(255)));
  return b;
}

void sameFuture(Ctx &c, Random a, Random b, bool split) {
  for (int i = 0; i < 9; i++)
    REQ_EQ(a.next(), b.next(), "draw ", i, " after decoding");
  (void)split;
}

// Type-erased record kept so that decoding can be checked in order.
struct Record {
  std::function<void(Bytes &)> write;
  std::function<std::string(Bytes::const_iterator &, Bytes::const_iterator)> check;
};

template <typename T> Record intRecord(T v, bool compact) {
  return {[=](Bytes &b) {
            if (compact)
              serializeCompact(v, std::back_inserter(b));
            else
              rc::detail::serialize(v, std::back_inserter(b));
          },
          [=](Bytes::const_iterator &it, Bytes::const_iterator end) -> std::string {
            T out = static_cast<T>(~v);
            it = compact ? deserializeCompact(it, end, out)
                         : rc::detail::deserialize(it, end, out);
            return out == v ? "" : cat("integer ", +v, " came back as ", +out,
                                       compact ? " (compact)" : "");
          }};
}
template <typename T> Record anyIntOf(Src &s) {
  const T v = static_cast<T>(s.word());
  return intRecord<T>(v, s.flag());
}

Record anyRecord(Src &s) {
  using rc::detail::serialize;
  using rc::detail::deserialize;
  switch (s.draw(14)) {
  case 0: return anyIntOf<int8_t>(s);
  case 1: return anyIntOf<uint8_t>(s);
  case 2: return anyIntOf<int16_t>(s);
  case 3: return anyIntOf<uint16_t>(s);
  case 4: return anyIntOf<int32_t>(s);
  case 5: return anyIntOf<uint32_t>(s);
  case 6: return anyIntOf<int64_t>(s);
  case 7: return anyIntOf<uint64_t>(s);
  case 8: {
    std::string v = s.bytes(300);
    if (s.draw(9) == 0)
      v += std::string(s.draw(40000), 'x');
    return {[=](Bytes &b) { serialize(v, std::back_inserter(b)); },
            [=](Bytes::const_iterator &it, Bytes::const_iterator end) -> std::string {
              std::string out = "garbage";
              it = deserialize(it, end, out);
              return out == v ? "" : "string differs";
            }};
  }
  case 9: {
    std::pair<std::string, uint32_t> v(s.bytes(20), static_cast<uint32_t>(s.word()));
    return {[=](Bytes &b) { serialize(v, std::back_inserter(b)); },
            [=](Bytes::const_iterator &it, Bytes::const_iterator end) -> std::string {
              std::pair<std::string, uint32_t> out("q", 3);
              it = deserialize(it, end, out);
              return out == v ? "" : "pair differs";
            }};
  }
  case 10: {
    std::unordered_map<std::string, int64_t> v;
    for (auto &k : s.list(200, [&] { return s.bytes(8); }))
      v[k] = static_cast<int64_t>(s.word());
    if (s.draw(9) == 9)
      bulk(s, 3000, [&](uint64_t w) { v[cat(w)] = int64_t(w); });
    return {[=](Bytes &b) { serialize(v, std::back_inserter(b)); },
            [=](Bytes::const_iterator &it, Bytes::const_iterator end) -> std::string {
              std::unordered_map<std::string, int64_t> out{{"old", 1}};
              it = deserialize(it, end, out);
              return out == v ? "" : "map differs";
            }};
  }
  case 11: {
    auto v = s.list(200, [&] { return anyIndex(s); });
    if (s.draw(9) == 9)
      bulk(s, 70000, [&](uint64_t w) { v.push_back(w); });
    return {[=](Bytes &b) { serializeCompact(v.begin(), v.end(), std::back_inserter(b)); },
            [=](Bytes::const_iterator &it, Bytes::const_iterator end) -> std::string {
              std::vector<std::size_t> out;
              it = deserializeCompact<std::size_t>(it, end, std::back_inserter(out)).first;
              return out == v ? "" : "index list differs";
            }};
  }
  case 12: {
    auto v = s.list(30, [&] { return static_cast<int32_t>(s.word()); });
    if (s.draw(9) == 9)
      bulk(s, 70000, [&](uint64_t w) { v.push_back(int32_t(w)); });
    return {[=](Bytes &b) { serializeN(v.begin(), v.size(), std::back_inserter(b)); },
            [=](Bytes::const_iterator &it, Bytes::const_iterator end) -> std::string {
              std::vector<int32_t> out;
              it = deserializeN<int32_t>(it, end, v.size(), std::back_inserter(out));
              return out == v ? "" : "fixed list differs";
            }};
  }
  case 13: {
    const Random v = anyState(s);
    return {[=](Bytes &b) { rc::serialize(v, std::back_inserter(b)); },
            [=](Bytes::const_iterator &it, Bytes::const_iterator end) -> std::string {
              Random out;
              it = rc::deserialize(it, end, out);
              return out == v ? "" : cat("random state differs: ", str(v), " vs ", str(out));
            }};
  }
  default: {
    const Reproduce v = anyReproduce(s);
    return {[=](Bytes &b) { serialize(v, std::back_inserter(b)); },
            [=](Bytes::const_iterator &it, Bytes::const_iterator end) -> std::string {
              Reproduce out;
              out.shrinkPath = {1, 2};
              it = deserialize(it, end, out);
              return out == v ? "" : "reproduction record differs";
            }};
  }
  }
}
} // namespace

FACET(random_state, 4) {
  std::string how;
  const bool forSplit = s.chance(1, 4);
  const Random r = anyState(s, &how, forSplit);
  Bytes b = junk(s, 3);
  const size_t pre = b.size();
  rc::serialize(r, std::back_inserter(b));
  const size_t post = b.size();
  const Bytes tail = junk(s, 4);
  b.insert(b.end(), tail.begin(), tail.end());
  // The target may be fresh or already used for something else.
  const bool dirty = s.chance(1, 3);
  Random out = dirty ? anyState(s) : Random();
  const auto it = rc::deserialize(b.cbegin() + pre, b.cend(), out);
  REQ_EQ(static_cast<size_t>(it - b.cbegin()), post, "consumed length, ", how);
  sameFuture(c, r, out, forSplit);
  if (forSplit) {
    Random r1 = r, o1 = out;
    Random r2 = r1.split(), o2 = o1.split();
    sameFuture(c, r1, o1, true);
    sameFuture(c, r2, o2, true);
  }
  REQ(out == r, "decoded state is not equal to the original, ", how,
      dirty ? " (into a used object)" : "", ": ", str(r), " vs ", str(out));
  c.nontrivial(how != "splits=0 draws=0");
  if (c.wantSample())
    c.sample(cat(how, " bytes=", post - pre, dirty ? " dirty" : ""));
}

FACET(records, 4) {
  std::vector<Record> recs;
  const size_t n = 1 + s.draw(5);
  for (size_t i = 0; i < n; i++)
    recs.push_back(anyRecord(s));
  Bytes b;
  std::vector<size_t> ends;
  for (auto &r : recs) {
    r.write(b);
    ends.push_back(b.size());
  }
  const Bytes whole = b;
  auto it = whole.begin();
  for (size_t i = 0; i < n; i++) {
    const std::string e = recs[i].check(it, whole.end());
    REQ(e.empty(), "record ", i, ": ", e);
    REQ_EQ(static_cast<size_t>(it - whole.begin()), ends[i], "end of record ", i);
  }
  c.count(n);
  c.nontrivial(n > 1);
  if (c.wantSample())
    c.sample(cat("records=", n, " bytes=", whole.size()));
}

FACET(base64, 2) {
  Bytes b;
  const size_t n = s.length(200);
  for (size_t i = 0; i < n; i++)
    b.push_back(static_cast<uint8_t>(s.draw(3) ? s.draw(255) : (s.flag() ? 255 : 0)));
  if (s.draw(19) == 19)
    bulk(s, 200000, [&](uint64_t w) { b.push_back(uint8_t(w)); });
  const std::string t = base64Encode(b);
  for (char ch : t)
    REQ(isalnum(static_cast<unsigned char>(ch)) || ch == '+' || ch == '_',
        "character ", int(ch), " needs quoting in a configuration");
  const Bytes back = base64Decode(t);
  REQ(back == b, "base64 changed ", b.size(), " bytes ", listStr(b), " into ", back.size(), " bytes ", listStr(back));
  c.nontrivial(n > 0);
  c.label(cat("mod", n % 3));
  if (c.wantSample())
    c.sample(cat(listStr(b), " -> ", t));
}

FACET(reproduce_text, 3) {
  std::unordered_map<std::string, Reproduce> m;
  const size_t n = s.draw(4);
  for (size_t i = 0; i < n; i++) {
    const std::string k = s.stretched(s.flag() ? s.bytes(12) : s.ascii(30));
    m[k] = anyReproduce(s);
  }
  if (s.draw(19) == 19)
    bulk(s, 700, [&](uint64_t w) { m[cat("p", w)].size = int(w % 100); });
  const std::string t = reproduceMapToString(m);
  const auto back = stringToReproduceMap(t);
  REQ(back == m, "reproduction map changed, entries=", m.size(), " text=", t.substr(0, 4000));
  for (auto &p : m)
    sameFuture(c, p.second.random, back.at(p.first).random, false);
  c.nontrivial(!m.empty());
  if (c.wantSample())
    c.sample(cat("entries=", m.size(), " text=", t.substr(0, 80)));
}
