// C07: configuration strings against a model of the documented format.
#include "rcx.h"
#include <map>
#include <rapidcheck/detail/Configuration.h>
#include "detail/MapParser.h"
#include "detail/StringSerialization.h"
using namespace pbt;
using namespace rc;
using namespace rc::detail;
using Map = std::map<std::string, std::string>;

namespace {
int anyCount(Src &s) {
  switch (s.draw(3)) {
  case 0: return static_cast<int>(s.draw(3));
  case 1: return static_cast<int>(s.draw(1000));
  case 2: return 100;
  default: return static_cast<int>(s.draw(0x7FFFFFFF));
  }
}
Reproduce anyReproduce(Src &s) {
  Reproduce r;
  r.random = Random(Random::Key{{s.word(), s.word(), s.word(), s.word()}});
  const int n = static_cast<int>(s.draw(3) ? s.draw(4) : s.draw(130));
  for (int i = 0; i < n; i++) {
    Random right = r.random.split();
    if (s.flag())
      r.random = right;
  }
  r.size = static_cast<int>(s.draw(300));
  if (s.draw(40) == 40)
    for (uint64_t i = s.draw(2000), salt = s.anyBits(); i > 0; i--)
      r.shrinkPath.push_back(hash64(salt, i) >> (i % 64));
  else
    r.shrinkPath = s.list(10, [&] { return static_cast<std::size_t>(s.draw(3) ? s.draw(40) : s.word()); });
  return r;
}
Configuration anyConfig(Src &s) {
  Configuration k;
  k.testParams.seed = s.word();
  k.testParams.maxSuccess = anyCount(s);
  k.testParams.maxSize = anyCount(s);
  k.testParams.maxDiscardRatio = s.flag() ? 10 : anyCount(s);
  k.testParams.disableShrinking = s.flag();
  k.verboseProgress = s.flag();
  k.verboseShrinking = s.flag();
  if (s.draw(60) == 60) {
    const Reproduce r = anyReproduce(s);
    for (uint64_t i = s.draw(700); i > 0; i--) {
      auto &e = k.reproduce[cat("p", i)] = r;
      e.size = static_cast<int>(i);
    }
  }
  const size_t n = s.draw(2);
  for (size_t i = 0; i < n; i++)
    k.reproduce[s.stretched(s.flag() ? s.bytes(10) : s.ascii(20))] = anyReproduce(s);
  return k;
}
// Field by field, so that a broken operator== cannot hide a difference.
std::string differs(const Configuration &a, const Configuration &b) {
  if (a.testParams.seed != b.testParams.seed) return "seed";
  if (a.testParams.maxSuccess != b.testParams.maxSuccess) return "max_success";
  if (a.testParams.maxSize != b.testParams.maxSize) return "max_size";
  if (a.testParams.maxDiscardRatio != b.testParams.maxDiscardRatio) return "max_discard_ratio";
  if (a.testParams.disableShrinking != b.testParams.disableShrinking) return "noshrink";
  if (a.verboseProgress != b.verboseProgress) return "verbose_progress";
  if (a.verboseShrinking != b.verboseShrinking) return "verbose_shrinking";
  if (a.reproduce.size() != b.reproduce.size()) return "reproduce count";
  for (auto &p : a.reproduce) {
    auto it = b.reproduce.find(p.first);
    if (it == b.reproduce.end()) return "reproduce name";
    if (!(it->second.random == p.second.random)) return "reproduce random";
    if (it->second.size != p.second.size) return "reproduce size";
    if (it->second.shrinkPath != p.second.shrinkPath) return "reproduce path";
  }
  return "";
}
std::string showMap(const Map &m) {
  std::string o = "{";
  for (auto &p : m)
    o += quote(p.first) + ": " + quote(p.second) + ", ";
  return o + "}";
}
const char kSpace[] = " \t\n\v\f\r";
std::string spaces(Src &s, size_t min) {
  std::string o(min, ' ');
  const size_t n = s.draw(2);
  for (size_t i = 0; i < n; i++)
    o += kSpace[s.draw(5)];
  if (s.draw(200) == 200)
    o += std::string(s.draw(3000), kSpace[s.draw(5)]);
  return o;
}
// A token written by hand: bare if possible, else quoted.
std::string writeToken(Src &s, const std::string &v, bool key) {
  bool bare = !v.empty() && v[0] != '\'' && v[0] != '"';
  for (char ch : v)
    if ((ch && strchr(kSpace, ch)) || (key && ch == '='))
      bare = false;
  if (bare && s.flag())
    return v;
  const char q = s.flag() ? '"' : '\'';
  std::string o(1, q);
  for (char ch : v) {
    if (ch == q || ch == '\\' || s.chance(1, 12))
      o += '\\'; // escaping an ordinary character yields that character
    o += ch;
  }
  return o + q;
}
} // namespace

FACET(config, 4) {
  const Configuration k = anyConfig(s);
  const Configuration back = configFromString(configToString(k));
  REQ_EQ(differs(k, back), "", "full form: ", configToString(k));
  REQ(back == k, "operator==");
  const std::string min = configToMinimalString(k);
  const Configuration back2 = configFromString(min);
  REQ_EQ(differs(k, back2), "", "minimal form: ", min);
  // The full form overrides every setting of other defaults.
  const Configuration other = anyConfig(s);
  REQ_EQ(differs(k, configFromString(configToString(k), other)), "", "full form over other defaults");
  REQ_EQ(differs(other, k).empty(), other == k, "equality of configurations");
  REQ_EQ(differs(other, k).empty(), !(other != k), "inequality of configurations");
  // One setting taken from the other.
  Configuration mixed = k;
  switch (s.draw(7)) {
  case 0: mixed.testParams.seed = other.testParams.seed; break;
  case 1: mixed.testParams.maxSuccess = other.testParams.maxSuccess; break;
  case 2: mixed.testParams.maxSize = other.testParams.maxSize; break;
  case 3: mixed.testParams.maxDiscardRatio = other.testParams.maxDiscardRatio; break;
  case 4: mixed.testParams.disableShrinking = other.testParams.disableShrinking; break;
  case 5: mixed.verboseProgress = other.verboseProgress; break;
  case 6: mixed.verboseShrinking = other.verboseShrinking; break;
  default:
    if (!k.reproduce.empty() && s.flag()) {
      auto &e = mixed.reproduce.begin()->second;
      switch (s.draw(2)) {
      case 0: e.size ^= 1; break;
      case 1: e.shrinkPath.push_back(0); break;
      default: e.random = anyReproduce(s).random;
      }
    } else
      mixed.reproduce = other.reproduce;
  }
  REQ_EQ(differs(mixed, k).empty(), mixed == k, "equality of configurations that differ in ", differs(mixed, k));
  REQ_EQ(differs(mixed, k).empty(), !(k != mixed), "inequality of configurations that differ in ", differs(mixed, k));
  std::ostringstream os;
  os << k;
  const auto shown = configFromString(os.str());
  REQ_EQ(differs(k, shown), "", "as written to a stream: ", os.str());
  c.nontrivial(!k.reproduce.empty());
  if (c.wantSample())
    c.sample(min.substr(0, 300));
}

FACET(keys, 4) {
  // Some keys, in any order, spacing and quoting; others keep their default.
  const Configuration def = anyConfig(s);
  Configuration want = def;
  const Configuration src = anyConfig(s);
  std::string t = spaces(s, 0);
  std::vector<int> order{0, 1, 2, 3, 4, 5, 6, 7};
  for (size_t i = 7; i > 0; i--)
    std::swap(order[i], order[s.draw(i)]);
  const size_t n = s.draw(8);
  for (size_t i = 0; i < n; i++) {
    std::string key, val;
    switch (order[i]) {
    case 0: key = "seed"; val = cat(src.testParams.seed); want.testParams.seed = src.testParams.seed; break;
    case 1: key = "max_success"; val = cat(src.testParams.maxSuccess); want.testParams.maxSuccess = src.testParams.maxSuccess; break;
    case 2: key = "max_size"; val = cat(src.testParams.maxSize); want.testParams.maxSize = src.testParams.maxSize; break;
    case 3: key = "max_discard_ratio"; val = cat(src.testParams.maxDiscardRatio); want.testParams.maxDiscardRatio = src.testParams.maxDiscardRatio; break;
    case 4: key = "noshrink"; val = cat(src.testParams.disableShrinking); want.testParams.disableShrinking = src.testParams.disableShrinking; break;
    case 5: key = "verbose_progress"; val = cat(src.verboseProgress); want.verboseProgress = src.verboseProgress; break;
    case 6: key = "verbose_shrinking"; val = cat(src.verboseShrinking); want.verboseShrinking = src.verboseShrinking; break;
    default: key = "reproduce"; val = reproduceMapToString(src.reproduce); want.reproduce = src.reproduce; break;
    }
    t += writeToken(s, key, true) + spaces(s, 0) + "=" + spaces(s, 0) + writeToken(s, val, false) + spaces(s, 1);
    if (s.chance(1, 8))
      t += "unknown_key=" + writeToken(s, s.stretched(s.ascii(5) + "x"), false) + " ";
  }
  const Configuration got = configFromString(t, def);
  REQ_EQ(differs(want, got), "", "loading ", quote(t));
  c.nontrivial(n > 1);
  if (c.wantSample())
    c.sample(quote(t).substr(0, 300));
}

FACET(map_roundtrip, 4) {
  Map m;
  for (auto &k : s.list(6, [&] { return s.stretched(s.flag() ? s.ascii(12) : s.bytes(8)); }))
    if (!k.empty())
      m[k] = s.stretched(s.flag() ? s.ascii(12) : s.bytes(8));
  if (s.draw(60) == 60) {
    const std::string more = s.ascii(5);
    for (uint64_t k = s.draw(2000); k > 0; k--)
      m[cat(k, more)] = cat(more, k * 7);
  }
  const bool dq = s.flag();
  const std::string t = mapToString(m, dq);
  const Map back = parseMap(t);
  REQ(back == m, showMap(m), " written as ", quote(t), " read as ", showMap(back));
  c.nontrivial(m.size() > 1);
  if (c.wantSample())
    c.sample(quote(t));
}

FACET(map_handwritten, 4) {
  Map m;
  std::string t = spaces(s, 0);
  const size_t n = s.draw(5);
  for (size_t i = 0; i < n; i++) {
    std::string k = s.stretched(s.flag() ? s.ascii(8) : s.bytes(5));
    if (k.empty())
      k = "k";
    t += writeToken(s, k, true);
    if (s.chance(1, 4)) {
      m[k] = "";
    } else {
      const std::string v = s.stretched(s.flag() ? s.ascii(8) : s.bytes(5));
      t += spaces(s, 0) + "=" + spaces(s, 0) + writeToken(s, v, false);
      m[k] = v;
    }
    t += spaces(s, 1);
  }
  const Map back = parseMap(t);
  REQ(back == m, quote(t), " read as ", showMap(back), " instead of ", showMap(m));
  c.nontrivial(n > 1);
  if (c.wantSample())
    c.sample(quote(t));
}
