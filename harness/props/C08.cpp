// C08: hostile configuration and reproduction text is handled or rejected.
#include "rcx.h"
#include <rapidcheck/detail/Configuration.h>
#include "detail/Base64.h"
#include "detail/MapParser.h"
#include "detail/ParseException.h"
#include "detail/StringSerialization.h"
using namespace pbt;
using namespace rc;
using namespace rc::detail;
using Bytes = std::vector<std::uint8_t>;

namespace {
// true: loaded, false: rejected with a configuration error. Anything else
// escapes and is a violation.
bool load(Ctx &c, const std::string &str, Configuration *out = nullptr) {
  try {
    Configuration cfg = configFromString(str);
    if (out)
      *out = cfg;
    return true;
  } catch (const ConfigurationException &e) {
    REQ(e.what() != nullptr && *e.what() != 0, "error without a message");
    return false;
  } catch (const std::exception &e) {
    c.fail(cat("loading ", quote(str), " let another error escape: ", e.what()));
  }
}
// Same for the reproduction text alone.
bool loadRep(Ctx &c, const std::string &text,
             std::unordered_map<std::string, Reproduce> *out = nullptr) {
  Configuration cfg;
  const bool ok = load(c, "reproduce=" + text, &cfg);
  if (ok && out)
    *out = cfg.reproduce;
  try {
    stringToReproduceMap(text);
    REQ(ok, "text accepted alone but rejected in a configuration: ", quote(text));
  } catch (const ParseException &) {
    REQ(!ok, "text rejected alone but accepted in a configuration: ", quote(text));
  }
  return ok;
}

Reproduce anyReproduce(Src &s) {
  Reproduce r;
  r.random = Random(s.word());
  const int n = static_cast<int>(s.draw(70));
  for (int i = 0; i < n; i++) {
    Random right = r.random.split();
    if (s.flag())
      r.random = right;
  }
  r.size = static_cast<int>(s.draw(200));
  r.shrinkPath = s.list(20, [&] { return static_cast<std::size_t>(s.draw(2) ? s.draw(20) : s.word()); });
  return r;
}
std::unordered_map<std::string, Reproduce> anyMap(Src &s) {
  std::unordered_map<std::string, Reproduce> m;
  const size_t n = 1 + s.draw(2);
  for (size_t i = 0; i < n; i++)
    m[s.stretched(s.bytes(12))] = anyReproduce(s);
  if (s.draw(15) == 15) {
    const Reproduce r = anyReproduce(s);
    for (uint64_t i = s.draw(300); i > 0; i--)
      m[cat("property ", i)] = r;
  }
  return m;
}
const char kAlpha[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+_";
} // namespace

FACET(arbitrary_text, 3) {
  std::string t;
  static const std::vector<std::string> words{
      "seed", "max_success", "max_size", "max_discard_ratio", "noshrink", "verbose_progress",
      "verbose_shrinking", "reproduce", "=", "=", " ", "'", "\"", "\\", "0", "1", "-1", "10",
      "99999999999999999999", "x", "\t", "AA", "AQ", "\n"};
  const size_t n = s.length(30);
  for (size_t i = 0; i < n; i++)
    t += s.draw(7) ? s.pick(words) : s.stretched(s.bytes(3));
  const bool ok = load(c, t);
  try {
    parseMap(t);
  } catch (const ParseException &e) {
    REQ(!ok, "key/value error ignored by the configuration loader");
  }
  c.nontrivial(t.size() > 3);
  c.label(ok ? "accepted" : "rejected");
  if (c.wantSample())
    c.sample(cat(quote(t), ok ? " accepted" : " rejected"));
}

// Each setting with a value whose verdict is known.
FACET(single_values, 3) {
  struct V {
    const char *text;
    bool valid;
  };
  static const std::vector<V> counts{{"0", true}, {"1", true}, {"100", true}, {"2147483647", true},
                                     {"-1", false}, {"-2147483648", false}, {"2147483648", false},
                                     {"99999999999999999999999", false}, {"abc", false}, {"", false},
                                     {"x10", false}, {"-", false}, {"'-7'", false}, {"=5", false}};
  static const std::vector<V> bools{{"0", true}, {"1", true}, {"2", false}, {"-1", false},
                                    {"yes", false}, {"", false}, {"true", false}, {"11", false}};
  static const std::vector<V> seeds{{"0", true}, {"18446744073709551615", true}, {"18446744073709551616", false},
                                    {"abc", false}, {"", false}, {"99999999999999999999999", false}};
  static const std::vector<std::string> countKeys{"max_success", "max_size", "max_discard_ratio"};
  static const std::vector<std::string> boolKeys{"noshrink", "verbose_progress", "verbose_shrinking"};
  // Several settings in one string: it loads iff all are valid.
  bool valid = true;
  std::string t;
  std::set<std::string> used;
  const size_t n = 1 + s.draw(3);
  for (size_t i = 0; i < n; i++) {
    std::string key;
    const V *v;
    switch (s.draw(2)) {
    case 0: key = s.pick(countKeys); v = &s.pick(counts); break;
    case 1: key = s.pick(boolKeys); v = &s.pick(bools); break;
    default: key = "seed"; v = &s.pick(seeds); break;
    }
    if (!used.insert(key).second)
      continue;
    valid = valid && v->valid;
    t += (t.empty() ? "" : " ") + key + "=" + (*v->text ? v->text : "''");
  }
  REQ_EQ(load(c, t), valid, "loading ", quote(t));
  c.nontrivial(used.size() > 1 || !valid);
  c.label(valid ? "valid" : "invalid");
  if (c.wantSample())
    c.sample(cat(quote(t), valid ? " valid" : " invalid"));
}

// Every proper prefix of a valid reproduction text is rejected.
FACET(truncation, 3) {
  const std::string t = reproduceMapToString(anyMap(s));
  REQ(loadRep(c, t), "valid text rejected: ", t);
  const bool all = t.size() < 2000 && s.chance(1, 10);
  if (all) {
    for (size_t k = 0; k < t.size(); k++)
      REQ(!loadRep(c, t.substr(0, k)), "accepted the first ", k, " of ", t.size(), " characters of ", t);
    c.count(t.size());
  } else {
    const size_t k = s.flag() ? t.size() - 1 - s.draw(std::min<size_t>(t.size() - 1, 8)) : s.draw(t.size() - 1);
    REQ(!loadRep(c, t.substr(0, k)), "accepted the first ", k, " of ", t.size(), " characters of ", t);
  }
  c.nontrivial();
  if (c.wantSample())
    c.sample(cat(t.size(), " characters: ", t.substr(0, 60)));
}

// Byte-level truncation of the decoded record, re-encoded, exactly sized so
// that any read past the end is caught.
FACET(truncated_bytes, 2) {
  const Bytes b = base64Decode(reproduceMapToString(anyMap(s)));
  const size_t k = s.flag() ? b.size() - 1 - s.draw(std::min<size_t>(b.size() - 1, 4)) : s.draw(b.size() - 1);
  std::unique_ptr<uint8_t[]> buf(new uint8_t[k]);
  std::copy(b.begin(), b.begin() + k, buf.get());
  bool threw = false;
  try {
    std::unordered_map<std::string, Reproduce> out;
    rc::detail::deserialize(static_cast<const uint8_t *>(buf.get()), static_cast<const uint8_t *>(buf.get() + k), out);
  } catch (const SerializationException &) {
    threw = true;
  }
  REQ(threw, "decoded a record cut to ", k, " of ", b.size(), " bytes");
  c.nontrivial(k > 0);
  if (c.wantSample())
    c.sample(cat(k, "/", b.size(), " bytes"));
}

// Mutated bytes: loads or is rejected; length fields become arbitrary.
FACET(mutated_bytes, 4) {
  Bytes b = base64Decode(reproduceMapToString(anyMap(s)));
  const size_t n = 1 + s.draw(3);
  for (size_t i = 0; i < n; i++) {
    const size_t p = s.draw(2) ? s.draw(std::min<size_t>(b.size() - 1, 3)) : s.draw(b.size() - 1);
    switch (s.draw(3)) {
    case 0: b[p] = static_cast<uint8_t>(s.draw(255)); break;
    case 1: b[p] ^= static_cast<uint8_t>(1u << s.draw(7)); break;
    case 2: {
      const Bytes ff(1 + s.draw(11), 0xFF);
      b.insert(b.begin() + p, ff.begin(), ff.end());
      break;
    }
    default: b.erase(b.begin() + p);
    }
    if (b.empty())
      b.push_back(0);
  }
  const std::string t = base64Encode(b);
  std::unordered_map<std::string, Reproduce> m;
  const bool ok = loadRep(c, t, &m);
  if (ok) // what was accepted must itself be writable and readable again
    REQ(stringToReproduceMap(reproduceMapToString(m)) == m, "accepted record does not round-trip: ", t);
  c.nontrivial();
  c.label(ok ? "accepted" : "rejected");
  if (c.wantSample())
    c.sample(cat(t.substr(0, 80), ok ? " accepted" : " rejected"));
}

FACET(mutated_text, 2) {
  std::string t = reproduceMapToString(anyMap(s));
  const size_t p = s.draw(t.size() - 1);
  const char ch = static_cast<char>(s.draw(255));
  t[p] = ch;
  const bool inAlpha = ch != 0 && strchr(kAlpha, ch);
  if (inAlpha) {
    loadRep(c, t);
    c.label("inside alphabet");
  } else {
    bool threw = false;
    try {
      stringToReproduceMap(t);
    } catch (const ParseException &) {
      threw = true;
    }
    REQ(threw, "accepted character ", int(static_cast<unsigned char>(ch)), " at ", p, " of ", quote(t));
    load(c, "reproduce=" + t);
    c.label("outside alphabet");
    if (s.draw(7) == 7) // every character there is
      for (int x = 0; x < 256; x++) {
        if (x != 0 && strchr(kAlpha, x))
          continue;
        t[p] = static_cast<char>(x);
        bool refused = false;
        try {
          stringToReproduceMap(t);
        } catch (const ParseException &) {
          refused = true;
        }
        REQ(refused, "accepted character ", x, " at ", p, " of ", quote(t));
      }
  }
  c.nontrivial();
  if (c.wantSample())
    c.sample(cat("position ", p, " becomes ", int(static_cast<unsigned char>(ch))));
}

FACET(random_text, 1) {
  std::string t;
  const size_t n = s.length(60);
  for (size_t i = 0; i < n; i++)
    t += s.draw(15) ? kAlpha[s.draw(63)] : static_cast<char>(s.draw(255));
  try {
    stringToReproduceMap(t);
    c.label("accepted");
  } catch (const ParseException &) {
  }
  load(c, t);
  c.nontrivial(n > 2);
  if (c.wantSample())
    c.sample(quote(t));
}
