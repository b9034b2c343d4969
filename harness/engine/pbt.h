// A small property-based testing engine, independent of the code under test.
//
// Every random decision of a case is one word of a "tape" (a choice sequence).
// A failing case is shrunk on its tape; the tape is the replay file. The same
// facet functions can be driven by a PRNG (search), a stored tape (replay,
// shrinking) or raw bytes (libFuzzer, coverage guided).
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pbt {

struct Abort : std::exception {
  const char *what() const noexcept override { return "pbt::Abort"; }
};

// Source of choices for one case.
class Src {
public:
  enum Mode { RNG, TAPE, BYTES };
  void startRng(uint64_t seed);
  void startTape(std::vector<uint64_t> tape);
  void startBytes(const uint8_t *data, size_t size);

  // Uniform (in RNG mode) in [0, max].
  uint64_t draw(uint64_t max);

  uint64_t below(uint64_t n) { return n == 0 ? 0 : draw(n - 1); }
  bool flag() { return draw(1) != 0; }
  // True with probability num/den in RNG mode; 0 on the tape means false.
  bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
  int64_t range(int64_t lo, int64_t hi) { // inclusive
    return static_cast<int64_t>(
        static_cast<uint64_t>(lo) +
        draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
  }
  // 64-bit words with a bias towards small values, powers of two and extremes.
  uint64_t word();
  uint64_t anyBits() { return draw(~uint64_t(0)); }
  // Size-skewed length in [0, max].
  size_t length(size_t max);
  template <typename T> const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
  template <typename T> T oneOf(std::initializer_list<T> l) {
    return *(l.begin() + below(l.size()));
  }
  // Each element decided by a continue flag, which shrinks well.
  template <typename F> auto list(size_t max, F f) -> std::vector<decltype(f())> {
    std::vector<decltype(f())> out;
    size_t target = 0;
    (void)target;
    unsigned den = 2 + static_cast<unsigned>(draw(10));
    while (out.size() < max && draw(den - 1) != 0)
      out.push_back(f());
    return out;
  }
  std::string bytes(size_t maxLen);      // arbitrary bytes
  std::string ascii(size_t maxLen);      // printable, with quotes/backslashes/spaces
  // Now and then the text with a long run of characters put in somewhere.
  std::string stretched(std::string text);
  const std::vector<uint64_t> &recorded() const { return m_rec; }
  uint64_t tapeHash() const;

private:
  uint64_t rng();
  Mode m_mode = RNG;
  uint64_t m_state[4];
  std::vector<uint64_t> m_tape;
  size_t m_pos = 0;
  const uint8_t *m_data = nullptr;
  size_t m_size = 0;
  std::vector<uint64_t> m_rec;
};

// Per-case context: verdict, labels, evidence.
class Ctx {
public:
  // Records the failure (kept even if the thrown object is swallowed by the
  // code under test) and unwinds.
  [[noreturn]] void fail(const std::string &msg);
  // Records the failure without unwinding (for use inside callbacks).
  void note(const std::string &msg);
  void nontrivial() { m_nontrivial = true; }
  void nontrivial(bool c) { if (c) m_nontrivial = true; }
  void label(const std::string &l) { m_labels.insert(l); }
  bool wantSample() const { return m_wantSample; }
  void sample(const std::string &s) { if (m_wantSample) m_sample = s; }
  // A known finding was hit (see known_findings.txt).
  void known(const std::string &id, const std::string &text);
  // Accumulates an observation that must be the same in every process.
  void digest(uint64_t v);
  void digest(const std::string &v);
  void count(uint64_t n) { m_extra += n; } // further oracle evaluations
  bool thorough() const;
  bool failed() const { return m_failed; }
  const std::string &message() const { return m_msg; }
  // Internal
  bool m_failed = false, m_nontrivial = false, m_wantSample = false;
  std::string m_msg, m_sample;
  std::set<std::string> m_labels;
  uint64_t m_extra = 0;
};

using FacetFn = void (*)(Src &, Ctx &);
struct Facet {
  const char *name;
  FacetFn fn;
  unsigned weight;
};
struct Register {
  Register(const char *name, FacetFn fn, unsigned weight);
};

// A harness that starts programs re-executes itself with --helper ARG...
using HelperFn = int (*)(int argc, char **argv);
struct RegisterHelper {
  explicit RegisterHelper(HelperFn fn);
};

template <typename A> std::string str(const A &a) {
  std::ostringstream os;
  os << a;
  return os.str();
}
inline std::string cat() { return std::string(); }
template <typename A, typename... R> std::string cat(const A &a, const R &... r) {
  return str(a) + cat(r...);
}
uint64_t hash64(uint64_t h, uint64_t v);
uint64_t hashStr(const std::string &s);
std::string quote(const std::string &s);
template <typename C> std::string listStr(const C &c, size_t maxElems = 40) {
  std::ostringstream os;
  os << "[";
  size_t n = 0;
  for (const auto &x : c) {
    if (n)
      os << ", ";
    if (n++ >= maxElems) {
      os << "...";
      break;
    }
    os << +x;
  }
  os << "]";
  return os.str();
}

#define FACET(name, weight)                                                    \
  static void facet_##name(::pbt::Src &s, ::pbt::Ctx &c);                      \
  static ::pbt::Register reg_##name(#name, &facet_##name, weight);             \
  static void facet_##name(::pbt::Src &s, ::pbt::Ctx &c)

#define REQ(cond, ...)                                                         \
  do {                                                                         \
    if (!(cond))                                                               \
      c.fail(::pbt::cat(#cond, " is false: ", __VA_ARGS__));                   \
  } while (0)
#define REQ_EQ(a, b, ...)                                                      \
  do {                                                                         \
    auto &&pbt_a = (a);                                                        \
    auto &&pbt_b = (b);                                                        \
    if (!(pbt_a == pbt_b))                                                     \
      c.fail(::pbt::cat(#a " == " #b " is false: ", pbt_a, " != ", pbt_b,      \
                        "; ", __VA_ARGS__));                                   \
  } while (0)

} // namespace pbt
