// C31: displayed values faithfully show structure and contents (strings, leaf
// types, assertion expansions). See C31.h for the reference.
#include "C31.h"
#include <rapidcheck/state.h>
using namespace pbt;
using namespace c31;

template <> struct c31::R<std::wstring> : c31::WideR<wchar_t> {
  static std::string text(const std::wstring &v) { return bracketed("\"", v, "\""); }
  static std::string name() { return "std::wstring"; }
};
template <> struct c31::R<wchar_t> {
  static std::string text(wchar_t v) { return std::to_string(static_cast<long>(v)); }
};

FACET(leaves, 2) {
  using F = void (*)(Src &, Ctx &, bool);
  static const F f[] = {checkShow<int>, checkShow<short>, checkShow<long>, checkShow<unsigned>,
                        checkShow<unsigned long>, checkShow<unsigned short>,
                        checkShow<long long>, checkShow<char>, checkShow<unsigned char>,
                        checkShow<bool>, checkShow<double>, checkShow<std::string>,
                        checkShow<Both>, checkShow<Streamed>, checkShow<Mute>,
                        checkShow<Grouped>, checkShow<Solo>, checkShow<Color>,
                        checkShow<Shape>, checkShow<Wrap<int>, false>, checkShow<std::tuple<>>};
  f[s.below(sizeof f / sizeof f[0])](s, c, false);
}

// The display of a string stands for exactly that string.
FACET(strings, 4) {
  const std::string a = s.stretched(s.flag() ? anyText(s) : s.bytes(300));
  const std::string shown = rc::toString(a);
  std::string back;
  REQ(unescape(shown, back), "display of ", quote(a), " is not a string: ", shown);
  REQ(back == a, "display ", shown, " of ", quote(a), " stands for ", quote(back));
  REQ_EQ(shown, escaped(a), "");
  // A neighbour: one byte changed, added, moved or replaced by escape-like text.
  std::string b = a;
  const size_t at = s.below(a.size() + 1);
  switch (s.draw(3)) {
  case 0: b.insert(at, 1, static_cast<char>(s.draw(255))); break;
  case 1:
    if (at < a.size())
      b[at] = static_cast<char>(s.draw(255));
    break;
  case 2:
    if (at < a.size())
      b.replace(at, 1, escaped(a.substr(at, 1)).substr(1, escaped(a.substr(at, 1)).size() - 2));
    break;
  default: b.insert(at, s.oneOf({"\\", "0", "\\n", "\"", "\\x0", "x41"}));
  }
  const std::string shownB = rc::toString(b);
  REQ((shown == shownB) == (a == b), quote(a), " and ", quote(b), " are both shown as ", shown);
  if (a.find('\0') == std::string::npos) {
    REQ_EQ(rc::toString(a.c_str()), shown, "C string");
    std::vector<const char *> v(2, a.c_str());
    REQ_EQ(rc::toString(v), "[" + shown + ", " + shown + "]", "vector of C strings");
  }
  c.count(3);
  c.nontrivial(shown.find('\\') != std::string::npos);
  c.sample(shown);
}

FACET(wide, 1) {
  const std::wstring w = R<std::wstring>::make(s);
  const std::string want = R<std::wstring>::text(w);
  REQ_EQ(rc::toString(w), want, "");
  REQ_EQ(rc::toString(std::vector<std::wstring>(2, w)), "[" + want + ", " + want + "]", "");
  REQ_EQ(rc::detail::typeToString<std::wstring>(), "std::wstring", "");
  REQ_EQ(rc::detail::typeToString<std::vector<std::u16string>>(), "std::vector<std::u16string>", "");
  REQ_EQ(rc::detail::typeToString<std::u32string *>(), "std::u32string *", "");
  REQ_EQ(rc::detail::typeToString<std::u32string ***>(), "std::u32string ***", "");
  using Cmd = rc::state::Command<std::vector<int>, std::string>;
  REQ_EQ(rc::detail::typeToString<Cmd>(), "Command<std::vector<int>, std::string>", "");
  REQ_EQ(rc::detail::typeToString<std::vector<std::shared_ptr<const Cmd>>>(),
         "std::vector<std::shared_ptr<const Command<std::vector<int>, std::string>>>", "");
  c.nontrivial(w.size() > 1);
  c.sample(want);
}

// Sequences, sets of elements and streams of values through operator<<.
FACET(seqs, 1) {
  const auto v = R<std::vector<std::string>>::make(s);
  const auto q = rc::seq::fromContainer(v);
  REQ_EQ(rc::toString(q), R<std::vector<std::string>>::text(v), "sequence");
  REQ_EQ(rc::toString(q), R<std::vector<std::string>>::text(v), "sequence shown twice");
  auto copy = q;
  std::vector<std::string> rest;
  while (auto x = copy.next())
    rest.push_back(*x);
  REQ(rest == v, "showing a sequence altered it");
  if (!s.draw(5)) {
    // Sequences may be infinite: a long one is cut off, with a mark.
    const size_t n = s.flag() ? s.draw(1000) : 900 + s.draw(300);
    const bool endless = !s.draw(2);
    const std::string text = endless ? rc::toString(rc::seq::index()) : rc::toString(rc::seq::range<size_t>(0, n));
    size_t k = 0;
    std::string want = "[";
    for (; endless || k < n; k++) {
      const std::string next = (k ? ", " : "") + std::to_string(k);
      if (text.compare(want.size(), next.size(), next) != 0)
        break;
      want += next;
    }
    REQ(k >= 500 || (!endless && k == n), "shown: ", text.substr(0, 200));
    REQ(endless ? k < 1000000 : k <= n, "shown: ", text.substr(0, 200));
    REQ_EQ(text, want + (!endless && k == n ? "]" : ", ...]"), "");
    c.label("cut off");
  }
  std::ostringstream os;
  const std::string pre = anyText(s), post = anyText(s);
  rc::showCollection(pre, post, v, os);
  REQ(os.str() == pre + bracketed("", v, "") + post, os.str());
  c.nontrivial(v.size() > 1);
  c.sample(os.str());
}

namespace {
template <typename T> std::string failureOf(const T &a, const T &b) {
  const auto prop = rc::detail::toProperty([&] { RC_ASSERT(a == b); });
  const auto desc = prop(rc::Random(), 0).value();
  return desc.result.type == rc::detail::CaseResult::Type::Failure ? desc.result.description : "";
}
template <typename T> void expansion(Src &s, Ctx &c) {
  const T a = R<T>::make(s), b = R<T>::make(s);
  const std::string got = failureOf(a, b);
  if (a == b) {
    REQ(got.empty(), got);
    return;
  }
  const std::string want = "Expands to:\n" + R<T>::text(a) + " == " + R<T>::text(b);
  REQ(got.size() >= want.size() && got.substr(got.size() - want.size()) == want, got,
      " does not end with ", want);
  c.nontrivial();
  c.sample(want);
}
template <typename T> void example(Src &s, Ctx &c) {
  const T a = R<T>::make(s), b = R<T>::make(s);
  const auto prop = rc::detail::toProperty([&] {
    *rc::gen::just(a);
    *rc::gen::just(std::make_pair(a, b)).as("named");
    RC_FAIL("x");
  });
  const auto desc = prop(rc::Random(), 0).value();
  REQ(desc.result.type == rc::detail::CaseResult::Type::Failure, desc.result.description);
  const auto ex = desc.example();
  REQ_EQ(ex.size(), 2u, "");
  REQ_EQ(ex[0].first, R<T>::name(), "");
  REQ_EQ(ex[0].second, R<T>::text(a), "");
  REQ_EQ(ex[1].first, "named", "");
  REQ_EQ(ex[1].second, "(" + R<T>::text(a) + ", " + R<T>::text(b) + ")", "");
  c.nontrivial();
  c.sample(cat(ex[1].first, " ", ex[1].second));
}
} // namespace

// Values in failed assertions and counterexamples are shown the same way.
FACET(expansions, 1) {
  using F = void (*)(Src &, Ctx &);
  static const F f[] = {expansion<std::string>, expansion<std::vector<std::string>>,
                        expansion<Mute>, expansion<std::map<int, Both>>,
                        expansion<std::shared_ptr<int>>, expansion<std::vector<Grouped>>,
                        expansion<rc::Maybe<std::vector<bool>>>, example<std::string>,
                        example<std::vector<Both>>, example<std::shared_ptr<Streamed>>,
                        example<std::tuple<int, Mute, char>>};
  const size_t k = s.below(sizeof f / sizeof f[0] + 1);
  if (k < sizeof f / sizeof f[0])
    return f[k](s, c);
  const std::unique_ptr<int> null;
  int *const raw = nullptr;
  const auto prop = rc::detail::toProperty([&] { RC_ASSERT(null != nullptr); });
  const auto prop2 = rc::detail::toProperty([&] { RC_ASSERT(raw); });
  const auto d1 = prop(rc::Random(), 0).value().result.description;
  const auto d2 = prop2(rc::Random(), 0).value().result.description;
  REQ(d1.find("Expands to:\nnullptr != nullptr") != std::string::npos, d1);
  REQ(d2.find("Expands to:\nnullptr") != std::string::npos, d2);
  REQ_EQ(rc::toString(nullptr), "nullptr", "");
  REQ_EQ(rc::toString(static_cast<const char *>(nullptr)), "nullptr", "");
}

// Large values, whole.
FACET(large, 1) {
  const size_t n = s.draw(3) ? s.draw(1500) : s.draw(12000);
  const uint64_t salt = s.anyBits();
  const uint64_t mod = s.flag() ? 10 : ~uint64_t(0);
  std::vector<int> v;
  for (size_t i = 0; i < n; i++)
    v.push_back(static_cast<int>(hash64(salt, i) % mod));
  const auto expect = [&](const char *open, const char *close, const auto &xs) {
    std::string t = open;
    bool first = true;
    for (auto &x : xs) {
      t += first ? "" : ", ";
      first = false;
      t += std::to_string(x);
    }
    return t + close;
  };
  switch (s.draw(6)) {
  case 0: REQ(rc::toString(v) == expect("[", "]", v), n, " integers in a vector"); break;
  case 1: {
    const std::deque<int> d(v.begin(), v.end());
    REQ(rc::toString(d) == expect("[", "]", d), n, " integers in a deque");
    break;
  }
  case 2: {
    const std::set<int> d(v.begin(), v.end());
    REQ(rc::toString(d) == expect("{", "}", d), d.size(), " integers in a set");
    break;
  }
  case 3: {
    std::map<int, int> m;
    for (int x : v)
      m[x] += 1;
    std::string t = "{";
    for (auto &p : m)
      t += (t.size() > 1 ? ", (" : "(") + std::to_string(p.first) + ", " + std::to_string(p.second) + ")";
    REQ(rc::toString(m) == t + "}", m.size(), " entries in a map");
    break;
  }
  case 4: { // nested one in another, deep
    std::vector<std::vector<std::vector<int>>> nest;
    std::string t;
    for (size_t i = 0; i < n; i += 1 + i % 90) {
      nest.push_back({{}, {v[i], v[i]}, std::vector<int>(i % 5, v[i])});
      const auto &back = nest.back();
      t += (t.empty() ? "" : ", ") + ("[[], " + expect("[", "]", back[1]) + ", " + expect("[", "]", back[2]) + "]");
    }
    REQ(rc::toString(nest) == "[" + t + "]", nest.size(), " nested vectors");
    break;
  }
  case 5: {
    std::array<int, 300> a;
    for (size_t i = 0; i < a.size(); i++)
      a[i] = static_cast<int>(hash64(salt, i) % 1000);
    REQ(rc::toString(a) == expect("[", "]", a), "an array of 300");
    break;
  }
  default: {
    std::string text;
    for (size_t i = 0; i < n; i++)
      text += static_cast<char>(mod == 10 ? 32 + hash64(salt, i) % 90 : hash64(salt, i));
    REQ(rc::toString(text) == escaped(text), "a string of ", n);
    REQ(rc::toString(std::vector<std::string>(2, text)) == "[" + escaped(text) + ", " + escaped(text) + "]", "strings of ", n);
  }
  }
  c.nontrivial(n > 1000);
  if (c.wantSample())
    c.sample(cat(n, " elements"));
}
