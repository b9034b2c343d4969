#include "C20.h"
FACET(string, 5) {
  using namespace C20;
  switch (s.draw(3)) {
  case 0: stringCase<std::string>(s, c); break;
  case 1: stringCase<std::wstring>(s, c); break;
  case 2: stringCase<std::u16string>(s, c); break;
  default: stringCase<std::u32string>(s, c);
  }
}
FACET(greedy, 4) {
  using namespace C20;
  if (s.flag()) greedyCase<std::string>(s, c); else greedyCase<std::wstring>(s, c);
}
// Wherever one looks in a long string there are plain and other characters, many
// different ones, and no repetition of what came before.
FACET(everywhere, 1) {
  using namespace C20;
  Random r = anyRandom(s);
  const int size = s.flag() ? 40 + int(s.draw(300)) : s.flag() ? 300 + int(s.draw(5000)) : int(s.oneOf({65, 66, 128, 130, 256, 260, 1024, 1030, 4100}));
  const auto run = [&](auto tag) {
    using T = decltype(tag);
    const size_t from = s.draw(size_t(size) * 3 / 4);
    const size_t width = 1 + s.draw(200);
    int n = 0, plain = 0, same = 0, twice = 0;
    std::set<uint64_t> seen;
    // On average a fifth of the strings reaches the place; give up on time.
    for (int i = 0; i < 4000 && n < 1500; i++) {
      const auto v = gen::string<std::basic_string<T>>()(r.split(), size).value();
      for (size_t k = from; k < v.size() && k < from + width; k++) {
        const uint64_t ch = uint64_t(typename std::make_unsigned<T>::type(v[k]));
        n++;
        plain += ch < 128;
        seen.insert(ch);
        same += k > 0 && v[k] == v[k - 1];
        twice += from > 0 && v[k] == v[k - from];
      }
    }
    if (n < 1500)
      return;
    const std::string at = cat("characters ", from, " to ", from + width, " of strings at size ", size);
    REQ(plain < n * 0.95, plain, " of ", n, " are 7-bit: ", at);
    REQ(plain > n * 0.3, "only ", plain, " of ", n, " are 7-bit: ", at);
    REQ(seen.size() > 90, "only ", seen.size(), " different ones of ", n, ": ", at);
    REQ(same < n * 0.2, same, " of ", n, " repeat the one before: ", at);
    REQ(twice < n * 0.2, twice, " of ", n, " repeat the one ", from, " before: ", at);
    c.nontrivial();
    if (c.wantSample())
      c.sample(cat(at, ": ", n, " with ", seen.size(), " different"));
  };
  switch (s.draw(3)) {
  case 0: run(char()); break;
  case 1: run(wchar_t()); break;
  case 2: run(char16_t()); break;
  default: run(char32_t());
  }
}
