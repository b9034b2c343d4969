// C20: generated characters and strings are valid, sized and shrink to simpler text.
#include "C20.h"
FACET(character, 4) {
  using namespace C20;
  switch (s.draw(4)) {
  case 0: characterCase<char>(s, c); break;
  case 1: characterCase<wchar_t>(s, c); break;
  case 2: characterCase<char16_t>(s, c); break;
  case 3: characterCase<char32_t>(s, c); break;
  default: characterCase<unsigned char>(s, c);
  }
}
// Every character value has the promised shrinks, whatever generated it.
FACET(shrink_character, 2) {
  using namespace C20;
  const auto run = [&](auto tag) {
    using T = decltype(tag);
    const T v = s.flag() ? T(s.draw(127)) : T(s.word());
    const auto want = simpler<T>(v);
    auto seq = shrink::character<T>(v);
    for (size_t i = 0; i < want.size(); i++) {
      const auto k = seq.next();
      REQ(k, "shrinks of ", uint64_t(v), " end after ", i);
      REQ(*k == want[i], "shrink ", i, " of ", uint64_t(v), " is ", uint64_t(*k));
    }
    REQ(!seq.next(), "too many shrinks of ", uint64_t(v));
    c.nontrivial(want.size() > 3);
  };
  switch (s.draw(3)) {
  case 0: run(char()); break;
  case 1: run(wchar_t()); break;
  case 2: run(char16_t()); break;
  default: run(char32_t());
  }
}
FACET(lengths, 1) {
  using namespace C20;
  Random r = anyRandom(s);
  const int size = int(s.draw(12));
  std::set<size_t> seen;
  for (int i = 0; i < 800; i++)
    seen.insert(gen::string<std::string>()(r.split(), size).value().size());
  for (size_t i = 0; i <= size_t(size); i++)
    REQ(seen.count(i), "length ", i, " never occurs at size ", size);
  REQ_EQ(seen.size(), size_t(size) + 1, "lengths above the size");
  c.nontrivial(size > 1);
}
// At any size, short and long strings occur.
FACET(spread, 1) {
  using namespace C20;
  Random r = anyRandom(s);
  const int size = s.flag() ? int(s.oneOf({100, 200, 64, 128, 99})) : 13 + int(s.draw(240));
  const bool wide = s.flag();
  size_t low = SIZE_MAX, high = 0;
  for (int i = 0; i < 400; i++) {
    const size_t n = wide ? gen::string<std::u32string>()(r.split(), size).value().size()
                          : gen::string<std::string>()(r.split(), size).value().size();
    low = std::min(low, n);
    high = std::max(high, n);
  }
  REQ(low * 10 <= size_t(size) && high * 10 >= size_t(size) * 9 && high <= size_t(size),
      "lengths of 400 strings at size ", size, " are ", low, " to ", high);
  c.nontrivial();
}
FACET(cover, 1) {
  using namespace C20;
  if (s.draw(7))
    return;
  if (s.flag()) coverCase<char>(s, c); else coverCase<wchar_t>(s, c);
}
// Common characters are drawn more often than their share of the type.
FACET(common, 1) {
  using namespace C20;
  Random r = anyRandom(s);
  const auto run = [&](auto tag) {
    using T = decltype(tag);
    int common = 0, letters = 0, n = 0;
    if (s.flag()) {
      while (n < 3000)
        for (T ch : gen::string<std::basic_string<T>>()(r.split(), 100).value()) {
          n++;
          common += uint64_t(ch) < 128;
          letters += uint64_t(ch) >= 64 && uint64_t(ch) < 128;
        }
    } else
      for (; n < 3000; n++) {
        const T ch = gen::character<T>()(r.split(), 50).value();
        common += uint64_t(ch) < 128;
        letters += uint64_t(ch) >= 64 && uint64_t(ch) < 128;
      }
    REQ(common > n * 0.4, "only ", common, " of ", n, " characters are 7-bit");
    REQ(letters > n * 0.15, "only ", letters, " of ", n, " characters are in the range of the letters");
    c.nontrivial();
  };
  switch (s.draw(3)) {
  case 0: run(char()); break;
  case 1: run(wchar_t()); break;
  case 2: run(char16_t()); break;
  default: run(char32_t());
  }
}
