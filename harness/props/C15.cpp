// C15: unique containers never hold duplicates, even while shrinking.
#include "C15.h"

FACET(uniqueBy, 4) {
  switch (s.draw(3)) {
  case 0: uniq<std::vector<int>>(s, c, "vector", -1, &byKey<std::vector<int>>); break;
  case 1: uniq<std::list<int>>(s, c, "list", -1, &byKey<std::list<int>>); break;
  case 2: uniq<std::deque<int>>(s, c, "deque", -1, &byKey<std::deque<int>>); break;
  default: uniq<std::array<int, 4>>(s, c, "array", 4, [](const Elem &e, const KeyFn &k, bool, size_t n) {
      return (e.d % 2 == 0) ? gen::uniqueBy<std::array<int, 4>>(e.gen(), k) : gen::uniqueBy<std::array<int, 4>>(n, e.gen(), k);
    });
  }
}
