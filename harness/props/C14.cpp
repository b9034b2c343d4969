#include "C14.h"

FACET(sequences, 4) {
  switch (s.draw(6)) {
  case 0: sequence<std::vector<int>>(s, c, Kind{"vector", true, false, 0}, ints); break;
  case 1: sequence<std::list<int>>(s, c, Kind{"list", true, false, 0}, ints); break;
  case 2: sequence<std::deque<int>>(s, c, Kind{"deque", true, false, 0}, ints); break;
  case 3: sequence<std::forward_list<int>>(s, c, Kind{"forward_list", true, false, 0}, ints); break;
  case 4: sequence<std::multiset<int>>(s, c, Kind{"multiset", false, false, 0}, ints); break;
  case 5: sequence<std::unordered_multiset<int>>(s, c, Kind{"unordered_multiset", false, false, 0}, ints); break;
  default: sequence<std::basic_string<wchar_t>>(s, c, Kind{"wstring", true, false, 0}, [](const Elem &e) {
      return gen::map(e.gen(), [](int x) { return wchar_t(x); });
    });
  }
}

