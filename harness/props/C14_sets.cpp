#include "C14.h"

FACET(sets, 4) {
  switch (s.draw(5)) {
  case 0: sequence<std::set<int>>(s, c, Kind{"set", false, false, PLAIN}, ints); break;
  case 1: sequence<std::unordered_set<int>>(s, c, Kind{"unordered_set", false, false, PLAIN}, ints); break;
  case 2: sequence<std::set<int, std::greater<int>>>(s, c, Kind{"set greater", false, false, PLAIN}, ints); break;
  case 3: sequence<std::set<int, ModLess>>(s, c, Kind{"set mod 10", false, false, 10}, ints); break;
  case 4: sequence<std::unordered_set<int, ModHash, ModEq>>(s, c, Kind{"unordered_set mod 10", false, false, 10}, ints); break;
  default: sequence<std::unordered_set<int, BadHash>>(s, c, Kind{"unordered_set one bucket", false, false, PLAIN}, ints);
  }
}

