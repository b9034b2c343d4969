#include "C14.h"

FACET(maps, 4) {
  switch (s.draw(4)) {
  case 0: mapping<std::map<int, int>>(s, c, Kind{"map", false, true, PLAIN}); break;
  case 1: mapping<std::unordered_map<int, int>>(s, c, Kind{"unordered_map", false, true, PLAIN}); break;
  case 2: mapping<std::multimap<int, int>>(s, c, Kind{"multimap", false, true, 0}); break;
  case 3: mapping<std::unordered_multimap<int, int>>(s, c, Kind{"unordered_multimap", false, true, 0}); break;
  default: mapping<std::map<int, int, std::greater<int>>>(s, c, Kind{"map greater", false, true, PLAIN});
  }
}

