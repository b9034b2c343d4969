#include "C19.h"
FACET(build_unique, 3) { C19::buildCase<std::unique_ptr<C19::Obj>>(s, c); }
FACET(build_shared, 3) { C19::buildCase<std::shared_ptr<C19::Obj>>(s, c); }
