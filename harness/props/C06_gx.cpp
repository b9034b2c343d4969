#include "genexpr_impl.h"
