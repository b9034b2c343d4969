// C09: whole test programs, run as separate processes.
#pragma once
#include "pbt.h"

namespace c09 {
// One property of a test program.
struct Prop {
  std::string name;
  int kind = 0; // arguments and shape
  int fail = 0, thr = 0, disc = 0, mod = 2, tag = 0, log = 0;
};
std::string encode(const std::vector<Prop> &);
std::vector<Prop> decode(const std::string &);
constexpr int kKinds = 7;
int helperMain(int argc, char **argv);
} // namespace c09
