// C34: the adapters to test frameworks. Each case runs a real framework on one
// generated property in a forked child, next to a reference run of the same
// property without any adapter.
#pragma once
#include "pbt.h"
#include <rapidcheck.h>

namespace c34 {
// What the body does with what it was given.
struct Plan {
  int fail = 0;    // how a bad case fails, 0 for never
  int thr = 10;    // bad from here on
  int disc = 0;    // how a case is discarded, 0 for never
  int mod = 3;     // which cases are
  int tag = 0;     // how cases are tagged, 0 for not at all
  bool verbose = false;
  int tearDown = 0; // tear-down fails for values from here on, if not 0
  bool pickInSetUp = false;
};
constexpr int kFails = 6; // 5: returns false, 6: framework expectation

struct Fatal {};

extern Plan plans[4];
extern int current; // which plan is in use
extern std::vector<std::string> events;
extern void (*expectFail)(int x); // how fail == 6 is done

// The body; says what happened in the ledger. Returns false for fail == 5.
bool body(int x, std::size_t n);
void inSetUp();
void inTearDown(int x);

// What the framework said about one test.
struct Seen {
  int ran = 0, failures = 0;
  bool passed = false;
  int exitCode = 0;
  std::string text; // of the failures
};

struct Entry {
  const char *adapter, *name; // as the framework selects it
  const char *id;             // metadata id the adapter must use, or null
  int args;                   // 0: (), 1: (int), 2: (int, vector<int>), 3: (string)
  int fixture;                // 0: none, 1: with set-up/tear-down, 2: without
  int props = 1;              // number of properties in the test
};
const std::vector<Entry> &variants();
Seen runGTest(const Entry &v, bool listener);
Seen runBoost(const Entry &v);
Seen runCatch(const Entry &v);
Seen runDoctest(const Entry &v);
std::string mockCase(const Plan &p, int kind, int times);
} // namespace c34
