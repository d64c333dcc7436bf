// Workload description, scenario registry and small helpers.
#pragma once
#include "rt.h"
#include <string>
#include <vector>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) { next(); }
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }
  // uniform in [0, n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

// One operation of a workload: a kind and integer arguments. Every operation
// has to be executable whatever other operations are dropped from the workload.
struct Op {
  std::vector<int64_t> a;
  int64_t operator[](size_t i) const { return i < a.size() ? a[i] : 0; }
};
using Ops = std::vector<Op>;

struct Scenario {
  const char *name; // property id
  // tier 0 quick, 1 thorough
  void (*generate)(Rng &rng, int tier, Ops &ops, SimCfg &cfg);
  void (*run)(const Ops &ops);
  // optional: operations with index below the returned number are never dropped
  size_t (*pinned)(const Ops &ops);
};

const Scenario *find_scenario(const std::string &name);
// directory for files of the running scenario (exists, private to the worker)
extern char g_scratch[256];

struct RegisterScenario {
  RegisterScenario(const Scenario &s);
};
