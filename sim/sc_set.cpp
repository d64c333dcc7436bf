// C20: train sets, their subsets and iterators.
#include "world.h"

#include <cmath>
#include <optional>
#include <thread>

namespace {
using EFG::train::TrainSet;
using W::wrong;
using Rows = std::vector<std::vector<size_t>>;

enum Kind {
  OP_SUBSET = 0, // set pct rand value
  OP_WHOLE,      // set
  OP_REJECT,     // set which
  OP_CONCURRENT, // set pct threads how
  OP_GONE,       // set pct
  OP_SPREAD,     // set pct
  OP_KINDS
};

// percentages worth trying, by index
const float pcts[] = {0.5f, 0.1f, 0.3f, 0.7f, 0.9f, 0.99f, 0.999999f, 0.01f, 1e-6f, 0.25f, 0.6f, 0.29f, 0.999f,
                     0.99999994f, 1e-30f, 0.05f};
constexpr int PCTS = 16;

void gen(Rng &r, int tier, Ops &ops, SimCfg &) {
  int sets = (int)r.range(1, 2);
  Op c{{sets}};
  for (int k = 0; k < 2; ++k) {
    c.a.push_back(r.chance(0.15)   ? 1
                  : r.chance(0.85) ? r.range(1, 24)
                  : r.chance(0.99) ? r.range(100, tier ? 3000 : 700)
                                   : r.range(66000, 90000)); // more than 16 bits count
    c.a.push_back(r.range(1, 4));
    c.a.push_back((int64_t)(r.next() >> 8));
  }
  ops.push_back(c);
  int n = (int)r.range(1, tier ? 12 : 7);
  for (int k = 0; k < n; ++k) {
    int x = (int)r.below(20);
    int64_t set = (int64_t)r.below(sets), pct = r.chance(0.7) ? (int64_t)r.below(PCTS) : (int64_t)(100 + r.below(1000000));
    if (x < 8)
      ops.push_back({{OP_SUBSET, set, pct, r.chance(0.5) ? 0 : r.range(1, 3), (int64_t)r.below(0x7fffffff)}});
    else if (x < 10)
      ops.push_back({{OP_WHOLE, set}});
    else if (x < 12)
      ops.push_back({{OP_REJECT, set, (int64_t)r.below(12)}});
    else if (x < 16)
      ops.push_back({{OP_CONCURRENT, set, pct, r.range(2, 4), (int64_t)r.below(4)}});
    else if (x < 18)
      ops.push_back({{OP_GONE, set, pct, (int64_t)r.below(4)}});
    else
      ops.push_back({{OP_SPREAD, set, pct}});
  }
}

struct Runner {
  std::vector<Rows> rows;
  std::vector<std::unique_ptr<TrainSet>> sets;

  static float pct(int64_t k) { return k < 100 ? pcts[k % PCTS] : (float)((double)(k - 99) / 1000001.0); }

  // what an iterator visits, as indices
  static std::vector<size_t> visit(const TrainSet::Iterator &it, const Rows &of) {
    std::vector<size_t> res;
    std::vector<std::vector<size_t>> seen;
    it.forEachSample([&](const std::vector<size_t> &s) { seen.push_back(s); });
    SimOff off;
    for (auto &s : seen) {
      // the first value identifies the row
      if (s.empty() || s[0] >= of.size() || of[s[0]] != s)
        wrong("not-an-element", "an iterator visits something that is not an element of its train set");
      res.push_back(s[0]);
    }
    return res;
  }
  static void size(size_t visited, const TrainSet::Iterator &it, float p, size_t n) {
    SimOff off;
    sim_eval(1);
    size_t a = (size_t)floorf(p * (float)n), b = (size_t)std::floor((double)p * (double)n);
    if (visited != a && visited != b)
      wrong("wrong-size", "%zu elements visited for a fraction %.9g of %zu", visited, p, n);
    if (it.size() != visited)
      wrong("wrong-size", "an iterator reports %zu elements and visits %zu", it.size(), visited);
  }

  void step(const Op &o) {
    size_t si = (size_t)o[1] % sets.size();
    const Rows &of = rows[si];
    TrainSet &set = *sets[si];
    float p = pct(o[2]);
    sim_hash((uint64_t)o[0] * 1000003 + (uint64_t)o[2]);
    switch (o[0]) {
    case OP_SUBSET: {
      sim_rand_force((int)o[3], o[4]);
      auto it = set.makeSubSetIterator(p);
      sim_rand_force(0, 0);
      auto a = visit(it, of);
      size(a.size(), it, p, of.size());
      auto b = visit(it, of);
      auto copy = it;
      auto c = visit(copy, of);
      SimOff off;
      sim_nontrivial();
      if (a != b || a != c)
        wrong("not-the-same", "the same iterator visits other elements the second time");
      break;
    }
    case OP_WHOLE: {
      auto i1 = set.makeIterator();
      auto i2 = set.makeSubSetIterator(1.f);
      auto a = visit(i1, of), b = visit(i2, of);
      SimOff off;
      sim_eval(1);
      for (auto *v : {&a, &b}) {
        if (v->size() != of.size())
          wrong("wrong-size", "%zu elements visited for the whole set of %zu", v->size(), of.size());
        for (size_t k = 0; k < v->size(); ++k)
          if ((*v)[k] != k)
            wrong("wrong-order", "element %zu of the whole set is visited at place %zu", (*v)[k], k);
      }
      if (i1.size() != of.size())
        wrong("wrong-size", "the whole set reports %zu instead of %zu", i1.size(), of.size());
      break;
    }
    case OP_REJECT: {
      bool threw = false;
      const char *what = "";
      try {
        switch (o[2]) {
        case 0:
          what = "fraction 0";
          set.makeSubSetIterator(0.f);
          break;
        case 1:
          what = "a negative fraction";
          set.makeSubSetIterator(-0.3f);
          break;
        case 2:
          what = "a fraction above 1";
          set.makeSubSetIterator(1.0001f);
          break;
        case 3:
          what = "fraction 50";
          set.makeSubSetIterator(50.f);
          break;
        case 4:
          what = "an infinite fraction";
          set.makeSubSetIterator(INFINITY);
          break;
        case 5:
          what = "fraction -1";
          set.makeSubSetIterator(-1.f);
          break;
        case 6:
          what = "an empty train set";
          TrainSet{Rows{}};
          break;
        case 7: {
          what = "a train set with one longer element";
          Rows x = of;
          x[x.size() / 2].push_back(0);
          x.push_back(of[0]);
          TrainSet{x};
        } break;
        case 8: {
          what = "a train set whose last element is shorter";
          Rows x = of;
          x.push_back(of[0]);
          x.back().pop_back();
          TrainSet{x};
        } break;
        case 9:
          what = "a train set of empty elements";
          TrainSet{Rows{{}, {}}};
          break;
        case 10: {
          what = "a train set whose first element is empty";
          Rows x = of;
          x.insert(x.begin(), std::vector<size_t>{});
          TrainSet{x};
        } break;
        case 11: {
          what = "a train set whose last element is longer";
          Rows x = of;
          x.push_back(of[0]);
          x.back().push_back(1);
          TrainSet{x};
        } break;
        }
      } catch (const std::exception &) {
        threw = true;
      }
      sim_eval(1);
      sim_count_fault(FI_REJECT);
      if (!threw)
        wrong("accepted", "%s was accepted", what);
      break;
    }
    case OP_CONCURRENT: {
      // one iterator for everybody, or one each, made from the same set
      size_t n = (size_t)o[3];
      std::vector<std::vector<size_t>> got(n);
      std::optional<TrainSet::Iterator> common;
      bool shared = o[4] & 1;
      if (shared)
        common.emplace(set.makeSubSetIterator(p));
      const TrainSet::Iterator *ci = shared ? &*common : nullptr;
      std::vector<std::thread> th;
      for (size_t k = 0; k < n; ++k)
        th.emplace_back([&got, &of, &set, ci, p, k] {
          if (ci) {
            got[k] = visit(*ci, of);
          } else {
            TrainSet mine(set);
            auto it = (k & 1 ? mine : set).makeSubSetIterator(p);
            got[k] = visit(it, of);
            size(got[k].size(), it, p, of.size());
          }
        });
      for (auto &t : th)
        t.join();
      sim_nontrivial();
      if (shared) {
        auto again = visit(*common, of);
        size(again.size(), *common, p, of.size());
        SimOff off;
        for (auto &g : got)
          if (g != again)
            wrong("not-the-same", "an iterator used by several threads visits different elements");
      }
      break;
    }
    case OP_GONE: {
      auto mine = std::make_unique<TrainSet>(of);
      auto it = o[3] & 1 ? mine->makeSubSetIterator(p) : mine->makeIterator();
      auto a = visit(it, of);
      if (o[3] & 2)
        *mine = TrainSet(Rows{{0}, {1}, {2}}); // another content instead
      else
        mine.reset();
      auto b = visit(it, of);
      size(b.size(), it, o[3] & 1 ? p : 1.f, of.size());
      SimOff off;
      sim_nontrivial();
      if (a != b)
        wrong("not-the-same", "an iterator visits other elements once its train set is gone");
      break;
    }
    case OP_SPREAD: {
      size_t n = of.size();
      size_t each = (size_t)floorf(p * (float)n);
      if (n < 2 || each == 0)
        break;
      // elements of a big set are counted together: by range and by remainder
      size_t classes = n <= 24 ? n : 16;
      sim_fast(1);
      double worst = 0;
      size_t at = 0, picks = 0;
      for (int round = 0; round < 2; ++round) {
        std::vector<size_t> count(2 * classes), members(2 * classes);
        for (size_t k = 0; k < n; ++k) {
          ++members[k * classes / n];
          ++members[classes + k % classes];
        }
        picks = 0;
        size_t want = (round ? 12000 : 3000);
        while (picks < want) {
          auto it = set.makeSubSetIterator(p);
          it.forEachSample([&](const std::vector<size_t> &s) {
            ++count[s[0] * classes / n];
            ++count[classes + s[0] % classes];
            ++picks;
          });
        }
        worst = 0;
        for (size_t k = 0; k < 2 * classes; ++k) {
          // in standard deviations
          double prob = (double)members[k] / (double)n;
          double d = std::fabs((double)count[k] / (double)picks - prob) / std::sqrt(prob * (1 - prob) / (double)picks);
          if (d > worst) {
            worst = d;
            at = k;
          }
        }
        // more than seven standard deviations, again and closer with more draws
        if (worst < 7)
          break;
        if (round)
          wrong("not-uniform", "class %zu of the %zu elements has a frequency off by %.1f standard deviations in %zu draws",
                at, n, worst, picks);
      }
      sim_fast(n > 10000);
      sim_eval(1);
      sim_nontrivial();
      break;
    }
    }
  }
};

void run(const Ops &ops) {
  Runner r;
  const Op &c = ops[0];
  bool big = false;
  for (int s = 0; s < (int)c[0]; ++s)
    big |= c[1 + 3 * (size_t)s] > 10000;
  if (big)
    sim_fast(1);
  for (int s = 0; s < (int)c[0]; ++s) {
    {
      SimOff off;
      Rng g((uint64_t)c[3 + 3 * (size_t)s]);
      Rows x;
      for (int k = 0; k < (int)c[1 + 3 * (size_t)s]; ++k) {
        std::vector<size_t> e{(size_t)k};
        for (int j = 1; j < (int)c[2 + 3 * (size_t)s]; ++j)
          e.push_back(g.below(4));
        x.push_back(e);
      }
      r.rows.push_back(x);
    }
    r.sets.push_back(std::make_unique<TrainSet>(r.rows.back()));
    SimOff off;
    if (r.sets.back()->getCombinations() != r.rows.back())
      wrong("wrong-set", "a train set does not hold the combinations it was made of");
  }
  for (size_t k = 1; k < ops.size(); ++k)
    r.step(ops[k]);
  if (big)
    sim_fast(0);
}
size_t pin1(const Ops &) { return 1; }
RegisterScenario reg({"C20", gen, run, pin1});
} // namespace
