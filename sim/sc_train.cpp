// C21: training. The trainer is a simulated one: a seeded sequence of the
// requests a trainer can make, ended at an arbitrary point.
#include "world.h"

#include <EasyFactorGraph/trainable/ModelTrainer.h>
#include <TrainingTools/ParametersAware.h>

#include <cmath>

namespace {
using namespace W;

enum Kind {
  OP_FACTOR = 0, // inst v1 v2 kind seed zeros share
  OP_EV,         // inst var val
  OP_REM_ALL,    // inst
  OP_CONDITION,  // copy
  OP_WEIGHTS,    // inst seed
  OP_QUERY,      // inst var threads map
  OP_TRAIN,      // inst set-seed n k threads default-info, then the script
  OP_ABSORB,     // copy target
};
enum Script {
  S_GET = 0, // weights asked for
  S_SET,     // weights assigned
  S_SET_GET,
  S_GRAD,
  S_STEP,  // one step along the gradient
  S_QUERY, // the trainer (or its callback) looks at the model
  S_THROW,
  S_ALLOC, // the gradient runs out of memory
  S_FRESH, // a number of gradients in a row
  S_BAD,   // wrong number of weights
  S_KINDS
};

struct TrainerFailure {};

struct Session {
  World &w;
  Inst &i;
  const std::vector<std::vector<size_t>> &set;
  int k; // size of the subsets, 0: the whole set
  std::vector<int64_t> script;
  int requests = 0;
  bool alloc_fired = false, expected = false;

  std::vector<double> exact(const Mirror &m0, const std::vector<int> &subset, bool &known) {
    std::vector<std::vector<size_t>> sub;
    for (int e : subset)
      sub.push_back(set[(size_t)e]);
    std::vector<double> res;
    known = w.exactGradient(m0, (bool)i.crf, sub, res);
    return res;
  }

  void checkParams(const ::train::Vect &v) {
    SimOff off;
    sim_eval(1);
    if ((size_t)v.size() != i.m.groups.size())
      wrong("wrong-weights", "the trainer sees %zu weights, the model has %zu", (size_t)v.size(),
            i.m.groups.size());
    for (size_t g = 0; g < i.m.groups.size(); ++g) {
      bool ok = false;
      for (int f : i.m.groups[g])
        ok = ok || std::fabs(i.m.facs[(size_t)f].f->w - v((Eigen::Index)g)) < 1e-6;
      if (!ok)
        wrong("wrong-weights", "the trainer sees weight %g for group %zu; %s", v((Eigen::Index)g), g,
              i.m.text().c_str());
    }
  }

  void assigned(const ::train::Vect &v) {
    auto now = i.tg()->getWeights();
    SimOff off;
    sim_eval(1);
    for (size_t g = 0; g < i.m.groups.size(); ++g) {
      for (int f : i.m.groups[g])
        i.m.facs[(size_t)f].f->w = (double)(float)v((Eigen::Index)g);
      if (g >= now.size() || !(std::fabs(now[g] - v((Eigen::Index)g)) < 1e-6))
        wrong("wrong-weights", "the trainer assigned %g to group %zu, the model has %g; %s", v((Eigen::Index)g), g,
              g < now.size() ? now[g] : NAN, i.m.text().c_str());
    }
  }

  // one gradient, compared; returns it
  std::vector<double> grad(::train::ParametersAware &model) {
    Mirror before;
    {
      SimOff off;
      before = i.m;
    }
    ::train::Vect got = model.getGradient();
    w.syncEvidence(i);
    SimOff off;
    sim_eval(1);
    ++w.answered;
    std::vector<double> g;
    for (Eigen::Index x = 0; x < got.size(); ++x)
      g.push_back(got(x));
    if (g.size() != before.groups.size())
      wrong("wrong-gradient", "the gradient has %zu values for %zu weights", g.size(), before.groups.size());
    auto same = [&](const std::vector<double> &e) {
      for (size_t x = 0; x < g.size(); ++x)
        if (!(std::fabs(e[x] + g[x]) < 2e-3))
          return false;
      return true;
    };
    auto show = [](const std::vector<double> &e, double s) {
      std::string t;
      for (double x : e)
        t += (t.empty() ? "" : ",") + std::to_string(s * x);
      return t;
    };
    bool known = true;
    if (!k) {
      std::vector<int> all;
      for (size_t e = 0; e < set.size(); ++e)
        all.push_back((int)e);
      auto e = exact(before, all, known);
      if (known && !same(e))
        wrong("wrong-gradient", "the trainer got %s, exact is %s (whole set of %zu); %s", show(g, 1).c_str(),
              show(e, -1).c_str(), set.size(), before.text().c_str());
      return g;
    }
    // the gradient is the mean of the gradients of the elements drawn
    std::vector<std::vector<double>> one;
    for (size_t e = 0; e < set.size(); ++e) {
      one.push_back(exact(before, {(int)e}, known));
      if (!known)
        return g;
    }
    std::vector<int> pick((size_t)k, 0);
    for (;;) {
      std::vector<double> mean(g.size(), 0);
      for (int e : pick)
        for (size_t x = 0; x < g.size(); ++x)
          mean[x] += one[(size_t)e][x] / k;
      if (same(mean))
        return g;
      int p = k - 1; // next multiset
      while (p >= 0 && pick[(size_t)p] == (int)set.size() - 1)
        --p;
      if (p < 0)
        break;
      int v = pick[(size_t)p] + 1;
      for (; p < k; ++p)
        pick[(size_t)p] = v;
    }
    wrong("wrong-gradient", "the trainer got %s, which is the gradient of no %d of the %zu elements (whole set: %s); %s",
          show(g, 1).c_str(), k, set.size(), show(wholeOf(one), -1).c_str(), before.text().c_str());
  }
  static std::vector<double> wholeOf(const std::vector<std::vector<double>> &one) {
    std::vector<double> m(one.empty() ? 0 : one[0].size(), 0);
    for (auto &o : one)
      for (size_t x = 0; x < m.size(); ++x)
        m[x] += o[x] / (double)one.size();
    return m;
  }

  void freshSubsets(::train::ParametersAware &model) {
    if (k != 1 || set.size() < 2 || i.m.groups.empty())
      return;
    std::vector<std::vector<double>> one;
    {
      SimOff off;
      bool known = true;
      for (size_t e = 0; e < set.size(); ++e) {
        one.push_back(exact(i.m, {(int)e}, known));
        if (!known)
          return;
      }
      for (size_t a = 0; a < one.size(); ++a)
        for (size_t b = 0; b < a; ++b) {
          double d = 0;
          for (size_t x = 0; x < one[a].size(); ++x)
            d = std::max(d, std::fabs(one[a][x] - one[b][x]));
          if (d < 0.02)
            return; // can't be told apart
        }
    }
    std::vector<double> first;
    bool varies = false;
    for (int n = 0; n < 45; ++n) {
      auto g = grad(model);
      SimOff off;
      if (!n)
        first = g;
      for (size_t x = 0; x < g.size(); ++x)
        varies = varies || std::fabs(g[x] - first[x]) > 0.01;
    }
    SimOff off;
    sim_probe(0);
    sim_eval(1);
    if (!varies)
      wrong("stale-subset", "45 gradients in a row used the same one of %zu elements; %s", set.size(),
            i.m.text().c_str());
  }

  void run(::train::ParametersAware &model) {
    for (size_t s = 0; s + 1 < script.size(); s += 2) {
      Rng r((uint64_t)script[s + 1]);
      ++requests;
      switch (script[s]) {
      case S_GET:
        checkParams(model.getParameters());
        break;
      case S_SET:
      case S_SET_GET: {
        ::train::Vect v;
        {
          SimOff off;
          v.resize((Eigen::Index)i.m.groups.size());
          for (Eigen::Index g = 0; g < v.size(); ++g)
            v(g) = r.unit() * 4 - 2;
        }
        model.setParameters(v);
        assigned(v);
        if (script[s] == S_SET_GET)
          checkParams(model.getParameters());
        break;
      }
      case S_GRAD:
        grad(model);
        break;
      case S_STEP: {
        ::train::Vect v = model.getParameters();
        checkParams(v);
        auto g = grad(model);
        {
          SimOff off;
          for (Eigen::Index x = 0; x < v.size(); ++x) {
            v(x) -= 0.3 * g[(size_t)x];
            v(x) = std::isfinite(v(x)) ? std::min(2.0, std::max(-2.0, v(x))) : 0;
          }
        }
        model.setParameters(v);
        assigned(v);
        break;
      }
      case S_QUERY:
        if (i.m.order.empty())
          break;
        if (r.below(2))
          w.qMarginal(i, i.m.order[r.below(i.m.order.size())], 1 + (int)r.below(3), false);
        else
          w.qMap(i, i.m.order[r.below(i.m.order.size())], 1 + (int)r.below(3), false);
        break;
      case S_THROW:
        sim_count_fault(FI_TRAINER_THROW);
        expected = true;
        throw TrainerFailure{};
      case S_ALLOC: {
        // changes of evidence are not claimed to survive a failing allocation
        if (i.crf || !i.st()->getEvidences().empty())
          break;
        sim_arm_alloc(1 + r.below(1ull << r.range(1, 9)), (int)r.below(2));
        bool threw = false;
        try {
          model.getGradient();
        } catch (...) {
          threw = true;
        }
        int fired = sim_disarm_alloc();
        w.syncEvidence(i);
        if (threw && !fired)
          wrong("unexpected-exception", "a gradient threw although no allocation failed");
        if (threw && r.below(2)) { // most trainers don't handle it
          expected = true;
          throw TrainerFailure{};
        }
        break;
      }
      case S_FRESH:
        freshSubsets(model);
        break;
      case S_BAD: {
        ::train::Vect v;
        {
          SimOff off;
          v.resize((Eigen::Index)i.m.groups.size() + (r.below(2) || i.m.groups.empty() ? 1 : -1));
          v.setConstant(0.5);
        }
        bool threw = false;
        try {
          model.setParameters(v);
        } catch (...) {
          threw = true;
        }
        if (!threw)
          wrong("not-rejected", "%zu weights accepted for %zu groups", (size_t)v.size(), i.m.groups.size());
        checkParams(model.getParameters());
        break;
      }
      }
    }
  }
};

struct SimTrainer : ::train::Trainer {
  Session &s;
  explicit SimTrainer(Session &s) : s(s) {}
  void train(::train::ParametersAware &model) final { s.run(model); }
};

void trainOp(World &w, Inst &i, const Op &o) {
  if (!i.tg() || i.m.order.empty())
    return;
  w.fresh(i);
  int n = (int)o[3];
  auto set = w.makeSet(i, (uint64_t)o[2], n);
  int k = (int)o[4] < n ? (int)o[4] : 0;
  Session s{w, i, set, k, std::vector<int64_t>(o.a.begin() + 7, o.a.end())};
  SimTrainer trainer(s);
  EFG::train::TrainInfo info;
  int odd = (int)o[6]; // 0 nothing, 1 default arguments, 2 no thread, 3 refused thread, 4 fraction not valid
  info.threads = odd == 2 ? 0 : (size_t)o[5];
  if (k)
    info.stochastic_percentage = ((float)k + 0.5f) / (float)n;
  if (odd == 4) {
    info.stochastic_percentage = o[2] & 1 ? 1.5f : o[2] & 2 ? 0.f : -0.5f;
    s.script = {S_GRAD, 0};
  }
  if (odd == 1) {
    info = EFG::train::TrainInfo{};
    s.k = 0;
  }
  if (odd == 3)
    sim_arm_thread(1 + (uint64_t)o[2] % 3, 0);
  bool threw = false, mine = false;
  {
    auto *ts = new EFG::train::TrainSet(set);
    try {
      if (odd == 1)
        EFG::train::train_model(*i.tg(), trainer, *ts);
      else
        EFG::train::train_model(*i.tg(), trainer, *ts, info);
    } catch (const TrainerFailure &) {
      threw = mine = true;
    } catch (...) {
      threw = true;
    }
    delete ts;
  }
  int refused = odd == 3 ? sim_disarm_thread() : 0;
  w.syncEvidence(i);
  sim_eval(1);
  if (odd == 2 && !threw)
    wrong("not-rejected", "training with no thread was accepted");
  if (odd == 2 && s.requests)
    wrong("not-rejected", "the trainer was run although no thread was allowed");
  if (odd == 4 && !threw)
    wrong("not-rejected", "training with fraction %g was accepted", info.stochastic_percentage);
  if (mine && !s.expected)
    wrong("unexpected-exception", "training failed with an error nobody made");
  if (!mine && s.expected)
    wrong("lost-exception", "training %s although the trainer failed", threw ? "threw something else" : "went on");
  if (threw && !mine && odd != 2 && odd != 4 && !refused)
    wrong("unexpected-exception", "training threw although nothing had failed");
  // what is left
  auto now = i.tg()->getWeights();
  {
    SimOff off;
    ::train::Vect v;
    v.resize((Eigen::Index)now.size());
    for (size_t g = 0; g < now.size(); ++g)
      v((Eigen::Index)g) = now[g];
    s.checkParams(v);
  }
  w.qAll(i, 1 + (int)(o[2] >> 3 & 3));
}

Op factor(Rng &r, int a, int b) {
  bool tun = r.chance(0.8);
  return {{OP_FACTOR, 0, a, b, tun ? (r.chance(0.7) ? World::K_TUN : World::K_TUN_COPY) : World::K_CONST,
           (int64_t)(r.next() >> 4), r.chance(0.1), tun && r.chance(0.3) ? r.range(1, 40) : 0}};
}

Op trainer(Rng &r, int tier) {
  int n = (int)r.range(1, 5);
  int k = r.chance(0.5) ? n : (int)r.range(1, std::max(1, n - 1));
  if (k == n && r.chance(0.08)) // the whole of a longer set
    k = n = (int)r.range(6, r.chance(0.03) ? 400 : 50);
  int odd = r.chance(0.75) ? 0 : (int)r.range(1, 4);
  bool fresh = r.chance(0.15);
  if (fresh) {
    n = (int)r.range(2, 3);
    k = 1;
  }
  Op o{{OP_TRAIN, (int64_t)r.below(3), (int64_t)(r.next() >> 4), n, k,
        r.chance(0.3) ? 1 : r.range(2, tier ? 6 : 4), odd}};
  int len = (int)r.range(1, tier ? 12 : 7);
  static const int weights[S_KINDS] = {2, 4, 2, 7, 5, 3, 0, 1, 0, 1};
  while (len--) {
    int x = (int)r.below(25), s = 0;
    while (x >= weights[s])
      x -= weights[s++];
    o.a.push_back(s);
    o.a.push_back((int64_t)(r.next() >> 4));
  }
  if (fresh) {
    o.a.push_back(S_FRESH);
    o.a.push_back(0);
  }
  if (r.chance(0.3)) {
    o.a.push_back(S_THROW);
    o.a.push_back(0);
  }
  return o;
}

void generate(Rng &r, int tier, Ops &ops, SimCfg &) {
  int nv = (int)r.range(2, 5);
  bool cond = r.chance(0.45);
  ops.push_back({{nv, (int64_t)(r.next() >> 4), r.chance(0.6) ? 2 : 3, (int64_t)r.below(3)}});
  int used = (int)r.range(2, nv);
  for (int k = 1; k < used; ++k)
    if (!r.chance(0.1)) {
      int a = (int)r.below((uint64_t)k), b = k;
      if (r.chance(0.5))
        std::swap(a, b);
      ops.push_back(factor(r, a, b));
    }
  for (int k = (int)r.range(0, 3); k > 0; --k)
    ops.push_back(factor(r, (int)r.below((uint64_t)used), -1));
  if (cond) {
    for (int k = (int)r.range(1, std::max(1, used - 1)); k > 0; --k)
      ops.push_back({{OP_EV, 0, (int64_t)r.below((uint64_t)used), (int64_t)r.below(3)}});
    ops.push_back({{OP_CONDITION, (int64_t)r.below(2)}});
  }
  for (int n = (int)r.range(1, tier ? 5 : 3); n > 0; --n) {
    switch (r.below(7)) {
    case 0:
      ops.push_back({{OP_EV, (int64_t)r.below(3), (int64_t)r.below((uint64_t)used), (int64_t)r.below(3)}});
      break;
    case 1:
      ops.push_back({{OP_REM_ALL, (int64_t)r.below(3)}});
      break;
    case 2:
      ops.push_back({{OP_WEIGHTS, (int64_t)r.below(3), (int64_t)(r.next() >> 4)}});
      break;
    case 3:
      ops.push_back({{OP_QUERY, (int64_t)r.below(3), (int64_t)r.below((uint64_t)used), r.range(1, 3),
                      (int64_t)r.below(2)}});
      break;
    case 4:
      ops.push_back({{OP_ABSORB, (int64_t)r.below(2), (int64_t)r.below(2) * 3}});
      break;
    case 5:
      ops.push_back(factor(r, (int)r.below((uint64_t)nv), r.chance(0.5) ? -1 : (int)r.below((uint64_t)nv)));
      break;
    default:
      break;
    }
    ops.push_back(trainer(r, tier));
  }
}

void run(const Ops &ops) {
  World w;
  w.asserts = A_ANSWER | A_WEIGHT | A_GRAD | A_REPORT;
  const Op &c = ops[0];
  w.makeVars((int)c[0], (uint64_t)c[1], (int)c[2], (int)c[3]);
  w.addModel(false);
  auto at = [&](int64_t k) -> Inst & { return *w.inst[(size_t)k % w.inst.size()]; };
  auto var = [&](int64_t v) { return (int)(v % (int64_t)w.u.size()); };
  for (size_t k = 1; k < ops.size(); ++k) {
    const Op &o = ops[k];
    sim_hash((uint64_t)o[0] * 1000003 + (uint64_t)o[2]);
    switch (o[0]) {
    case OP_FACTOR: {
      std::vector<int> v{var(o[2])};
      if (o[3] >= 0)
        v.push_back(var(o[3]));
      w.fresh(at(0));
      w.addFactor(at(0), v, (int)o[4], (uint64_t)o[5], (int)o[6], (int)o[7]);
      break;
    }
    case OP_EV:
      w.fresh(at(o[1]));
      w.setEv(at(o[1]), var(o[2]), (int)o[3], false);
      break;
    case OP_REM_ALL:
      w.fresh(at(o[1]));
      w.remAll(at(o[1]));
      break;
    case OP_CONDITION:
      w.fresh(at(0));
      w.absorb(at(0), o[1], 2);
      break;
    case OP_ABSORB:
      w.fresh(at(0));
      w.absorb(at(0), o[1], (int)o[2]);
      break;
    case OP_WEIGHTS:
      w.fresh(at(o[1]));
      w.setWeights(at(o[1]), (uint64_t)o[2]);
      break;
    case OP_QUERY: {
      Inst &i = at(o[1]);
      w.fresh(i);
      if (!i.m.has(var(o[2])))
        break;
      if (o[4])
        w.qMap(i, var(o[2]), (int)o[3], false);
      else
        w.qMarginal(i, var(o[2]), (int)o[3], false);
      break;
    }
    case OP_TRAIN: {
      // shallow copies see the new weights
      Inst &i = at(o[1]);
      trainOp(w, i, o);
      SimOff off;
      for (auto &other : w.inst)
        if (other.get() != &i)
          for (auto &e : other->m.facs)
            for (auto &mine : i.m.facs)
              if (e.f == mine.f)
                other->stale = true;
      break;
    }
    }
  }
  if (w.answered)
    sim_nontrivial();
}
size_t pin1(const Ops &) { return 1; }
RegisterScenario reg({"C21", generate, run, pin1});
} // namespace
