// C06: loopy belief propagation. Clusters with cycles of three sorts (weakly
// coupled, moderately coupled, never converging) next to acyclic ones, under
// evidence changes, with the default and with user supplied strategies.
#include "world.h"

#include <algorithm>
#include <cmath>
#include <stdexcept>

namespace {
using namespace W;

enum Kind {
  L_BLOCK = 0, // block type seed
  L_LINK,      // block block seed
  L_EV,        // var val
  L_REM,       // var
  L_CTX,       // iterations
  L_STRAT,     // 0 default 1 observed default 2 returns true 3 returns false 4 throws
  L_QUERY,     // kind var threads byname
  L_COST,      // threads
  L_KINDS
};
enum Type { T_WEAK = 0, T_MID, T_SHIFT, T_TREE, T_NUM };
constexpr int BLOCK = 6; // variables of a block

struct Call {
  std::set<int> vars;
  bool result;
  strct::PropagationKind kind;
  size_t iters, threads;
};

struct Seen {
  World *w = nullptr;
  std::vector<Call> calls;
  bool check_residual = true;
  int mode = 1;
};

// largest change of a message when all of them are computed once more
double residual(strct::HiddenCluster &c, strct::PropagationKind kind) {
  double worst = 0;
  for (auto &info : *c.connectivity.get()) {
    if (!info.connection->message)
      return 1e9;
    std::vector<double> in;
    for (float x : info.sender->merged_unaries.get()->getProbabilities())
      in.push_back(x);
    for (const auto *d : info.dependencies) {
      auto p = d->message->getProbabilities();
      for (size_t k = 0; k < in.size(); ++k)
        in[k] *= p[k];
    }
    const auto &fv = info.connection->factor->function().vars().getVariables();
    bool first = fv.front().get() == info.sender->variable.get();
    size_t out = (first ? fv.back() : fv.front())->size();
    auto have = info.connection->message->getProbabilities();
    if (have.size() != out)
      return 1e9;
    std::vector<double> next(out, 0);
    double z = 0;
    for (size_t r = 0; r < out; ++r) {
      for (size_t s = 0; s < in.size(); ++s) {
        double x = in[s] * info.connection->factor->function().findTransformed(
                               first ? std::vector<size_t>{s, r} : std::vector<size_t>{r, s});
        next[r] = kind == strct::PropagationKind::SUM ? next[r] + x : std::max(next[r], x);
      }
      z += next[r];
    }
    double d = 0;
    for (size_t r = 0; r < out; ++r)
      d += std::fabs(next[r] / z - have[r]);
    worst = std::max(worst, d);
  }
  return worst;
}

struct Strategy : strct::LoopyBeliefPropagationStrategy {
  std::shared_ptr<Seen> seen;
  strct::BaselineLoopyPropagator base;
  explicit Strategy(std::shared_ptr<Seen> s) : seen(std::move(s)) {}
  bool propagateBelief(strct::HiddenCluster &c, strct::PropagationKind kind, const strct::PropagationContext &ctx,
                       strct::Pool &pool) override {
    if (seen->mode == 4)
      throw std::runtime_error("strategy refuses");
    bool res = base.propagateBelief(c, kind, ctx, pool);
    if (seen->mode == 2)
      res = true;
    if (seen->mode == 3)
      res = false;
    SimOff off;
    Call call;
    call.result = res;
    call.kind = kind;
    call.iters = ctx.max_iterations_loopy_propagation;
    call.threads = pool.size();
    for (auto *n : c.nodes)
      for (size_t k = 0; k < seen->w->u.size(); ++k)
        if (seen->w->u[k].ptr == n->variable)
          call.vars.insert((int)k);
    seen->calls.push_back(call);
    if (seen->mode == 1 && res) {
      sim_eval(1);
      sim_probe(0);
      double d = residual(c, kind);
      if (!(d < 0.06))
        wrong("not-converged", "propagation of a cluster with %zu variables was reported as completed, but the "
                               "messages still change by %g",
              call.vars.size(), d);
    }
    return res;
  }
};

// fixed point of the sum-product equations, double accuracy
bool fixed_point(const Mirror &m, const std::vector<int> &vars, std::vector<std::vector<double>> &out) {
  const auto &u = *m.u;
  std::vector<std::vector<double>> local(u.size());
  for (int v : vars)
    local[v].assign(u[v].size, 1.0);
  struct Edge {
    int a, b;
    const FacSpec *f;
  };
  std::vector<Edge> edges;
  for (auto &e : m.facs) {
    const auto &f = *e.f;
    if (f.v.size() == 1) {
      if (!local[f.v[0]].empty())
        for (int k = 0; k < u[f.v[0]].size; ++k)
          local[f.v[0]][k] *= f.image(k);
      continue;
    }
    int a = f.v[0], b = f.v[1];
    if (local[a].empty() && local[b].empty())
      continue;
    if (m.ev[a] >= 0) {
      for (int k = 0; k < u[b].size; ++k)
        local[b][k] *= f.image((size_t)m.ev[a] * u[b].size + k);
    } else if (m.ev[b] >= 0) {
      for (int k = 0; k < u[a].size; ++k)
        local[a][k] *= f.image((size_t)k * u[b].size + m.ev[b]);
    } else
      edges.push_back({a, b, &f});
  }
  std::map<std::pair<int, int>, std::vector<double>> msg; // from, to
  for (auto &e : edges) {
    msg[{e.a, e.b}].assign(u[e.b].size, 1.0 / u[e.b].size);
    msg[{e.b, e.a}].assign(u[e.a].size, 1.0 / u[e.a].size);
  }
  double change = 1;
  for (int it = 0; it < 3000 && change > 1e-10; ++it) {
    change = 0;
    for (auto &e : edges)
      for (int dir = 0; dir < 2; ++dir) {
        int s = dir ? e.b : e.a, t = dir ? e.a : e.b;
        std::vector<double> in = local[s];
        for (auto &[k, x] : msg)
          if (k.second == s && k.first != t)
            for (size_t j = 0; j < in.size(); ++j)
              in[j] *= x[j];
        std::vector<double> o(u[t].size, 0);
        double z = 0;
        for (int y = 0; y < u[t].size; ++y) {
          for (int x = 0; x < u[s].size; ++x)
            o[y] += in[x] * e.f->image(dir ? (size_t)y * u[s].size + x : (size_t)x * u[t].size + y);
          z += o[y];
        }
        auto &old = msg[{s, t}];
        for (int y = 0; y < u[t].size; ++y) {
          change = std::max(change, std::fabs(o[y] / z - old[y]));
          old[y] = o[y] / z;
        }
      }
  }
  if (change > 1e-8)
    return false;
  out.assign(u.size(), {});
  for (int v : vars) {
    out[v] = local[v];
    for (auto &[k, x] : msg)
      if (k.second == v)
        for (size_t j = 0; j < x.size(); ++j)
          out[v][j] *= x[j];
    double z = 0;
    for (double x : out[v])
      z += x;
    for (double &x : out[v])
      x /= z;
  }
  return true;
}

// bound on the contraction of the message equations in a cluster
double contraction(const Mirror &m, const std::vector<int> &vars) {
  const auto &u = *m.u;
  double best = 0;
  for (int v : vars) {
    double sum = 0, lowest = 1e9;
    int n = 0;
    for (auto &e : m.facs) {
      const auto &f = *e.f;
      if (f.v.size() != 2 || (f.v[0] != v && f.v[1] != v))
        continue;
      int o = f.v[0] == v ? f.v[1] : f.v[0];
      if (m.ev[o] >= 0)
        continue;
      double q = 0;
      int na = u[f.v[0]].size, nb = u[f.v[1]].size;
      for (int a = 0; a < na; ++a)
        for (int a2 = 0; a2 < na; ++a2)
          for (int b = 0; b < nb; ++b)
            for (int b2 = 0; b2 < nb; ++b2) {
              double num = f.image(a * nb + b) * f.image(a2 * nb + b2),
                     den = f.image(a2 * nb + b) * f.image(a * nb + b2);
              if (den <= 0 || num <= 0)
                return 10;
              q = std::max(q, std::log(num / den));
            }
      double s = std::tanh(q / 4);
      sum += s;
      lowest = std::min(lowest, s);
      ++n;
    }
    if (n)
      best = std::max(best, sum - lowest);
  }
  return best;
}

struct Runner {
  World w;
  std::vector<int> type; // of the variables, -1 unused
  std::shared_ptr<Seen> seen = std::make_shared<Seen>();
  int strat = 0;
  bool dirty = true;
  strct::PropagationKind last = strct::PropagationKind::SUM;
  bool context_since = true; // context or strategy changed after the last propagation
  size_t iters = 40;

  Inst &m() { return *w.inst[0]; }

  void put(const std::vector<int> &v, std::vector<double> raw) {
    if (v.size() == 2 && (v[0] == v[1] || m().m.connected(v[0], v[1])))
      return;
    FacPtr f;
    {
      SimOff off;
      f = std::make_shared<FacSpec>();
      f->v = v;
      for (double x : raw)
        f->raw.push_back((float)x);
    }
    auto o = w.makeFactor(*f);
    m().fc()->addConstFactor(o);
    f->obj = o;
    w.noteInserted(m(), v, f, false, -1);
    dirty = true;
  }
  std::vector<double> values(Rng &r, size_t n, double lo, double hi) {
    std::vector<double> x;
    for (size_t k = 0; k < n; ++k)
      x.push_back(lo * std::pow(hi / lo, r.unit()));
    return x;
  }
  void block(int b, int t, uint64_t seed) {
    Rng r(seed);
    int base = b * BLOCK;
    if (type[base] >= 0)
      return;
    int most = r.chance(0.2) ? BLOCK : 4;
    int n = t == T_TREE ? (int)r.range(1, most) : (int)r.range(3, most);
    std::vector<int> vs;
    for (int k = 0; k < n; ++k) {
      vs.push_back(base + k);
      type[base + k] = t;
    }
    for (int k = n; k > 1; --k)
      std::swap(vs[k - 1], vs[r.below(k)]);
    type[base] = t; // block in use
    auto size = [&](int v) { return (size_t)w.u[v].size; };
    if (t == T_SHIFT) {
      // permutations around the ring whose composition is a shift by one
      for (int k = 0; k < n; ++k) {
        int a = vs[k], c = vs[(k + 1) % n];
        int off = k == 0 ? 1 : 0;
        std::vector<double> x(9, 0.0);
        bool swap = r.chance(0.5);
        for (int i = 0; i < 3; ++i) {
          int j = (i + off) % 3;
          x[swap ? j * 3 + i : i * 3 + j] = 1;
        }
        put(swap ? std::vector<int>{c, a} : std::vector<int>{a, c}, x);
      }
      put({vs[0]}, {1.0, 0.5 + r.unit() * 0.2, 0.2 + 0.1 * r.unit()});
      return;
    }
    double lo = t == T_WEAK ? 0.85 : 0.5, hi = t == T_WEAK ? 1.18 : 2;
    for (int k = 0; k < n; ++k) {
      int a = vs[k], c = vs[(k + 1) % n];
      if (k == n - 1 && t == T_TREE)
        break;
      if (r.chance(0.5))
        std::swap(a, c);
      put({a, c}, values(r, size(a) * size(c), lo, hi));
    }
    if (n == 4 && t != T_TREE && r.chance(0.4))
      put({vs[0], vs[2]}, values(r, size(vs[0]) * size(vs[2]), lo, hi));
    for (int v : vs)
      if (r.chance(0.5) || n == 1)
        put({v}, values(r, size(v), 0.5, 2));
  }

  void query(strct::PropagationKind kind, int var, int threads, bool byname) {
    Inst &i = m();
    if (!i.m.has(var) || i.m.observed(var))
      return;
    seen->calls.clear();
    bool must = dirty || last != kind;
    std::vector<float> marg;
    bool threw = false;
    try {
      if (kind == strct::PropagationKind::SUM)
        marg = byname ? i.q()->getMarginalDistribution(w.u[var].name, threads)
                      : i.q()->getMarginalDistribution(w.u[var].ptr, threads);
      else
        i.q()->getMAP(w.u[var].ptr, threads);
    } catch (const std::exception &) {
      if (strat != 4)
        throw;
      threw = true;
    }
    SimOff off;
    sim_eval(1);
    std::vector<std::set<int>> cyclic;
    bool never = false;
    double worst = 0;
    for (auto &c : i.m.clusters()) {
      if (c.tree)
        continue;
      cyclic.emplace_back(c.vars.begin(), c.vars.end());
      bool shift = true;
      for (int v : c.vars)
        shift = shift && type[v] == T_SHIFT;
      never = never || shift;
      worst = std::max(worst, contraction(i.m, c.vars));
    }
    if (threw) {
      if (cyclic.empty() || !must)
        wrong("wrong-strategy", "the strategy was invoked although no cluster needed it");
      dirty = true; // nothing has been computed
      return;
    }
    if (strat == 4 && must && !cyclic.empty())
      wrong("wrong-strategy", "the user supplied strategy threw and the query went on");
    if (!cyclic.empty())
      sim_nontrivial();
    if (!i.ba()->hasPropagationResult())
      wrong("wrong-result", "no result after a query");
    const auto &res = i.ba()->getLastPropagationResult();
    if (must) {
      context_since = false;
      dirty = false;
      last = kind;
    }
    if (strat == 1 || strat == 2 || strat == 3) {
      bool fresh = !seen->calls.empty();
      if (must && !cyclic.empty() && !fresh)
        wrong("wrong-strategy", "the user supplied strategy was not invoked for %zu cyclic clusters",
              cyclic.size());
      if (fresh) {
        auto left = cyclic;
        bool all = true;
        for (auto &c : seen->calls) {
          auto it = std::find(left.begin(), left.end(), c.vars);
          if (it == left.end())
            wrong("wrong-strategy", "the user supplied strategy was invoked for a cluster of %zu variables that "
                                    "is acyclic, or invoked twice",
                  c.vars.size());
          left.erase(it);
          all = all && c.result;
          if (c.kind != kind || c.iters != iters || (int)c.threads != threads)
            wrong("wrong-strategy", "the strategy was invoked with other parameters than the ones requested");
        }
        if (!left.empty())
          wrong("wrong-strategy", "the strategy was not invoked for every cyclic cluster");
        if (res.was_completed != all)
          wrong("wrong-result", "completion is reported as %d, the strategy returned %d", (int)res.was_completed,
                (int)all);
      }
    }
    if (cyclic.empty() && must && !res.was_completed)
      wrong("wrong-result", "a model without cycles is reported as not completed");
    if (must && (strat == 0 || strat == 1)) {
      if ((never || (iters == 0 && !cyclic.empty())) && res.was_completed)
        wrong("not-converged", "reported as completed although a cluster %s; iterations %zu",
              never ? "can not converge" : "got no iteration", iters);
      if (kind == strct::PropagationKind::SUM && !cyclic.empty() && worst < 0.55 && iters >= 30 && !res.was_completed)
        wrong("wrong-result", "weakly coupled clusters (contraction %g) reported as not completed after %zu "
                              "iterations",
              worst, iters);
    }
    if (kind == strct::PropagationKind::SUM) {
      double sum = 0;
      for (float x : marg)
        sum += x;
      if ((int)marg.size() != w.u[var].size || !(std::fabs(sum - 1) < 1e-3))
        wrong("wrong-marginal", "marginal of %s is not a distribution (sum %g)", w.u[var].name.c_str(), sum);
      auto c = i.m.clusterOf(var);
      if (must && iters == 0 && strat < 2 && !c.tree) {
        // no message may have been computed
        Mirror alone = i.m;
        alone.facs.clear();
        for (auto &e : i.m.facs) {
          bool hidden_pair = e.f->v.size() == 2 && i.m.ev[e.f->v[0]] < 0 && i.m.ev[e.f->v[1]] < 0;
          if (!hidden_pair)
            alone.facs.push_back(e);
        }
        std::vector<double> local;
        if (alone.marginal(var, local))
          for (size_t k = 0; k < marg.size(); ++k)
            if (!(std::fabs(local[k] - marg[k]) < 1e-3))
              wrong("wrong-effort", "messages were computed although the maximum number of iterations is 0: marginal "
                                    "of %s is %g at %zu instead of %g",
                    w.u[var].name.c_str(), marg[k], k, local[k]);
      }
      double q = contraction(i.m, c.vars);
      std::vector<std::vector<double>> want;
      if (res.was_completed && !context_since && strat < 2 && !c.tree && q < 0.7 && fixed_point(i.m, c.vars, want)) {
        sim_probe(1);
        sim_eval(1);
        double tol = 2e-3 + 4e-3 * q / (1 - q);
        for (size_t k = 0; k < marg.size(); ++k)
          if (!(std::fabs(want[var][k] - marg[k]) < tol))
            wrong("wrong-marginal", "marginal of %s is %g at %zu, the fixed point has %g (contraction %g); %s",
                  w.u[var].name.c_str(), marg[k], k, want[var][k], q, i.m.text().c_str());
      }
    }
  }

  // work grows with the permitted number of iterations
  void cost(int threads) {
    Inst &i = m();
    int var = -1;
    {
      SimOff off;
      for (auto &c : i.m.clusters()) {
        bool shift = !c.tree;
        for (int v : c.vars)
          shift = shift && type[v] == T_SHIFT;
        if (shift)
          var = c.vars[0];
      }
      if (var < 0 || strat > 1)
        return;
    }
    uint64_t steps[2];
    size_t its[2] = {2, 16};
    for (int k = 0; k < 2; ++k) {
      i.ba()->setPropagationContext(strct::PropagationContext{its[k]});
      i.q()->getMAP(w.u[var].ptr, 1); // so that the next one is computed
      i.es()->setEvidence(w.u[var].ptr, 0);
      i.er()->removeEvidence(w.u[var].ptr);
      uint64_t s = sim_allocs();
      i.q()->getMarginalDistribution(w.u[var].ptr, threads);
      steps[k] = sim_allocs() - s;
    }
    SimOff off;
    sim_eval(1);
    sim_probe(2);
    i.ba()->setPropagationContext(strct::PropagationContext{iters});
    if (steps[0] > 200 && steps[0] * 2 > steps[1])
      wrong("wrong-effort", "%zu iterations take %llu allocations, %zu iterations %llu: the configured maximum is not "
                            "respected",
            its[0], (unsigned long long)steps[0], its[1], (unsigned long long)steps[1]);
    dirty = true;
    i.es()->setEvidence(w.u[var].ptr, 0);
    i.er()->removeEvidence(w.u[var].ptr);
  }

  void step(const Op &o) {
    sim_hash((uint64_t)o[0] * 31 + (uint64_t)o[1] * 7 + (uint64_t)o[2]);
    int nv = (int)w.u.size();
    switch (o[0]) {
    case L_BLOCK:
      block((int)(o[1] % (nv / BLOCK)), (int)o[2], (uint64_t)o[3]);
      break;
    case L_LINK: {
      int a = (int)(o[1] % nv), b = (int)(o[2] % nv);
      if (a == b || !m().m.has(a) || !m().m.has(b))
        break;
      if (m().m.observed(a) || m().m.observed(b) || m().m.connected(a, b))
        break;
      Rng r((uint64_t)o[3]);
      for (int v : {a, b})
        if (type[v] == T_SHIFT)
          return; // keep these isolated
      put({a, b}, values(r, (size_t)w.u[a].size * w.u[b].size, 0.9, 1.1));
      break;
    }
    case L_EV:
      // (a never converging ring together with evidence is contradictory)
      if (m().m.has((int)(o[1] % nv)) && type[o[1] % nv] != T_SHIFT) {
        w.setEv(m(), (int)(o[1] % nv), (int)o[2], o[3]);
        dirty = true;
      }
      break;
    case L_REM:
      if (w.remEv(m(), (int)(o[1] % nv), o[2]))
        dirty = true;
      break;
    case L_CTX:
      iters = (size_t)o[1];
      m().ba()->setPropagationContext(strct::PropagationContext{iters});
      context_since = true;
      break;
    case L_STRAT:
      strat = (int)o[1];
      context_since = true;
      if (strat == 0)
        m().ba()->setLoopyPropagationStrategy(std::make_unique<strct::BaselineLoopyPropagator>());
      else {
        seen->mode = strat;
        m().ba()->setLoopyPropagationStrategy(std::make_unique<Strategy>(seen));
      }
      break;
    case L_QUERY:
      query(o[1] ? strct::PropagationKind::MAP : strct::PropagationKind::SUM, (int)(o[2] % nv), (int)o[3], o[4]);
      break;
    case L_COST:
      cost((int)o[1]);
      break;
    }
  }
};

void generate(Rng &r, int tier, Ops &ops, SimCfg &) {
  int blocks = (int)r.range(1, tier ? 4 : 3);
  ops.push_back({{blocks, (int64_t)(r.next() >> 4), (int64_t)r.below(2)}});
  for (int b = 0; b < blocks; ++b) {
    static const int types[] = {T_WEAK, T_WEAK, T_WEAK, T_MID, T_SHIFT, T_SHIFT, T_TREE};
    ops.push_back({{L_BLOCK, b, types[r.below(7)], (int64_t)(r.next() >> 4)}});
  }
  int nv = blocks * BLOCK;
  int n = (int)r.range(3, tier ? 16 : 9);
  static const int its[] = {0, 1, 2, 5, 12, 30, 40, 40, 60};
  if (r.chance(0.7))
    ops.push_back({{L_STRAT, r.chance(0.8) ? 1 : (int64_t)r.range(2, 4)}});
  if (r.chance(0.7))
    ops.push_back({{L_CTX, its[r.below(9)]}});
  for (int k = 0; k < n; ++k) {
    int th = r.chance(0.005) ? (int)r.range(9, 20) : r.chance(0.3) ? 1 : r.chance(0.1) ? (int)r.range(5, 8) : (int)r.range(2, 4);
    int64_t s = (int64_t)(r.next() >> 4), v = (int64_t)r.below(nv);
    switch (r.below(12)) {
    case 0:
      ops.push_back({{L_LINK, v, (int64_t)r.below(nv), s}});
      break;
    case 1:
    case 2:
      ops.push_back({{L_EV, v, (int64_t)r.below(4), (int64_t)r.below(2)}});
      break;
    case 3:
      ops.push_back({{L_REM, v, (int64_t)r.below(2)}});
      break;
    case 4:
      ops.push_back({{L_CTX, its[r.below(9)]}});
      break;
    case 5:
      ops.push_back({{L_STRAT, (int64_t)r.below(5)}});
      break;
    case 6:
      ops.push_back({{L_COST, r.chance(0.6) ? 1 : 2}});
      break;
    default:
      ops.push_back({{L_QUERY, r.chance(0.3), v, th, (int64_t)r.below(2)}});
    }
  }
}

void run(const Ops &ops) {
  Runner r;
  r.w.asserts = A_LOOPY;
  int blocks = (int)ops[0][0];
  r.w.makeVars(blocks * BLOCK, (uint64_t)ops[0][1], 3, 0);
  {
    SimOff off;
    // the never converging rings need three values
    r.type.assign(r.w.u.size(), -1);
    for (size_t k = 1; k < ops.size(); ++k)
      if (ops[k][0] == L_BLOCK && ops[k][2] == T_SHIFT)
        for (int j = 0; j < BLOCK; ++j) {
          auto &v = r.w.u[ops[k][1] % blocks * BLOCK + j];
          v.size = 3;
          v.ptr = categoric::make_variable(3, v.name);
        }
  }
  r.w.addModel(ops[0][2]);
  r.seen->w = &r.w;
  r.m().ba()->setPropagationContext(strct::PropagationContext{r.iters});
  for (size_t k = 1; k < ops.size(); ++k)
    r.step(ops[k]);
  for (int v : std::vector<int>(r.m().m.order))
    r.query(strct::PropagationKind::SUM, v, 2, false);
}
size_t pin(const Ops &) { return 1; }
RegisterScenario reg({"C06", generate, run, pin});
} // namespace
