// C14: frequencies of long sample runs. C15: train sets of conditional models.
#include "world.h"

#include <algorithm>
#include <cmath>

namespace {
using namespace W;

// the model: moderate tables, so that the chain forgets its start quickly
struct Build {
  World w;
  Inst &i() { return *w.inst.back(); }
  void put(Inst &m, const std::vector<int> &v, Rng &r, int kind, double spread) {
    if (v.size() == 2 && (v[0] == v[1] || m.m.connected(v[0], v[1])))
      return;
    FacPtr f;
    {
      SimOff off;
      f = std::make_shared<FacSpec>();
      f->v = v;
      size_t n = 1;
      for (int x : v)
        n *= w.u[x].size;
      for (size_t k = 0; k < n; ++k)
        f->raw.push_back((float)(kind ? spread * r.unit() : std::exp(spread * (r.unit() - 0.5))));
      if (kind) {
        f->exp = true;
        f->w = r.chance(0.5) ? 1.0 : -1.0;
      }
    }
    if (kind == 2) {
      auto o = w.makeExp(*f);
      m.ft()->addTunableFactor(o);
      f->obj = o;
    } else if (kind == 1) {
      auto o = w.makeExp(*f);
      m.fc()->addConstFactor(o);
      f->obj = o;
    } else {
      auto o = w.makeFactor(*f);
      m.fc()->addConstFactor(o);
      f->obj = o;
    }
    w.noteInserted(m, v, f, kind == 2, -1);
  }
  // n variables; shape: chain, star, independent, ring
  void make(int n, uint64_t seed, int max_size, bool graph, int shape, double spread) {
    w.asserts = A_SAMPLE;
    w.makeVars(n, seed, max_size, 0);
    Inst &m = w.addModel(graph);
    Rng r(seed ^ 77);
    auto kind = [&] { return graph ? (int)r.below(2) : (int)r.below(3); };
    std::vector<int> p;
    for (int k = 0; k < n; ++k)
      p.push_back(k);
    for (int k = n; k > 1; --k)
      std::swap(p[k - 1], p[r.below(k)]);
    for (int k = 1; k < n && shape != 2; ++k) {
      int a = p[shape == 1 ? 0 : k - 1], b = p[k];
      if (r.chance(0.5))
        std::swap(a, b);
      put(m, {a, b}, r, kind(), spread);
    }
    if (shape == 3 && n > 2)
      put(m, {p[n - 1], p[0]}, r, kind(), spread);
    for (int v : p)
      if (shape == 2 || r.chance(0.5))
        put(m, {v}, r, kind(), 1.2 * spread);
  }
};

// exact joint distribution of two hidden variables (any structure)
bool pair_exact(const Mirror &m, int a, int b, std::vector<double> &out) { return m.joint({a, b}, out); }

// how far the frequencies of values and pairs of values of the hidden variables are from the exact
// probabilities: the largest deviation in standard errors, these estimated from batches of consecutive
// samples (a chain has correlated samples). Deviations below `least` are ignored.
double deviation(const Mirror &m, const std::vector<std::vector<size_t>> &all, size_t skip, size_t batches, double least,
                 std::string &what) {
  double worst = 0;
  const size_t len = (all.size() - skip) / batches;
  const size_t n = len * batches;
  auto hid = m.hidden();
  std::vector<int> pos(m.u->size());
  for (size_t k = 0; k < m.order.size(); ++k)
    pos[m.order[k]] = (int)k;
  for (size_t i = 0; i < hid.size(); ++i)
    for (size_t j = i; j < hid.size(); ++j) {
      int a = hid[i], b = hid[j];
      std::vector<double> want;
      if (a == b) {
        if (!m.marginal(a, want))
          continue;
      } else if (!pair_exact(m, a, b, want))
        continue;
      int sb = (*m.u)[b].size;
      std::vector<std::vector<double>> part(batches, std::vector<double>(want.size(), 0));
      for (size_t k = 0; k < n; ++k) {
        auto &c = all[all.size() - n + k];
        part[k / len][a == b ? c[pos[a]] : c[pos[a]] * sb + c[pos[b]]] += 1.0 / (double)len;
      }
      for (size_t k = 0; k < want.size(); ++k) {
        double mean = 0, var = 0;
        for (auto &q : part)
          mean += q[k] / (double)batches;
        for (auto &q : part)
          var += (q[k] - mean) * (q[k] - mean) / (double)(batches - 1);
        // never less than what independent samples would have
        double se = std::sqrt(std::max(var / (double)batches, (want[k] * (1 - want[k]) + 1.0 / n) / (double)n));
        double z = std::fabs(mean - want[k]) < least ? 0 : std::fabs(mean - want[k]) / se;
        if (z > worst) {
          worst = z;
          char t[300];
          snprintf(t, sizeof t, "%s,%s entry %zu has frequency %.3f, probability %.3f (%.1f standard errors)",
                   (*m.u)[a].name.c_str(), (*m.u)[b].name.c_str(), k, mean, want[k], z);
          what = t;
        }
      }
    }
  return worst;
}

enum Kind {
  S_EV = 0,  // var val
  S_REM,     // var
  S_STAT,    // n threads seed(-1 none) delta transient
  S_WEIGHTS, // seed
  S_QUERY,   // var threads
  // C15
  S_FULL,    // n threads seed
  S_PART,    // n threads seed fraction in 1/1000
  S_BAD,     // which
  S_COND,    // n threads seed: frequencies for every evidence
};

void calm(Rng &r, SimCfg &c) {
  // long runs: mostly little preemption, and room for waiting threads that poll
  c.step_cap = 1500000000ull;
  if (r.chance(0.8)) {
    c.strat = r.chance(0.5) ? ST_DEFAULT : ST_RANDOM;
    c.p_sync = 32;
    c.plain_gap = 0;
  } else
    c.plain_gap = c.plain_gap && c.plain_gap < 500 ? 3000 : c.plain_gap;
}

void gen14(Rng &r, int tier, Ops &ops, SimCfg &cfg) {
  calm(r, cfg);
  int nv = (int)r.range(2, r.chance(0.1) ? 6 : 4);
  ops.push_back({{nv, (int64_t)(r.next() >> 4), r.chance(0.6) ? 2 : r.chance(0.9) ? 3 : 6, (int64_t)r.below(2), (int64_t)r.below(4)}});
  int n = (int)r.range(1, tier ? 4 : 2);
  while (n--) {
    if (r.chance(0.3))
      ops.push_back({{S_EV, (int64_t)r.below(nv), (int64_t)r.below(3)}});
    if (r.chance(0.1))
      ops.push_back({{S_REM, (int64_t)r.below(nv)}});
    if (r.chance(0.15))
      ops.push_back({{S_WEIGHTS, (int64_t)(r.next() >> 4)}});
    if (r.chance(0.15))
      ops.push_back({{S_QUERY, (int64_t)r.below(nv), (int64_t)r.range(1, 3)}});
    int64_t seed = r.chance(0.4)   ? -1
                   : r.chance(0.4) ? (int64_t)r.below(12) // engines seeded with close numbers may be related
                   : r.chance(0.4) ? (int64_t)r.below(100)
                                   : (int64_t)(r.next() >> (1 + r.below(40)));
    int th = r.chance(0.35) ? 1 : r.chance(0.1) ? (int)r.range(5, 8) : (int)r.range(2, 4);
    int64_t many = th < 3 && r.chance(0.05) ? 6 : 1; // now and then with more precision
    ops.push_back({{S_STAT, (th == 1 ? 700 : th < 5 ? 400 : 200) * many, th, seed, (int64_t)r.range(2, 3), r.chance(0.5) ? 8 : -1}});
  }
}

struct Fast {
  Fast() { sim_fast(1); }
  ~Fast() { sim_fast(0); }
};

void stat(Build &b, const Op &o) {
  Inst &i = b.i();
  if (i.m.order.empty() || i.m.hidden().empty())
    return;
  int n = (int)o[1];
  // a stretch with everything on, then the long one
  b.w.qSamples(i, 3, (int)o[2], o[3], (int)o[4], 1);
  Fast fast;
  auto s = b.w.qSamples(i, n, (int)o[2], o[3], (int)o[4], (int)o[5] < 0 ? 20 : (int)o[5]);
  std::string what;
  double d;
  {
    SimOff off;
    sim_eval(1);
    d = deviation(i.m, s, 0, 20, 0, what);
  }
  sim_nontrivial();
  if (d <= 3)
    return;
  sim_probe(0);
  // certainty: more and more samples, none of those that raised the suspicion. The same seed is likely to
  // lead to the same samples, so these are the first ones.
  static const struct {
    int from, n;
    size_t batches;
    double z, least;
  } stage[] = {{1, 4, 32, 4, 0}, {5, 16, 64, 8, 0.015}};
  for (auto &g : stage) {
    auto more = b.w.qSamples(i, (g.from + g.n) * n, (int)o[2], o[3], (int)o[4], (int)o[5] < 0 ? 20 : (int)o[5]);
    SimOff off;
    d = deviation(i.m, more, (size_t)g.from * n, g.batches, g.least, what);
    if (d <= g.z)
      return;
  }
  SimOff off;
  wrong("wrong-frequencies", "%d samples with %lld threads, seed %lld: %s; %s", 16 * n, (long long)o[2],
        (long long)o[3], what.c_str(), i.m.text().c_str());
}

void run14(const Ops &ops) {
  Build b;
  const Op &c = ops[0];
  b.make((int)c[0], (uint64_t)c[1], (int)c[2], c[3], (int)c[4], 1.6);
  for (size_t k = 1; k < ops.size(); ++k) {
    const Op &o = ops[k];
    sim_hash((uint64_t)o[0] * 31 + (uint64_t)o[1]);
    Inst &i = b.i();
    switch (o[0]) {
    case S_EV:
      if (i.m.has((int)(o[1] % c[0])))
        b.w.setEv(i, (int)(o[1] % c[0]), (int)o[2], false);
      break;
    case S_REM:
      b.w.remEv(i, (int)(o[1] % c[0]), false);
      break;
    case S_WEIGHTS: {
      if (!i.tg())
        break;
      // keep the coupling moderate
      Rng r((uint64_t)o[1]);
      std::vector<float> w;
      for (size_t g = 0; g < i.m.groups.size(); ++g)
        w.push_back((float)(r.unit() * 2 - 1));
      i.tg()->setWeights(w);
      SimOff off;
      for (size_t g = 0; g < i.m.groups.size(); ++g)
        for (int f : i.m.groups[g])
          i.m.facs[f].f->w = w[g];
      break;
    }
    case S_QUERY:
      b.w.qMarginal(i, (int)(o[1] % c[0]), (int)o[2], false);
      break;
    case S_STAT:
      stat(b, o);
      break;
    }
  }
}

// ------------------------------------------------------------------------ C15
void gen15(Rng &r, int tier, Ops &ops, SimCfg &cfg) {
  int nv = (int)r.range(2, tier ? 6 : 5);
  int64_t mask = (int64_t)r.range(1, (1 << nv) - 2);
  ops.push_back({{nv, (int64_t)(r.next() >> 4), r.chance(0.4) ? 2 : r.chance(0.5) ? 3 : 4, mask, (int64_t)r.below(4),
                  (int64_t)r.below(2)}});
  int n = (int)r.range(1, tier ? 6 : 4);
  while (n--) {
    int th = r.chance(0.005) ? (int)r.range(9, 20) : r.chance(0.4) ? 1 : r.chance(0.06) ? (int)r.range(4, 8) : (int)r.range(2, 3);
    int64_t seed = r.chance(0.4) ? -1 : (int64_t)r.below(1000);
    switch (r.below(9)) {
    case 0:
    case 1:
    case 2:
      ops.push_back({{S_FULL, r.chance(0.05) ? (int64_t)r.range(4, 20) : (int64_t)r.range(1, 3), th, seed}});
      break;
    case 3:
    case 4:
    case 5: {
      static const int f[] = {0, 1, 10, 50, 100, 200, 300, 333, 400, 500, 600, 700, 800, 900, 990, 999};
      ops.push_back({{S_PART, r.chance(0.05) ? (int64_t)r.range(4, 20) : (int64_t)r.range(1, 3), th, seed, r.chance(0.7) ? f[r.below(16)] : (int64_t)r.below(1000)}});
      break;
    }
    case 6:
      ops.push_back({{S_BAD, (int64_t)r.below(6), th}});
      break;
    case 7:
      ops.push_back({{S_QUERY, (int64_t)r.below(nv), th}});
      break;
    default:
      if (r.chance(0.3)) {
        calm(r, cfg);
        ops.push_back({{S_COND, 300, th, seed}});
      }
    }
  }
}

void run15(const Ops &ops) {
  Build b;
  const Op &c = ops[0];
  int nv = (int)c[0];
  b.make(nv, (uint64_t)c[1], (int)c[2], false, (int)c[4], 1.6);
  Inst *src = b.w.inst[0].get();
  // no tunable factor may be attached to observed variables only
  {
    bool any = false;
    for (int v : std::vector<int>(src->m.order))
      if (c[3] >> v & 1) {
        bool ok = true;
        for (auto &e : src->m.facs)
          if (e.tunable) {
            bool all = true;
            for (int x : e.f->v)
              all = all && (x == v || src->m.ev[x] >= 0);
            ok = ok && !all;
          }
        if (ok) {
          b.w.setEv(*src, v, 0, false);
          any = true;
        }
      }
    if (!any || src->m.hidden().empty())
      return;
  }
  b.w.asserts = A_REPORT; // a faulty copy would make all what follows meaningless
  Inst *m = b.w.absorb(*src, c[5], 2);
  if (!m)
    return;
  b.w.asserts = A_SAMPLE;
  for (size_t k = 1; k < ops.size(); ++k) {
    const Op &o = ops[k];
    sim_hash((uint64_t)o[0] * 31 + (uint64_t)o[1] * 7 + (uint64_t)o[4]);
    strct::GibbsSampler::SamplesGenerationContext ctx;
    ctx.samples_number = (size_t)o[1];
    ctx.delta_iterations = o[0] == S_COND ? 2 : 1;
    ctx.transient = o[0] == S_COND ? 10 : 1;
    if (o[0] != S_QUERY && o[0] != S_BAD && o[3] >= 0)
      ctx.seed = (size_t)o[3];
    switch (o[0]) {
    case S_QUERY:
      b.w.qMarginal(*m, (int)(o[1] % nv), (int)o[2], false, false);
      break;
    case S_BAD: {
      static const float bad[] = {-0.001f, 1.001f, -1.f, 2.f, 1e9f, -1e-6f};
      ctx.samples_number = 1;
      bool threw = false;
      try {
        m->crf->makeTrainSet(ctx, bad[o[1] % 6], (size_t)o[2]);
      } catch (const std::exception &) {
        threw = true;
      }
      SimOff off;
      sim_eval(1);
      sim_count_fault(FI_REJECT);
      if (!threw)
        wrong("not-rejected", "a train set for the fraction %g was not rejected", bad[o[1] % 6]);
      break;
    }
    case S_FULL:
    case S_PART:
    case S_COND: {
      double f = o[0] == S_PART ? o[4] / 1000.0 : 1.0;
      if (o[0] == S_COND)
        sim_fast(1);
      auto set = o[2] != 1       ? m->crf->makeTrainSet(ctx, (float)f, (size_t)o[2])
                 : (float)f == 1 ? m->crf->makeTrainSet(ctx)
                                 : m->crf->makeTrainSet(ctx, (float)f);
      sim_fast(0);
      std::vector<int> obs; // in the order reported
      for (const auto &v : m->st()->getObservedVariables())
        for (int j = 0; j < nv; ++j)
          if (b.w.u[j].ptr == v)
            obs.push_back(j);
      SimOff off;
      sim_eval(1);
      sim_nontrivial();
      std::vector<int> pos(nv, -1);
      size_t nvars = 0;
      for (const auto &v : m->st()->getAllVariables()) {
        for (int j = 0; j < nv; ++j)
          if (b.w.u[j].ptr == v)
            pos[j] = (int)nvars;
        ++nvars;
      }
      size_t M = 1;
      for (int v : obs)
        M *= b.w.u[v].size;
      std::map<size_t, size_t> count;
      std::map<size_t, std::vector<std::vector<size_t>>> by;
      for (auto &e : set) {
        if (e.size() != nvars)
          wrong("wrong-train-set", "an element has %zu values for %zu variables", e.size(), nvars);
        size_t idx = 0;
        for (int j = 0; j < nv; ++j)
          if (pos[j] >= 0 && (int)e[pos[j]] >= b.w.u[j].size)
            wrong("wrong-train-set", "value %zu of %s is outside its domain", e[pos[j]], b.w.u[j].name.c_str());
        for (int v : obs)
          idx = idx * b.w.u[v].size + e[pos[v]];
        ++count[idx];
        if (o[0] == S_COND)
          by[idx].push_back(e);
      }
      for (auto &[idx, n] : count)
        if (n != ctx.samples_number)
          wrong("wrong-train-set", "evidence combination %zu has %zu samples instead of %zu; fraction %g of %zu", idx,
                n, ctx.samples_number, f, M);
      if (f == 1.0) {
        if (count.size() != M)
          wrong("wrong-train-set", "%zu of %zu evidence combinations were visited", count.size(), M);
      } else {
        size_t lo = std::max<size_t>(1, (size_t)std::max(0.0, std::floor(M * f - 1e-3)));
        size_t hi = std::max<size_t>(1, (size_t)std::ceil(2 * M * f + 1e-3));
        if (count.size() < lo || count.size() > hi)
          wrong("wrong-train-set", "%zu of %zu evidence combinations were visited for the fraction %g", count.size(), M,
                f);
        size_t prev = 0, gap = 0, n = 0;
        for (auto &[idx, x] : count) {
          if (n == 1)
            gap = idx - prev;
          if (n > 1 && idx - prev != gap)
            wrong("wrong-train-set", "the evidence combinations visited are not regularly spaced (%zu after %zu, "
                                     "spacing %zu)",
                  idx, prev, gap);
          prev = idx;
          ++n;
        }
      }
      if (o[0] == S_COND) {
        Mirror mm = m->m;
        for (auto &[idx, s] : by) {
          size_t x = idx;
          for (size_t j = obs.size(); j-- > 0;) {
            mm.ev[obs[j]] = (int)(x % b.w.u[obs[j]].size);
            x /= b.w.u[obs[j]].size;
          }
          std::string what;
          sim_eval(1);
          if (deviation(mm, s, 0, 20, 0.08, what) > 9)
            wrong("wrong-frequencies", "elements drawn for evidence combination %zu: %s; %s", idx, what.c_str(),
                  mm.text().c_str());
        }
      }
      break;
    }
    }
  }
}
size_t pin(const Ops &) { return 1; }
RegisterScenario reg14({"C14", gen14, run14, pin});
RegisterScenario reg15({"C15", gen15, run15, pin});
} // namespace
