// C04, C05, C07, C08, C09, C10, C11, C12: histories of requests to models,
// checked against the executable reference model.
#include "world.h"

#include <EasyFactorGraph/factor/ImageFinder.h>
#include <EasyFactorGraph/io/json/Exporter.h>
#include <EasyFactorGraph/io/json/Importer.h>

#include <cmath>
#include <string.h>
#include <thread>

namespace {
using namespace W;

enum Kind {
  OP_FACTOR = 0, // inst v1 v2 kind seed zeros share
  OP_SET_EV,     // inst var val byname
  OP_REM_EV,     // inst var byname
  OP_REM_SET,    // inst mask byname
  OP_REM_ALL,    // inst
  OP_WEIGHTS,    // inst seed
  OP_MARGINAL,   // inst var threads byname
  OP_MAP,        // inst var threads byname
  OP_HIDDEN_MAP, // inst threads
  OP_JOINT,      // inst seed threads byname
  OP_ALL,        // inst threads
  OP_GRADIENT,   // inst seed n threads
  OP_SAMPLES,    // inst n threads seed delta
  OP_REPORT,     // inst
  OP_REJECT,     // inst k seed
  OP_ABSORB,     // inst copy target
  OP_DESTROY,    // inst
  OP_OOM,        // nth persistent, then another operation
  OP_COND_EV,    // inst seed (conditional model)
  OP_GRAD_REPEAT, // inst seed n threads threads2: several gradients in a row
  OP_TWICE,       // inst n threads seed delta transient between: the same samples again
  OP_REFUSED,     // nth persistent, then another operation
  OP_LAST,        // nth persistent, then another operation: whatever comes of it, the history ends
  OP_ROUNDTRIP,   // inst threads graph: exported and imported
  OP_KINDS
};

struct Profile {
  const char *name;
  unsigned asserts;
  int weight[OP_KINDS];
  int min_ops, max_ops;
  double graph;     // probability of a plain graph
  double zeros;     // probability of tables with zeros
  double loops;     // probability of additional edges
  double tunable;   // probability that a factor is tunable
  double share;
  bool conditional; // start with a conditional model
};

//                                   F  sE rE rS rA W  Ma MP HM J  A  G  S  R  X  B  D  O  C  GR T  TF L  RT
const Profile profiles[] = {
    {"C04", A_ANSWER,               {2, 5, 3, 1, 1, 0, 7, 5, 3, 8, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 3, 12, 0.4, 0.35, 0.35, 0.2, 0.2, false},
    {"C05", A_ANSWER,               {6, 6, 4, 2, 2, 4, 6, 5, 2, 3, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0}, 5, 18, 0.3, 0.2, 0.3, 0.4, 0.4, false},
    {"C07", A_REPORT | A_STRUCT,    {6, 7, 5, 3, 2, 1, 3, 3, 1, 1, 0, 1, 1, 9, 2, 2, 0, 0, 0, 0, 0}, 5, 18, 0.4, 0.1, 0.6, 0.3, 0.3, false},
    {"C08", A_ANSWER | A_REPORT | A_WEIGHT,
                                    {4, 5, 2, 1, 1, 2, 3, 2, 1, 1, 2, 0, 0, 5, 16, 1, 0, 0, 2, 0, 0}, 5, 16, 0.3, 0.1, 0.2, 0.4, 0.4, false},
    {"C09", A_ANSWER | A_SAMPLE,    {3, 4, 2, 1, 1, 1, 2, 2, 1, 2, 1, 0, 0, 0, 0, 0, 0, 12, 0, 0, 0}, 4, 12, 0.5, 0.1, 0.25, 0.3, 0.3, false},
    {"C10", A_ANSWER | A_REPORT | A_WEIGHT,
                                    {6, 3, 1, 1, 1, 9, 4, 3, 1, 2, 2, 1, 0, 8, 2, 5, 2, 0, 1, 0, 0}, 5, 18, 0.0, 0.1, 0.15, 0.8, 0.6, false},
    {"C11", A_GRAD,                 {3, 3, 2, 1, 1, 4, 2, 2, 0, 1, 0, 8, 1, 0, 0, 1, 0, 0, 0, 5, 0}, 4, 12, 0.0, 0.1, 0.0, 0.8, 0.5, false},
    {"C12", A_GRAD | A_ANSWER,      {0, 0, 0, 0, 0, 3, 5, 3, 1, 2, 1, 6, 1, 1, 1, 1, 0, 0, 9, 4, 0}, 4, 12, 0.0, 0.1, 0.3, 0.7, 0.4, true},
    {"C19", A_ANSWER | A_REPORT | A_WEIGHT | A_GRAD | A_SAMPLE,
                                    {4, 4, 2, 1, 1, 4, 4, 4, 1, 3, 2, 2, 2, 3, 0, 3, 2, 0, 0, 0, 0, 0, 0, 2}, 0, 4, 0.3, 0.1, 0.2, 0.5, 0.4, false},
    {"C13", A_SAMPLE,               {3, 5, 3, 1, 1, 2, 1, 1, 1, 1, 0, 0, 6, 0, 0, 1, 0, 0, 1, 0, 8}, 3, 10, 0.4, 0.15, 0.5, 0.3, 0.3, false},
    {"C25", 0,                      {6, 5, 3, 1, 1, 3, 4, 4, 2, 3, 1, 3, 3, 1, 4, 4, 2, 5, 1, 1, 0, 3, 2}, 4, 14, 0.3, 0.15, 0.35, 0.5, 0.4, false},
    // requests repeated over and over on models that stay
    {"C25+", 0,                     {0, 6, 4, 2, 1, 3, 5, 5, 2, 4, 1, 3, 4, 1, 4, 3, 0, 3, 1, 1, 0, 2, 0}, 1, 6, 0.3, 0.15, 0.35, 0.5, 0.4, false},
};
const Profile *profile(const char *n) {
  for (auto &p : profiles)
    if (!strcmp(p.name, n))
      return &p;
  return nullptr;
}

bool few_threads = false; // several pools at the same time
int threads_of(Rng &r) {
  if (!few_threads && r.chance(0.006))
    return (int)r.range(9, r.chance(0.1) ? 70 : 16);
  return r.chance(0.35) ? 1 : r.chance(0.12) ? (int)r.range(5, 8) : (int)r.range(2, 4);
}
struct FewThreads {
  FewThreads() { few_threads = true; }
  ~FewThreads() { few_threads = false; }
};

// seeds for which a multiplicative congruential engine (the default one) soon draws a number next to zero or one
int64_t extreme_seed(Rng &r) {
  const uint64_t m = 2147483647, inv = 1407677000; // of 16807
  uint64_t x = r.chance(0.5) ? m - 1 - r.below(r.chance(0.5) ? 4 : 64) : 1 + (r.chance(0.7) ? 0 : r.below(8));
  for (uint64_t k = 1 + r.below(r.chance(0.5) ? 8 : 40); k; --k)
    x = x * inv % m;
  return (int64_t)x;
}
int64_t seed_of(Rng &r) { return r.chance(0.2) ? extreme_seed(r) : (int64_t)r.below(1000); }

Op query_op(Rng &r, int nv) {
  switch (r.below(9)) {
  case 0:
  case 1:
    return {{OP_MARGINAL, (int64_t)r.below(4), (int64_t)r.below(nv), threads_of(r), (int64_t)r.below(2)}};
  case 2:
  case 3:
    return {{OP_MAP, (int64_t)r.below(4), (int64_t)r.below(nv), threads_of(r), (int64_t)r.below(2)}};
  case 4:
    return {{OP_HIDDEN_MAP, (int64_t)r.below(4), threads_of(r)}};
  case 5:
  case 6:
    return {{OP_JOINT, (int64_t)r.below(4), (int64_t)(r.next() >> 4), threads_of(r), (int64_t)r.below(2)}};
  default:
    return {{OP_SAMPLES, (int64_t)r.below(4), (int64_t)r.range(0, 4), threads_of(r), (int64_t)r.below(1000), 1}};
  }
}

void history(const Profile &p, Rng &r, int n, int nv, bool graph, Ops &ops);
void factor_op(const Profile &p, Rng &r, bool graph, int v1, int v2, Ops &ops) {
  bool tun = !graph && r.chance(p.tunable);
  int kind = tun ? (r.chance(0.7) ? World::K_TUN : World::K_TUN_COPY)
                 : (int[]){World::K_CONST, World::K_CONST, World::K_CONST_COPY, World::K_EXP_CONST,
                           World::K_EXP_CONST_COPY}[r.below(5)];
  int share = tun && r.chance(p.share) ? (int)r.range(1, 40) : 0;
  ops.push_back({{OP_FACTOR, (int64_t)(p.conditional ? 0 : r.below(3)), v1, v2, kind, (int64_t)(r.next() >> 4),
                  r.chance(p.zeros), share}});
}

void generate(const Profile &p, Rng &r, int tier, Ops &ops) {
  int nv = (int)r.range(2, tier ? 8 : 7);
  int max_size = r.chance(0.5) ? 2 : r.chance(0.7) ? 3 : 4;
  if (max_size == 4 && nv > 5)
    nv = 5;
  if (max_size == 3 && nv > 6)
    nv = 6;
  // now and then another scale: many variables, or variables with many values
  bool large = false;
  bool hub = false;
  if (r.chance(0.07)) {
    large = true;
    nv = (int)r.range(9, tier ? 40 : 24);
    max_size = r.chance(0.6) ? 2 : 3;
  } else if (r.chance(0.015) && p.asserts != A_SAMPLE) { // very many messages meet in one variable
    large = hub = true;
    nv = (int)r.range(30, tier ? 100 : 60);
    max_size = 2;
  } else if (r.chance(0.07)) {
    nv = (int)r.range(2, 3);
    max_size = (int)r.range(5, r.chance(0.2) ? 40 : 16);
  } else if (r.chance(0.008) && p.asserts != A_SAMPLE) { // one variable with more values than a byte counts
    nv = (int)r.range(2, 3);
    max_size = (int)r.range(250, 300);
  }
  int style = (int)r.below(3);
  bool graph = r.chance(p.graph);
  ops.push_back({{nv, (int64_t)(r.next() >> 4), max_size, style, graph, p.conditional, (int64_t)(r.next() >> 4),
                  (int64_t)(hub ? r.below(3) : 0)}});
  auto factor = [&](int v1, int v2) { factor_op(p, r, graph, v1, v2, ops); };
  // a forest over some of the variables, in random order
  std::vector<std::pair<int, int>> edges;
  int shape = hub ? 2 : (int)r.below(3); // random, chain, star
  int used = (int)r.range(large ? nv * 2 / 3 : 2, nv);
  double drop = r.chance(0.3) ? 0.35 : 0.05;
  for (int k = 1; k < used; ++k)
    if (!r.chance(drop)) {
      int from = shape == 0 ? (int)r.below(k) : shape == 1 ? k - 1 : 0;
      if (hub && r.chance(0.05))
        from = (int)r.below(k);
      edges.push_back({from, k});
    }
  for (size_t k = edges.size(); k > 1; --k)
    std::swap(edges[k - 1], edges[r.below(k)]);
  if (r.chance(p.loops)) {
    int n = (int)r.range(1, 2);
    while (n--)
      edges.push_back({(int)r.below(nv), (int)r.below(nv)});
  }
  for (auto &[a, b] : edges) {
    if (r.chance(0.5))
      std::swap(a, b);
    size_t before = ops.size();
    factor(a, b);
    ops[before].a[1] = 0;
    if (r.chance(0.3)) {
      before = ops.size();
      factor((int)r.below(nv), -1);
      ops[before].a[1] = 0;
    }
  }
  if (p.conditional) {
    int n = (int)r.range(1, std::max(1, nv - 1));
    while (n--)
      ops.push_back({{OP_SET_EV, 0, (int64_t)r.below(nv), (int64_t)r.below(1200), 0}});
    ops.push_back({{OP_ABSORB, 0, (int64_t)r.below(2), 2}});
  }
  bool before = few_threads;
  few_threads |= large || max_size > 16;
  history(p, r, (int)r.range(p.min_ops, tier ? p.max_ops * 2 : p.max_ops), nv, graph, ops);
  few_threads = before;
}

void history(const Profile &p, Rng &r, int n, int nv, bool graph, Ops &ops) {
  auto factor = [&](int v1, int v2) { factor_op(p, r, graph, v1, v2, ops); };
  int total = 0;
  for (int w : p.weight)
    total += w;
  for (int i = 0; i < n; ++i) {
    int x = (int)r.below(total), k = 0;
    while (x >= p.weight[k])
      x -= p.weight[k++];
    int64_t in = (int64_t)r.below(4), v = (int64_t)r.below(nv), by = (int64_t)r.below(2), s = (int64_t)(r.next() >> 4);
    int th = threads_of(r);
    switch (k) {
    case OP_FACTOR: {
      bool bin = r.chance(0.6);
      int a = (int)r.below(nv), b = bin ? (int)r.below(nv) : -1;
      // mostly attach a new leaf
      factor(a, b);
      break;
    }
    case OP_SET_EV:
      ops.push_back({{k, in, v, (int64_t)r.below(1200), by}});
      break;
    case OP_REM_EV:
      ops.push_back({{k, in, v, by}});
      break;
    case OP_REM_SET:
      ops.push_back({{k, in, s, by}});
      break;
    case OP_REM_ALL:
    case OP_REPORT:
    case OP_DESTROY:
      ops.push_back({{k, in}});
      break;
    case OP_WEIGHTS:
    case OP_COND_EV:
      ops.push_back({{k, in, s}});
      break;
    case OP_MARGINAL:
    case OP_MAP:
      ops.push_back({{k, in, v, th, by}});
      break;
    case OP_HIDDEN_MAP:
    case OP_ALL:
      ops.push_back({{k, in, th}});
      break;
    case OP_JOINT:
      ops.push_back({{k, in, s, th, by}});
      break;
    case OP_GRADIENT:
      ops.push_back({{k, in, s, nv <= 4 && th < 4 && !p.conditional && r.chance(0.008) ? (int64_t)r.range(130, 300) : th <= 8 && r.chance(0.06) ? (int64_t)r.range(20, 70) : (int64_t)r.range(1, 6), th}});
      break;
    case OP_GRAD_REPEAT:
      ops.push_back({{k, in, s, (int64_t)r.range(1, 4), th, threads_of(r)}});
      break;
    case OP_SAMPLES:
    case OP_TWICE: {
      bool twice = k == OP_TWICE;
      bool many = nv <= 3 && th < 3 && r.chance(0.008);
      int64_t n = many                         ? (int64_t)r.range(250, 320)
                  : th <= 8 && r.chance(0.05) ? (int64_t)r.range(10, 60)
                                              : (int64_t)r.range(1, twice ? 5 : 4);
      int64_t seed = !twice || r.chance(0.7) ? seed_of(r) : (int64_t)(r.next() >> (1 + r.below(30)));
      // by default the distance grows with the number of samples
      int64_t delta = many ? (int64_t)r.below(2) : (int64_t)r.below(4) - 1;
      Op o{{k, in, n, th, seed, delta}};
      if (twice)
        o.a.insert(o.a.end(), {many ? (int64_t)r.below(4) : (int64_t)r.below(5) - 1, (int64_t)r.below(8)});
      ops.push_back(o);
      break;
    }
    case OP_ROUNDTRIP:
      ops.push_back({{k, in, th, by}});
      break;
    case OP_REJECT:
      ops.push_back({{k, in, (int64_t)r.below(World::REJECTS), s}});
      break;
    case OP_ABSORB:
      // conditional copies are the subject of C12
      ops.push_back({{k, in, (int64_t)r.below(2),
                      r.chance(0.35)         ? (int64_t)(4 + (r.next() >> 5))
                      : p.asserts == A_GRAD ? (r.chance(0.5) ? 0 : 3)
                                            : (int64_t)r.below(4)}});
      break;
    case OP_LAST: {
      Op q{{OP_REPORT, in}};
      switch (r.below(6)) {
      case 0:
      case 1: {
        Ops f;
        factor_op(p, r, graph, (int)v, r.chance(0.7) ? (int)r.below(nv) : -1, f);
        q = f[0];
        break;
      }
      case 2:
        q = {{OP_ABSORB, in, (int64_t)r.below(2),
              r.chance(0.3) ? (int64_t)(4 + (r.next() >> 5)) : (int64_t)r.below(4)}};
        break;
      case 3:
        q = {{OP_SET_EV, in, v, (int64_t)r.below(1200), by}};
        break;
      case 4:
        q = {{OP_REM_EV, in, v, by}};
        break;
      case 5:
        q = {{OP_GRADIENT, in, s, (int64_t)r.range(1, 6), th}};
        break;
      }
      Op o{{OP_LAST, (int64_t)(1 + r.below(1ull << r.range(1, 10))), (int64_t)r.below(2)}};
      for (auto x2 : q.a)
        o.a.push_back(x2);
      ops.push_back(o);
      return;
    }
    case OP_REFUSED:
    case OP_OOM: {
      Op q = query_op(r, nv);
      if (k == OP_REFUSED) {
        if (r.chance(0.2))
          q = {{OP_GRADIENT, in, s, (int64_t)r.range(1, 6), th}};
        Op o{{OP_REFUSED, (int64_t)r.range(1, 3), (int64_t)r.below(2)}};
        for (auto x2 : q.a)
          o.a.push_back(x2);
        ops.push_back(o);
        break;
      }
      if (r.chance(0.5)) // something is cached when the failure comes
        ops.push_back({{(int64_t)(r.chance(0.5) ? OP_MARGINAL : OP_MAP), q[1], v, th, by}});
      Op o{{OP_OOM, (int64_t)(1 + r.below(1ull << r.range(1, 10))), (int64_t)r.below(2) + 2 * (int64_t)r.below(4)}};
      for (auto x2 : q.a)
        o.a.push_back(x2);
      ops.push_back(o);
      break;
    }
    }
  }
}

nlohmann::json to_json(Inst &i) {
  return i.rf    ? io::json::Exporter::exportToJson(*i.rf)
         : i.crf ? io::json::Exporter::exportToJson(*i.crf)
                 : io::json::Exporter::exportToJson(*i.g);
}
// a model made of the exported description gives the same answers
void roundtrip(World &w, Inst &i, int threads, bool graph) {
  nlohmann::json j = to_json(i);
  Inst d;
  d.m = i.m;
  if (graph)
    d.g = std::make_unique<model::Graph>();
  else
    d.rf = std::make_unique<model::RandomField>();
  w.limit(d);
  if (graph)
    io::json::Importer::importFromJson(*d.g, j);
  else
    io::json::Importer::importFromJson(*d.rf, j);
  for (int v : std::vector<int>(i.m.order))
    w.qMarginal(d, v, threads, true);
}

struct Runner {
  World w;
  const Profile &p;
  int last_kind = -1;
  bool ended = false;
  bool frozen = false; // shares tunable factors with a model of another thread
  explicit Runner(const Profile &p) : p(p) { w.asserts = p.asserts; }

  Inst &at(int64_t k) { return *w.inst[(size_t)k % w.inst.size()]; }

  // after a query the structure is reported
  void after(Inst &i, strct::PropagationKind k) {
    if (!i.m.order.empty())
      w.checkStruct(i, k);
  }

  void query(const Op &o) {
    Inst &i = at(o[1]);
    w.fresh(i);
    switch (o[0]) {
    case OP_MARGINAL:
      if (!i.m.has((int)o[2]))
        break;
      w.qMarginal(i, (int)o[2], (int)o[3], o[4]);
      if (!i.m.observed((int)o[2]))
        after(i, strct::PropagationKind::SUM);
      break;
    case OP_MAP:
      if (!i.m.has((int)o[2]))
        break;
      w.qMap(i, (int)o[2], (int)o[3], o[4]);
      if (!i.m.observed((int)o[2]))
        after(i, strct::PropagationKind::MAP);
      break;
    case OP_HIDDEN_MAP:
      w.qHiddenMap(i, (int)o[2]);
      if (!i.m.hidden().empty())
        after(i, strct::PropagationKind::MAP);
      break;
    case OP_JOINT:
      w.qJoint(i, (uint64_t)o[2], (int)o[3], o[4]);
      break;
    case OP_SAMPLES:
      if (!i.m.order.empty())
        w.qSamples(i, (int)o[2], (int)o[3], o[4], (int)o[5], 1);
      break;
    }
  }

  // every answer of a model, as it is
  std::vector<float> answers(Inst &i, int threads) {
    std::vector<float> res;
    for (int v : std::vector<int>(i.m.order)) {
      for (float x : i.q()->getMarginalDistribution(w.u[v].ptr, threads))
        res.push_back(x);
    }
    for (int v : std::vector<int>(i.m.order))
      res.push_back((float)i.q()->getMAP(w.u[v].ptr, threads));
    return res;
  }

  void twice(const Op &o) {
    Inst &i = at(o[1]);
    if (i.m.order.empty())
      return;
    w.fresh(i);
    bool ask = o[7] & 1;
    std::vector<float> before, after;
    if (ask)
      before = answers(i, 1 + (int)(o[7] >> 1 & 1));
    auto a = w.qSamples(i, (int)o[2], (int)o[3], o[4], (int)o[5], (int)o[6]);
    if (ask)
      after = answers(i, 1 + (int)(o[7] >> 1 & 1));
    if (o[7] & 4) // something else in between
      w.qSamples(i, 1 + (int)o[2] % 3, 1 + (int)o[3] % 3, o[4] + 1, 1, 1);
    auto b = w.qSamples(i, (int)o[2], (int)o[3], o[4], (int)o[5], (int)o[6]);
    SimOff off;
    sim_eval(1);
    ++w.answered;
    if (a != b)
      wrong("not-reproducible", "samples drawn again with seed %lld and %lld threads differ; %s", (long long)o[4],
            (long long)o[3], i.m.text().c_str());
    if (i.m.acyclic())
      for (size_t k = 0; k < before.size(); ++k) {
        size_t nm = before.size() - i.m.order.size();
        if (k >= nm) { // several values may be the most likely one
          std::vector<double> mm;
          if (!i.m.maxMarginal(i.m.order[k - nm], mm) ||
              (before[k] < mm.size() && after[k] < mm.size() && mm[(size_t)before[k]] > 1 - 1e-3 &&
               mm[(size_t)after[k]] > 1 - 1e-3))
            continue;
        }
        if (!(std::fabs(before[k] - after[k]) < 1e-4) && before[k] == before[k])
          wrong("wrong-answer", "an answer changed from %g to %g because samples were drawn; %s", before[k],
                after[k], i.m.text().c_str());
      }
  }

  void step(const Op &o) {
    sim_hash((uint64_t)o[0] * 1000003 + (uint64_t)o[2]);
    switch (o[0]) {
    case OP_FACTOR: {
      std::vector<int> v{(int)(o[2] % (int)w.u.size())};
      if (o[3] >= 0)
        v.push_back((int)(o[3] % (int)w.u.size()));
      Inst &i = at(o[1]);
      w.fresh(i);
      w.addFactor(i, v, (int)o[4], (uint64_t)o[5], (int)o[6], frozen ? 0 : (int)o[7]);
      break;
    }
    case OP_SET_EV:
      w.fresh(at(o[1]));
      w.setEv(at(o[1]), (int)(o[2] % (int)w.u.size()), (int)o[3], o[4]);
      break;
    case OP_REM_EV:
      w.fresh(at(o[1]));
      w.remEv(at(o[1]), (int)(o[2] % (int)w.u.size()), o[3]);
      break;
    case OP_REM_SET:
      w.fresh(at(o[1]));
      w.remSet(at(o[1]), (uint64_t)o[2], o[3]);
      break;
    case OP_REM_ALL:
      w.fresh(at(o[1]));
      w.remAll(at(o[1]));
      break;
    case OP_WEIGHTS:
      if (!frozen)
        w.setWeights(at(o[1]), (uint64_t)o[2]);
      break;
    case OP_MARGINAL:
    case OP_MAP:
    case OP_HIDDEN_MAP:
    case OP_JOINT:
    case OP_SAMPLES:
      query(o);
      break;
    case OP_ALL:
      w.fresh(at(o[1]));
      w.qAll(at(o[1]), (int)o[2]);
      break;
    case OP_TWICE:
      twice(o);
      break;
    case OP_GRADIENT:
      w.fresh(at(o[1]));
      w.qGradient(at(o[1]), (uint64_t)o[2], (int)o[3], (int)o[4]);
      break;
    case OP_GRAD_REPEAT: {
      // gradients for several train sets in a row: each one its own answer
      Inst &i = at(o[1]);
      w.fresh(i);
      Rng r((uint64_t)o[2]);
      int n = (int)r.range(2, 4);
      for (int k = 0; k < n; ++k)
        w.qGradient(i, r.next(), (int)(k % 2 ? o[3] : 1 + r.below(5)), (int)(k % 2 ? o[4] : o[5]));
      break;
    }
    case OP_REPORT:
      w.fresh(at(o[1]));
      w.checkReport(at(o[1]));
      break;
    case OP_ROUNDTRIP:
      w.fresh(at(o[1]));
      roundtrip(w, at(o[1]), (int)o[2], o[3]);
      break;
    case OP_REJECT: {
      Inst &i = at(o[1]);
      w.fresh(i);
      if (w.reject(i, (int)o[2], (uint64_t)o[3])) {
        w.checkReport(i);
        if (o[3] & 1)
          w.qAll(i, 1 + (int)(o[3] >> 1 & 1));
      }
      break;
    }
    case OP_ABSORB: {
      Inst &i = at(o[1]);
      w.fresh(i);
      if (o[3] > 3) {
        if (!frozen && w.merge(i, o[2], (uint64_t)o[3])) {
          w.checkReport(i);
          if (p.asserts & A_ANSWER)
            w.qAll(i, 2);
        }
        break;
      }
      if (Inst *d = w.absorb(i, o[2], (int)o[3])) {
        w.checkReport(*d);
        if (p.asserts & A_ANSWER)
          w.qAll(*d, 2);
      }
      break;
    }
    case OP_DESTROY:
      if (w.inst.size() > 1)
        w.inst.erase(w.inst.begin() + (o[1] % (int64_t)w.inst.size()));
      break;
    case OP_COND_EV: {
      Inst &i = at(o[1]);
      if (!i.crf)
        break;
      w.fresh(i);
      Rng r((uint64_t)o[2]);
      std::vector<std::size_t> vals;
      std::vector<std::pair<int, int>> want;
      for (const auto &v : i.st()->getObservedVariables()) {
        vals.push_back(r.below(v->size()));
        for (size_t k = 0; k < w.u.size(); ++k)
          if (w.u[k].ptr == v)
            want.push_back({(int)k, (int)vals.back()});
      }
      i.crf->setEvidences(vals);
      for (auto &[v, x] : want)
        i.m.ev[v] = x;
      SimOff off;
      sim_eval(1);
      const auto &evs = i.st()->getEvidences();
      for (auto &[v, x] : want) {
        auto it = evs.find(w.u[v].ptr);
        if (it == evs.end() || (int)it->second != x)
          wrong("wrong-evidence", "value passed for %s is %d, evidence became %d; %s", w.u[v].name.c_str(), x,
                it == evs.end() ? -1 : (int)it->second, i.m.text().c_str());
      }
      break;
    }
    case OP_REFUSED: {
      Op q;
      q.a.assign(o.a.begin() + 3, o.a.end());
      sim_arm_thread((uint64_t)o[1], (int)o[2] & 1);
      try {
        step(q);
      } catch (...) {
      }
      sim_disarm_thread();
      break;
    }
    case OP_LAST: {
      Op q;
      q.a.assign(o.a.begin() + 3, o.a.end());
      bool threw = false;
      unsigned asserts = w.asserts;
      w.asserts |= A_REPORT | A_WEIGHT;
      sim_arm_alloc((uint64_t)o[1], (int)o[2] & 1);
      try {
        step(q);
      } catch (...) {
        threw = true;
      }
      int fired = sim_disarm_alloc();
      if (fired)
        sim_nontrivial();
      if (!threw) // whatever did not report a failure was done
        for (auto &i : w.inst)
          w.checkReport(*i);
      w.asserts = asserts;
      ended = true;
      break;
    }
    case OP_OOM: {
      Op q;
      q.a.assign(o.a.begin() + 3, o.a.end());
      Inst &i = at(q[1]);
      w.fresh(i);
      bool threw = false;
      sim_arm_alloc((uint64_t)o[1], (int)o[2] & 1);
      try {
        query(q);
      } catch (...) {
        threw = true;
      }
      int fired = sim_disarm_alloc();
      if (threw && !fired)
        wrong("unexpected-exception", "a request threw although no allocation failed");
      if (fired)
        sim_nontrivial();
      sim_eval(1);
      switch (o[2] >> 1) {
      case 1: { // requests of one kind first
        for (int v : std::vector<int>(i.m.order))
          w.qMarginal(i, v, 1, false);
        break;
      }
      case 2: {
        for (int v : std::vector<int>(i.m.order))
          w.qMap(i, v, 2, false);
        break;
      }
      }
      query(q); // the same request again
      break;
    }
    }
  }
};

void run(const Profile &p, const Ops &ops) {
  const Op &c = ops[0];
  Runner r(p);
  r.w.makeVars((int)c[0], (uint64_t)c[1], (int)c[2], (int)c[3]);
  r.w.magnitude = c[7] == 1 ? 0.01 : c[7] == 2 ? 100 : 1;
  r.w.addModel(c[4]);
  for (size_t k = 1; k < ops.size(); ++k)
    r.step(ops[k]);
  for (auto &i : r.w.inst) {
    r.w.fresh(*i);
    r.w.checkReport(*i);
    if (p.asserts & A_ANSWER)
      r.w.qAll(*i, 1 + (int)(c[6] & 1));
    if (p.asserts & A_STRUCT && !i->m.order.empty() && !i->m.hidden().empty()) {
      r.w.qMarginal(*i, i->m.hidden().front(), 2, false);
      r.after(*i, strct::PropagationKind::SUM);
    }
    if (p.asserts & A_GRAD)
      r.w.qGradient(*i, (uint64_t)c[6], 3, 1 + (int)(c[6] >> 2 & 1));
  }
  if (r.w.answered || r.w.rejected)
    if (!p.weight[OP_OOM])
      sim_nontrivial();
}
size_t pin1(const Ops &) { return 1; }

// ---- C19: every thread has models of its own
enum { OP_DEAL = 90, OP_OF_THREAD = 100 };
enum Deal { DEAL_BASE = 0, DEAL_DEEP, DEAL_SHALLOW, DEAL_FACTORS, DEAL_FRESH, DEAL_COND, DEALS };

void generate19(Rng &r, int tier, Ops &ops, SimCfg &) {
  FewThreads few;
  const Profile &p = *profile("C19");
  generate(p, r, 0, ops);
  int nv = (int)ops[0][0];
  bool graph = ops[0][4];
  int threads = (int)r.range(2, tier ? 4 : 3);
  ops[0].a.push_back(threads);
  bool cond = r.chance(0.35); // mostly conditional models
  if (cond)
    for (int n = (int)r.range(1, 2); n > 0; --n)
      ops.push_back({{OP_SET_EV, 0, (int64_t)r.below(nv), (int64_t)r.below(1200), 0}});
  bool based = false;
  for (int t = 0; t < threads; ++t) {
    int n = (int)r.range(1, 2);
    while (n-- > 0) {
      int how = (int)r.below(DEALS);
      if (cond && r.chance(0.7))
        how = DEAL_COND;
      if (how == DEAL_BASE && based)
        how = DEAL_DEEP;
      based = based || how == DEAL_BASE;
      ops.push_back({{OP_DEAL, t, how, (int64_t)r.below(2), (int64_t)r.below(2)}});
    }
  }
  for (int t = 0; t < threads; ++t) {
    Ops mine;
    history(p, r, (int)r.range(1, tier ? 8 : 5), nv, graph, mine);
    if (cond && r.chance(0.7)) {
      mine.push_back({{OP_GRADIENT, (int64_t)r.below(4), (int64_t)(r.next() >> 4), (int64_t)r.range(1, 4), threads_of(r)}});
      mine.push_back({{OP_COND_EV, (int64_t)r.below(4), (int64_t)(r.next() >> 4)}});
    }
    for (auto &o : mine) {
      Op x{{OP_OF_THREAD, t}};
      for (auto a : o.a)
        x.a.push_back(a);
      ops.push_back(x);
    }
  }
}

void run19(const Ops &ops) {
  const Profile &p = *profile("C19");
  const Op &c = ops[0];
  size_t threads = (size_t)c[8];
  Runner base(p);
  base.w.makeVars((int)c[0], (uint64_t)c[1], (int)c[2], (int)c[3]);
  base.w.magnitude = c[7] == 1 ? 0.01 : c[7] == 2 ? 100 : 1;
  base.w.addModel(c[4]);
  std::vector<std::unique_ptr<Runner>> of(threads);
  std::vector<Ops> todo(threads);
  for (auto &r : of) {
    r = std::make_unique<Runner>(p);
    r->w.u = base.w.u;
  }
  // the setting, made by one thread
  for (size_t k = 1; k < ops.size(); ++k)
    if (ops[k][0] < OP_DEAL) {
      Op o = ops[k];
      base.step(o);
    }
  while (base.w.inst.size() > 1)
    base.w.inst.pop_back();
  Inst &b = *base.w.inst[0];
  auto give = [&](size_t t, Inst *i) {
    SimOff off;
    auto &from = base.w.inst;
    for (size_t k = 0; k < from.size(); ++k)
      if (from[k].get() == i) {
        of[t]->w.inst.push_back(std::move(from[k]));
        from.erase(from.begin() + (long)k);
        of[t]->w.inst.back()->m.u = &of[t]->w.u;
        return;
      }
  };
  int base_to = -1;
  bool base_shared = false;
  base.w.fresh(b);
  for (auto &o : ops) {
    if (o[0] != OP_DEAL)
      continue;
    size_t t = (size_t)o[1] % threads;
    switch (o[2]) {
    case DEAL_BASE:
      base_to = (int)t;
      break;
    case DEAL_DEEP:
      if (Inst *i = base.w.absorb(b, true, o[3] ? 1 : 0))
        give(t, i);
      break;
    case DEAL_SHALLOW:
      if (Inst *i = base.w.absorb(b, false, o[4] ? 3 : o[3] ? 1 : 0)) {
        give(t, i);
        of[t]->frozen = base_shared = true;
      }
      break;
    case DEAL_COND:
      if (Inst *i = base.w.absorb(b, o[3], 2)) {
        give(t, i);
        if (!o[3])
          of[t]->frozen = base_shared = true;
      }
      break;
    case DEAL_FACTORS: { // factors known to several models
      Inst &i = base.w.addModel(o[3]);
      for (auto &e : b.m.facs) {
        i.fc()->addConstFactor(e.f->obj);
        base.w.noteInserted(i, e.f->v, e.f, false, -1);
      }
      give(t, &i);
      of[t]->frozen = base_shared = true;
      break;
    }
    case DEAL_FRESH:
      of[t]->w.addModel(o[3]);
      break;
    }
  }
  if (base_to >= 0) {
    of[base_to]->frozen |= base_shared;
    give((size_t)base_to, &b);
  }
  for (auto &o : ops)
    if (o[0] == OP_OF_THREAD) {
      SimOff off;
      Op x;
      x.a.assign(o.a.begin() + 2, o.a.end());
      todo[(size_t)o[1] % threads].push_back(x);
    }
  std::vector<std::thread> run;
  for (size_t t = 0; t < threads; ++t) {
    Runner *mine = of[t].release();
    const Ops *list = &todo[t];
    bool keep = c[6] >> (8 + t) & 1;
    run.emplace_back([mine, list, keep] {
      std::unique_ptr<Runner> r(mine);
      if (r->w.inst.empty())
        return;
      for (auto &o : *list)
        r->step(o);
      if (keep)
        for (auto &i : r->w.inst) {
          r->w.fresh(*i);
          r->w.checkReport(*i);
          r->w.qAll(*i, 1);
        }
      if (r->w.answered)
        sim_nontrivial();
    });
  }
  if (base_to < 0 && c[6] & 4)
    base.w.inst.clear(); // the source goes while copies of it are in use
  else if (base_to < 0) {
    base.w.checkReport(b);
    base.w.qAll(b, 2);
  }
  for (auto &t : run)
    t.join();
}

// ---- C26: one model read by several threads
enum { OP_READ = 150 }; // thread kind seed
enum Read { RD_REPORT = 0, RD_WEIGHTS, RD_VALUES, RD_FIND, RD_COPY, RD_EXPORT, RD_ALGEBRA, RD_RESULT, RD_FACTORS, RD_SHARE, RD_IMPORT, READS };
void generate26(Rng &r, int tier, Ops &ops, SimCfg &) {
  FewThreads few;
  Profile p = *profile("C19");
  if (r.chance(0.5))
    p.tunable = 0.8;
  generate(p, r, 0, ops);
  int threads = (int)r.range(2, tier ? 5 : 4);
  int cond = r.chance(0.3) ? (int)r.range(1, 2) : 0; // a conditional model made of the model
  if (cond)
    ops.push_back({{OP_SET_EV, 0, (int64_t)r.below((uint64_t)ops[0][0]), (int64_t)r.below(1200), 0}});
  ops[0].a.push_back(threads);
  ops[0].a.push_back(cond);
  for (int t = 0; t < threads; ++t)
    for (int n = (int)r.range(1, tier ? 6 : 4); n > 0; --n)
      ops.push_back({{OP_READ, t, (int64_t)r.below(READS), (int64_t)(r.next() >> 4)}});
}

std::string as_json(Inst &i) {
  nlohmann::json j = to_json(i);
  SimOff off;
  return j.dump();
}

// everything a thread may do with a model it only reads
void read_model(World &w, Inst &b, const std::string &json, int kind, uint64_t seed) {
  Rng r(seed);
  auto value_of = [&](const FacSpec &f, const std::vector<size_t> &comb) {
    size_t k = 0;
    for (size_t n = 0; n < comb.size(); ++n)
      k = k * (size_t)w.u[f.v[n]].size + comb[n];
    return f.image(k);
  };
  auto expect = [&](const char *what, double g, double e) {
    sim_eval(1);
    if (!(std::fabs(g - e) <= 1e-4 + 1e-4 * std::fabs(e)))
      wrong("wrong-read", "%s of a factor is %g instead of %g", what, g, e);
  };
  auto pick = [&]() -> FacSpec * { return b.m.facs.empty() ? nullptr : b.m.facs[r.below(b.m.facs.size())].f.get(); };
  auto comb_of = [&](const FacSpec &f) {
    std::vector<size_t> c;
    for (int v : f.v)
      c.push_back(r.below((uint64_t)w.u[v].size));
    return c;
  };
  switch (kind) {
  case RD_REPORT:
    w.checkReport(b);
    break;
  case RD_WEIGHTS: {
    if (!b.tg())
      break;
    auto ws = b.tg()->getWeights();
    auto cl = b.tg()->getTunableClusters();
    size_t n = b.tg()->getTunableFactors().size(), nt = 0;
    for (auto &e : b.m.facs)
      nt += e.tunable;
    SimOff off;
    sim_eval(1);
    if (n != nt || ws.size() != b.m.groups.size() || cl.size() != ws.size())
      wrong("wrong-read", "%zu tunable factors, %zu weights and %zu groups, expected %zu, %zu and %zu", n, ws.size(),
            cl.size(), nt, b.m.groups.size(), b.m.groups.size());
    for (size_t g = 0; g < ws.size(); ++g)
      expect("weight", ws[g], b.m.facs[b.m.groups[g][0]].f->w);
    break;
  }
  case RD_VALUES:
    for (int n = 0; n < 4; ++n)
      if (FacSpec *f = pick()) {
        auto c = comb_of(*f);
        expect("value", f->obj->function().findTransformed(c), value_of(*f, c));
        if (n == 0) {
          double sum = 0;
          for (float x : f->obj->getProbabilities())
            sum += x;
          sim_eval(1);
          if (!(std::fabs(sum - 1) < 1e-3) && f->image(0) > 1e-6)
            wrong("wrong-read", "the probabilities of a factor sum to %g", sum);
        }
        if (n == 1) {
          size_t k = 0;
          std::vector<float> got;
          f->obj->function().forEachCombination<true>([&](const std::vector<size_t> &, float x) { got.push_back(x); });
          for (; k < got.size() && k < f->raw.size(); ++k)
            expect("value", got[k], f->image(k));
        }
        if (n == 2) {
          auto finder = f->obj->makeFinder(b.st()->getAllVariables());
          std::vector<size_t> all(b.m.order.size(), 0);
          for (size_t k = 0; k < all.size(); ++k)
            for (size_t j = 0; j < f->v.size(); ++j)
              if (f->v[j] == b.m.order[k])
                all[k] = c[j];
          expect("value found", finder.findTransformed(all), value_of(*f, c));
        }
      }
    break;
  case RD_FIND:
    for (int v : std::vector<int>(b.m.order)) {
      auto p = b.st()->findVariable(w.u[v].name);
      sim_eval(1);
      if (p != w.u[v].ptr)
        wrong("wrong-read", "the variable found for %s is another one", w.u[v].name.c_str());
    }
    try {
      b.st()->findVariable("no such variable");
      wrong("wrong-read", "a variable was found that is not there");
    } catch (const std::exception &) {
    }
    break;
  case RD_COPY:
  case RD_SHARE:
    if (Inst *d = w.absorb(b, kind == RD_COPY, (int)r.below(4))) {
      w.checkReport(*d);
      w.qAll(*d, 1 + (int)r.below(2));
      if (r.chance(0.5))
        w.inst.pop_back();
    }
    break;
  case RD_EXPORT: {
    std::string s = as_json(b);
    SimOff off;
    sim_eval(1);
    if (s.size() != json.size())
      wrong("wrong-read", "the exported document is not the one exported before");
    break;
  }
  case RD_IMPORT:
    roundtrip(w, b, 1 + (int)r.below(2), r.chance(0.5));
    break;
  case RD_ALGEBRA:
    if (FacSpec *f = pick()) {
      auto c = comb_of(*f);
      factor::Factor clone(*f->obj, factor::Factor::CloneTrasformedImagesTag{});
      expect("value of a copy", clone.function().findTransformed(c), value_of(*f, c));
      if (f->v.size() == 2) {
        const auto &vs = f->obj->function().vars().getVariables();
        auto turned = clone.cloneWithPermutedGroup(categoric::Group{categoric::VariablesSoup{vs[1], vs[0]}});
        expect("value of a permuted copy", turned.function().findTransformed({c[1], c[0]}), value_of(*f, c));
      }
      FacSpec *h = pick();
      if (h->v == f->v) {
        auto both = factor::Factor::merge(*f->obj, *h->obj);
        const auto &vs = both.function().vars().getVariables();
        std::vector<size_t> cc;
        for (auto &x : vs)
          for (size_t k = 0; k < f->v.size(); ++k)
            if (w.u[f->v[k]].ptr == x)
              cc.push_back(c[k]);
        expect("product", both.function().findTransformed(cc), value_of(*f, c) * value_of(*h, c));
      }
    }
    break;
  case RD_RESULT: {
    const auto *ba = b.ba();
    if (!ba->hasPropagationResult())
      break;
    const auto &res = ba->getLastPropagationResult();
    size_t n = 0;
    for (auto &c : res.structures)
      n += c.size;
    size_t hid = b.st()->getHiddenVariables().size();
    sim_eval(1);
    if (n != hid || ba->getPropagationContext().max_iterations_loopy_propagation != w.max_iter)
      wrong("wrong-read", "the structure has %zu variables instead of %zu", n, hid);
    break;
  }
  case RD_FACTORS: {
    Inst &i = w.addModel(r.chance(0.5));
    for (auto &e : b.m.facs) {
      i.fc()->addConstFactor(e.f->obj);
      w.noteInserted(i, e.f->v, e.f, false, -1);
    }
    w.qAll(i, 1);
    break;
  }
  }
}

void run26(const Ops &ops) {
  const Profile &p = *profile("C19");
  const Op &c = ops[0];
  size_t threads = (size_t)c[8];
  Runner base(p);
  base.w.makeVars((int)c[0], (uint64_t)c[1], (int)c[2], (int)c[3]);
  base.w.magnitude = c[7] == 1 ? 0.01 : c[7] == 2 ? 100 : 1;
  base.w.addModel(c[4]);
  for (size_t k = 1; k < ops.size(); ++k)
    if (ops[k][0] < OP_DEAL)
      base.step(ops[k]);
  while (base.w.inst.size() > 1)
    base.w.inst.pop_back();
  if (c[9] && base.w.absorb(*base.w.inst[0], c[9] == 2, 2))
    base.w.inst.erase(base.w.inst.begin());
  Inst &b = *base.w.inst[0];
  base.w.fresh(b);
  if (c[6] & 1 && !b.m.hidden().empty())
    base.w.qMarginal(b, b.m.hidden().front(), 1 + (int)(c[6] >> 1 & 1), false);
  std::string json = as_json(b);
  struct Reader {
    World w;
    Inst view; // of the model of everybody
    ~Reader() {
      view.rf.release();
      view.g.release();
      view.crf.release();
    }
  };
  std::vector<std::unique_ptr<Reader>> of(threads);
  std::vector<Ops> todo(threads);
  {
    SimOff off;
    for (auto &o : ops)
      if (o[0] == OP_READ)
        todo[(size_t)o[1] % threads].push_back(o);
    for (auto &r : of) {
      r = std::make_unique<Reader>();
      r->w.asserts = base.w.asserts;
      r->w.u = base.w.u;
      r->w.max_iter = base.w.max_iter;
      r->view.m = b.m;
      r->view.m.u = &r->w.u;
      r->view.stale = b.stale;
      r->view.rf.reset(b.rf.get());
      r->view.g.reset(b.g.get());
      r->view.crf.reset(b.crf.get());
    }
  }
  std::vector<std::thread> run;
  for (size_t t = 0; t < threads; ++t) {
    Reader *mine = of[t].get();
    const Ops *list = &todo[t];
    run.emplace_back([mine, list, &json] {
      for (auto &o : *list) {
        sim_hash((uint64_t)o[2] * 1000003 + (uint64_t)o[3]);
        read_model(mine->w, mine->view, json, (int)o[2], (uint64_t)o[3]);
      }
    });
  }
  for (auto &t : run)
    t.join();
  sim_nontrivial();
  of.clear();
  base.w.checkReport(b);
  base.w.qAll(b, 2);
}

// ---- C25: memory and threads are given back
enum { OP_AGAIN = 200 }; // requests of the repeated part
void generate25(Rng &r, int tier, Ops &ops, SimCfg &) {
  const Profile &p = *profile("C25");
  generate(p, r, tier, ops);
  bool cycles = r.chance(0.35);
  ops[0].a.push_back(cycles ? 5 : (int64_t)r.range(3, 4));
  if (!cycles)
    return;
  size_t k = 0; // some of the history, without the part that ends it
  for (; k < ops.size() && (k < 12 || r.chance(0.8)); ++k)
    if (k && ops[k][0] == OP_LAST)
      break;
  ops.resize(k);
  Ops again;
  history(*profile("C25+"), r, (int)r.range(1, 5), (int)ops[0][0], ops[0][4], again);
  for (auto &o : again) {
    if (o[0] == OP_ABSORB && o[3] > 3)
      o.a[3] &= 3; // models that absorb others grow
    o.a[0] += OP_AGAIN;
    ops.push_back(o);
  }
}
void run25(const Ops &ops) {
  const Op &c = ops[0];
  const Profile &p = *profile("C25");
  uint64_t threads = sim_live_threads();
  auto gone = [&] {
    SimOff off;
    sim_eval(1);
    if (sim_live_threads() != threads)
      wrong("threads-left", "%llu threads are alive after every model is gone, %llu were before",
            (unsigned long long)sim_live_threads(), (unsigned long long)threads);
  };
  auto begin = [&](Runner &r) {
    r.w.makeVars((int)c[0], (uint64_t)c[1], (int)c[2], (int)c[3]);
    r.w.max_iter = 6;
    r.w.addModel(c[4]);
    for (size_t k = 1; k < ops.size() && ops[k][0] < OP_AGAIN && !r.ended; ++k)
      r.step(ops[k]);
  };
  if (c[8] < 5) {
    // the same history several times: what the first one leaves may be kept for good, but it must not add up
    std::vector<std::pair<uint64_t, uint64_t>> left;
    left.reserve(8);
    for (int64_t n = 0; n < std::max<int64_t>(c[8], 3); ++n) {
      sim_fast(n && ((c[6] >> n) & 1));
      {
        Runner r(p);
        begin(r);
        if (r.w.answered || r.w.rejected || r.ended)
          sim_nontrivial();
      }
      sim_fast(0);
      left.push_back({sim_live_blocks(), sim_live_bytes()});
      gone();
    }
    bool grows = true;
    for (size_t n = 1; n < left.size(); ++n)
      grows &= left[n].first > left[n - 1].first;
    SimOff off;
    sim_eval(1);
    if (grows)
      wrong("memory-lost", "the same requests leave %lld blocks (%lld bytes) behind each time, after every object is gone",
            (long long)(left.back().first - left[left.size() - 2].first),
            (long long)(left.back().second - left[left.size() - 2].second));
    return;
  }
  {
    Runner r(p);
    begin(r);
    size_t keep = r.w.inst.size();
    uint64_t at[4] = {};
    int got = 0;
    for (int n = 1; n <= 32; ++n) {
      sim_fast(n > 2);
      for (size_t k = 1; k < ops.size(); ++k)
        if (ops[k][0] >= OP_AGAIN) {
          Op o = ops[k];
          o.a[0] -= OP_AGAIN;
          r.step(o);
        }
      while (r.w.inst.size() > keep)
        r.w.inst.pop_back();
      if (n == 4 || n == 8 || n == 16 || n == 32)
        at[got++] = sim_live_bytes();
    }
    sim_fast(0);
    SimOff off;
    sim_eval(1);
    if (r.w.answered || r.w.rejected)
      sim_nontrivial();
    int64_t d1 = (int64_t)(at[1] - at[0]), d2 = (int64_t)(at[2] - at[1]), d3 = (int64_t)(at[3] - at[2]);
    if (d1 > 0 && d2 * 2 >= d1 * 3 && d3 * 2 >= d2 * 3)
      wrong("memory-grows",
            "repeating the same requests on the same models makes their memory grow: %lld bytes over 4, %lld over 8, "
            "%lld over 16 repetitions",
            (long long)d1, (long long)d2, (long long)d3);
  }
  gone();
}

#define SC(ID)                                                                                                     \
  void gen##ID(Rng &r, int tier, Ops &ops, SimCfg &) { generate(*profile(#ID), r, tier, ops); }                    \
  void run##ID(const Ops &ops) { run(*profile(#ID), ops); }                                                        \
  RegisterScenario reg##ID({#ID, gen##ID, run##ID, pin1});
SC(C04)
SC(C05)
SC(C07)
SC(C08)
SC(C09)
SC(C10)
SC(C11)
SC(C12)
RegisterScenario reg25({"C25", generate25, run25, pin1});
void gen13(Rng &r, int tier, Ops &ops, SimCfg &) {
  const Profile &p = *profile("C13");
  generate(p, r, tier, ops);
  if (r.chance(0.35)) { // values excluded by unary factors
    for (auto &o : ops)
      if (o[0] == OP_FACTOR && &o != &ops[0])
        o.a[6] = o[3] < 0;
    size_t at = 1;
    while (at < ops.size() && ops[at][0] == OP_FACTOR)
      ++at;
    for (int64_t n = r.range(1, 4); n > 0; --n) {
      Ops f;
      factor_op(p, r, ops[0][4], (int)r.below((uint64_t)ops[0][0]), -1, f);
      f[0].a[1] = 0;
      f[0].a[4] = World::K_CONST;
      f[0].a[6] = 1;
      ops.insert(ops.begin() + (long)at, f[0]);
    }
  }
}
void run13(const Ops &ops) { run(*profile("C13"), ops); }
RegisterScenario reg13({"C13", gen13, run13, pin1});
RegisterScenario reg26({"C26", generate26, run26, pin1});
RegisterScenario reg19({"C19", generate19, run19, pin1});
} // namespace
