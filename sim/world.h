// Executable reference model of a factor graph ("mirror"), exact oracle by
// variable elimination in double precision, and the real models driven next to it.
#pragma once
#include "driver.h"

#include <EasyFactorGraph/factor/Factor.h>
#include <EasyFactorGraph/factor/FactorExponential.h>
#include <EasyFactorGraph/model/ConditionalRandomField.h>
#include <EasyFactorGraph/model/Graph.h>
#include <EasyFactorGraph/model/RandomField.h>
#include <EasyFactorGraph/structure/BaselineLoopyPropagator.h>
#include <EasyFactorGraph/trainable/TrainSet.h>

#include <functional>
#include <map>
#include <memory>
#include <set>

namespace W {
using namespace EFG;

struct VarSpec {
  std::string name;
  int size;
  categoric::VariablePtr ptr;
};

struct FacSpec {
  std::vector<int> v;       // indices into the universe of variables
  std::vector<double> raw;  // first variable is the slowest
  bool exp = false;
  int corr = 0;             // 1 simply correlated, 2 anti correlated (tables made by the library)
  double w = 1;             // float accuracy weight
  factor::ImmutablePtr obj; // object reported by the model, once known
  double image(size_t i) const;
  double rawAt(const int *comb, const std::vector<VarSpec> &u) const;
};
using FacPtr = std::shared_ptr<FacSpec>;

struct Cluster {
  std::vector<int> vars;
  bool tree;
};

struct Mirror {
  const std::vector<VarSpec> *u = nullptr;
  std::vector<int> order; // variables in the model
  std::vector<int> ev;    // per universe variable, -1 hidden
  struct Entry {
    FacPtr f;
    bool tunable;
  };
  std::vector<Entry> facs;
  std::vector<std::vector<int>> groups; // of positions in facs

  bool has(int v) const;
  bool observed(int v) const { return ev[v] >= 0; }
  std::vector<int> hidden() const;
  bool connected(int a, int b) const; // there is a binary factor between them
  std::vector<Cluster> clusters() const;
  Cluster clusterOf(int v) const;
  bool acyclic() const;
  bool reduce(const Cluster &c, const std::vector<int> &keep, bool max, std::vector<double> &out) const;
  // false when the evidence is contradictory (or nearly so)
  bool marginal(int v, std::vector<double> &out) const;
  bool maxMarginal(int v, std::vector<double> &out) const;
  bool joint(const std::vector<int> &vars, std::vector<double> &out) const;
  // expectation of the raw values of a group
  bool expectation(int group, double &out) const;
  double groupAlpha(int group, const std::vector<std::vector<size_t>> &set) const;
  std::string text() const;
};

constexpr double TOL = 6e-4;

// ---------------------------------------------------------------- real models
struct Inst {
  Mirror m;
  std::unique_ptr<model::RandomField> rf;
  std::unique_ptr<model::Graph> g;
  std::unique_ptr<model::ConditionalRandomField> crf;
  bool stale = false; // weights changed through another model

  strct::QueryManager *q();
  strct::GibbsSampler *s();
  strct::EvidenceSetter *es();
  strct::EvidenceRemover *er();
  strct::FactorsConstInserter *fc();
  train::FactorsTunableInserter *ft();
  train::FactorsTunableGetter *tg();
  const strct::StateAware *st();
  const strct::FactorsAware *fa();
  const strct::FactorsConstGetter *cg();
  strct::BeliefAware *ba();
  bool valid() const { return rf || g || crf; }
};

enum Assert : unsigned {
  A_ANSWER = 1,
  A_STRUCT = 2,
  A_REPORT = 4,
  A_WEIGHT = 8,
  A_GRAD = 16,
  A_SAMPLE = 32,
  A_LOOPY = 64,
  A_ALL = 127
};

struct World {
  std::vector<VarSpec> u;
  std::vector<std::unique_ptr<Inst>> inst;
  unsigned asserts = A_ALL;
  unsigned rejected = 0, answered = 0;
  size_t max_iter = 25; // of loopy propagation

  double magnitude = 1; // of the values of ordinary factors
  void makeVars(int n, uint64_t seed, int max_size, int name_style = 0);
  Inst &add();
  void limit(Inst &i);
  Inst &addModel(bool graph); // with an empty model

  // spec of a table drawn from a seed; style: 0 positive, 1 with zeros,
  // 2 exponential
  FacPtr makeSpec(const std::vector<int> &v, uint64_t seed, int style, double w);
  std::shared_ptr<factor::Factor> makeFactor(const FacSpec &f) const;
  std::shared_ptr<factor::FactorExponential> makeExp(const FacSpec &f) const;

  // kinds of insertion
  enum Kind { K_CONST = 0, K_CONST_COPY, K_EXP_CONST, K_TUN, K_TUN_COPY, K_EXP_CONST_COPY, K_NUM };
  // returns false when the request does not make sense now (nothing done)
  bool addFactor(Inst &i, std::vector<int> v, int kind, uint64_t seed, int zeros, int share);
  void noteInserted(Inst &i, const std::vector<int> &v, const FacPtr &f, bool tunable, int group);

  bool setEv(Inst &i, int var, int val, bool byname);
  bool remEv(Inst &i, int var, bool byname);
  bool remSet(Inst &i, uint64_t mask, bool byname);
  bool remAll(Inst &i);
  bool setWeights(Inst &i, uint64_t seed);
  void fresh(Inst &i); // drop what a shallow copy may have cached

  // queries, compared with the oracle (throwing what the library throws)
  void qMarginal(Inst &i, int var, int threads, bool byname, bool cmp = true);
  void qMap(Inst &i, int var, int threads, bool byname, bool cmp = true);
  void qHiddenMap(Inst &i, int threads, bool cmp = true);
  void qJoint(Inst &i, uint64_t seed, int threads, bool byname, bool cmp = true);
  void qAll(Inst &i, int threads); // every marginal and map
  std::vector<float> gradient(Inst &i, const std::vector<std::vector<size_t>> &set, int threads,
                              float pct = 1.f);
  void qGradient(Inst &i, uint64_t seed, int n, int threads);
  // false when not defined (or not tractable)
  bool exactGradient(const Mirror &before, bool conditional, const std::vector<std::vector<size_t>> &set,
                     std::vector<double> &want) const;
  void checkGradient(const Mirror &before, bool conditional, const std::vector<std::vector<size_t>> &set,
                     const std::vector<float> &got);
  void syncEvidence(Inst &i); // after a gradient
  std::vector<std::vector<size_t>> qSamples(Inst &i, int n, int threads, int64_t seed, int delta, int transient,
                                            bool cmp = true);
  std::vector<std::vector<size_t>> makeSet(const Inst &i, uint64_t seed, int n);

  void checkReport(Inst &i);
  void checkStruct(Inst &i, strct::PropagationKind kind);
  // invalid request number k; returns false when not applicable now
  bool reject(Inst &i, int k, uint64_t seed);
  enum { REJECTS = 26 };

  Inst *absorb(Inst &src, bool copy, int target); // target: 0 RandomField, 1 Graph, 2 conditional, 3 copy constructor
  bool merge(Inst &dst, bool copy, uint64_t seed);
  bool adopt(Inst &dst, Inst &src, bool copy, bool as_graph);
  Inst *adopted(Inst &dst, Inst &src, bool copy, bool as_graph);
};

[[noreturn]] void wrong(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
double close_enough(double a, double b);
} // namespace W
