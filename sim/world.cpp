#include "world.h"

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>

namespace W {
void wrong(const char *kind, const char *fmt, ...) {
  sim_off_enter();
  char buf[1800];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  sim_fail(kind, "%s", buf);
}

// ==================================================================== mirror
double FacSpec::image(size_t i) const { return exp ? std::exp(w * raw[i]) : raw[i]; }

double FacSpec::rawAt(const int *comb, const std::vector<VarSpec> &u) const {
  size_t i = comb[v[0]];
  if (v.size() == 2)
    i = i * u[v[1]].size + comb[v[1]];
  return raw[i];
}

bool Mirror::has(int v) const { return std::find(order.begin(), order.end(), v) != order.end(); }

std::vector<int> Mirror::hidden() const {
  std::vector<int> r;
  for (int v : order)
    if (ev[v] < 0)
      r.push_back(v);
  return r;
}

bool Mirror::connected(int a, int b) const {
  for (const auto &e : facs)
    if (e.f->v.size() == 2 &&
        ((e.f->v[0] == a && e.f->v[1] == b) || (e.f->v[0] == b && e.f->v[1] == a)))
      return true;
  return false;
}

std::vector<Cluster> Mirror::clusters() const {
  std::vector<int> comp(u->size());
  for (size_t i = 0; i < comp.size(); ++i)
    comp[i] = (int)i;
  std::function<int(int)> find = [&](int x) {
    while (comp[x] != x)
      x = comp[x];
    return x;
  };
  std::vector<std::pair<int, int>> edges;
  for (const auto &e : facs)
    if (e.f->v.size() == 2 && ev[e.f->v[0]] < 0 && ev[e.f->v[1]] < 0)
      edges.push_back({e.f->v[0], e.f->v[1]});
  std::set<int> cyc;
  for (auto &[a, b] : edges) {
    int x = find(a), y = find(b);
    if (x != y)
      comp[x] = y;
  }
  std::map<int, Cluster> res;
  std::map<int, size_t> ne;
  for (int v : hidden())
    res[find(v)].vars.push_back(v);
  for (auto &[a, b] : edges)
    ++ne[find(a)];
  std::vector<Cluster> out;
  for (auto &[r, c] : res) {
    c.tree = ne[r] + 1 == c.vars.size();
    out.push_back(c);
  }
  return out;
}

Cluster Mirror::clusterOf(int v) const {
  for (auto &c : clusters())
    if (std::find(c.vars.begin(), c.vars.end(), v) != c.vars.end())
      return c;
  return {};
}
bool Mirror::acyclic() const {
  for (auto &c : clusters())
    if (!c.tree)
      return false;
  return true;
}
// the tables of a cluster after summing (or maximising) out the variables that are not kept, scaled
bool Mirror::reduce(const Cluster &c, const std::vector<int> &keep, bool max, std::vector<double> &out) const {
  struct T {
    std::vector<int> v;
    std::vector<double> t;
  };
  const auto &U = *u;
  std::vector<char> in(U.size(), 0);
  for (int v : c.vars)
    in[v] = 1;
  std::vector<T> tabs;
  double logz = 0;  // of what was divided out while eliminating
  auto scale = [](T &t, double &log) {
    double m = 0;
    for (double x : t.t)
      m = std::max(m, x);
    if (!(m > 0) || !std::isfinite(m))
      return false;
    for (auto &x : t.t)
      x /= m;
    log += std::log10(m);
    return true;
  };
  for (const auto &e : facs) {
    const auto &f = *e.f;
    bool touches = false;
    for (int v : f.v)
      touches = touches || in[v];
    if (!touches)
      continue;
    T t;
    int a = f.v[0], b = f.v.size() == 2 ? f.v[1] : -1;
    int sb = b >= 0 ? U[b].size : 1;
    if (in[a])
      t.v.push_back(a);
    if (b >= 0 && in[b])
      t.v.push_back(b);
    for (size_t i = 0; i < f.raw.size(); ++i) {
      int va = (int)i / sb, vb = (int)i % sb;
      if ((!in[a] && va != ev[a]) || (b >= 0 && !in[b] && vb != ev[b]))
        continue;
      t.t.push_back(f.image(i));
    }
    double log = 0; // the magnitude of a factor has no meaning
    if (!scale(t, log))
      return false;
    tabs.push_back(std::move(t));
  }
  const size_t used = tabs.size();
  auto multiply = [&](const std::vector<T> &ts, const std::vector<int> &vars) {
    T r;
    r.v = vars;
    size_t n = 1;
    for (int v : vars)
      n *= U[v].size;
    r.t.assign(n, 1.0);
    std::vector<int> val(vars.size(), 0);
    std::vector<std::vector<size_t>> stride(ts.size(), std::vector<size_t>(vars.size(), 0));
    for (size_t k = 0; k < ts.size(); ++k) {
      size_t st = 1;
      for (size_t j = ts[k].v.size(); j-- > 0;) {
        for (size_t l = 0; l < vars.size(); ++l)
          if (vars[l] == ts[k].v[j])
            stride[k][l] = st;
        st *= U[ts[k].v[j]].size;
      }
    }
    for (size_t i = 0; i < n; ++i) {
      for (size_t k = 0; k < ts.size(); ++k) {
        size_t x = 0;
        for (size_t l = 0; l < vars.size(); ++l)
          x += stride[k][l] * (size_t)val[l];
        r.t[i] *= ts[k].t[x];
      }
      for (size_t l = vars.size(); l-- > 0;)
        if (++val[l] < U[vars[l]].size)
          break;
        else
          val[l] = 0;
    }
    return r;
  };
  std::vector<int> todo;
  for (int v : c.vars)
    if (std::find(keep.begin(), keep.end(), v) == keep.end())
      todo.push_back(v);
  while (!todo.empty()) {
    // the variable whose elimination makes the smallest table
    size_t best = 0, cost = (size_t)-1;
    std::vector<int> scope;
    for (size_t k = 0; k < todo.size(); ++k) {
      std::vector<int> sc;
      for (auto &t : tabs)
        if (std::find(t.v.begin(), t.v.end(), todo[k]) != t.v.end())
          for (int v : t.v)
            if (v != todo[k] && std::find(sc.begin(), sc.end(), v) == sc.end())
              sc.push_back(v);
      size_t n = U[todo[k]].size;
      for (int v : sc)
        n *= U[v].size;
      if (n < cost) {
        cost = n;
        best = k;
        scope = sc;
      }
    }
    if (cost > 4000000)
      return false;
    int v = todo[best];
    todo.erase(todo.begin() + (long)best);
    std::vector<T> with, rest;
    for (auto &t : tabs)
      (std::find(t.v.begin(), t.v.end(), v) != t.v.end() ? with : rest).push_back(std::move(t));
    scope.push_back(v); // fastest
    T m = multiply(with, scope), r;
    r.v.assign(scope.begin(), scope.end() - 1);
    size_t sv = U[v].size;
    r.t.assign(m.t.size() / sv, 0);
    for (size_t i = 0; i < m.t.size(); ++i)
      r.t[i / sv] = max ? std::max(r.t[i / sv], m.t[i]) : r.t[i / sv] + m.t[i];
    if (!scale(r, logz))
      return false;
    tabs = std::move(rest);
    tabs.push_back(std::move(r));
  }
  T fin = multiply(tabs, keep);
  double z = 0;
  for (double x : fin.t)
    z += x;
  if (!(z > 0) || !std::isfinite(z))
    return false;
  // contradictory, or nearly so
  if (logz + std::log10(z) < -22 - 0.4 * (double)(used > 10 ? used - 10 : 0))
    return false;
  out = std::move(fin.t);
  return true;
}

bool Mirror::marginal(int v, std::vector<double> &out) const {
  out.assign((*u)[v].size, 0);
  if (ev[v] >= 0) {
    out[ev[v]] = 1;
    return true;
  }
  if (!reduce(clusterOf(v), {v}, false, out))
    return false;
  double z = 0;
  for (double x : out)
    z += x;
  for (auto &x : out)
    x /= z;
  return true;
}

bool Mirror::maxMarginal(int v, std::vector<double> &out) const {
  out.assign((*u)[v].size, 0);
  if (ev[v] >= 0) {
    out[ev[v]] = 1;
    return true;
  }
  if (!reduce(clusterOf(v), {v}, true, out))
    return false;
  double m = *std::max_element(out.begin(), out.end());
  for (auto &x : out)
    x /= m;
  return true;
}

bool Mirror::joint(const std::vector<int> &vars, std::vector<double> &out) const {
  size_t n = 1;
  for (int v : vars)
    n *= (*u)[v].size;
  out.assign(n, 1);
  for (auto &c : clusters()) {
    std::vector<int> sub;
    for (int v : vars)
      if (std::find(c.vars.begin(), c.vars.end(), v) != c.vars.end())
        sub.push_back(v);
    if (sub.empty())
      continue;
    std::vector<double> p;
    if (!reduce(c, sub, false, p))
      return false;
    for (size_t i = 0; i < n; ++i) {
      size_t k = 0;
      for (int v : sub) {
        size_t stride = 1;
        for (size_t j = vars.size(); j-- > 0 && vars[j] != v;)
          stride *= (*u)[vars[j]].size;
        k = k * (*u)[v].size + (i / stride) % (*u)[v].size;
      }
      out[i] *= p[k];
    }
  }
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < vars.size(); ++j)
      if (ev[vars[j]] >= 0) {
        size_t stride = 1;
        for (size_t l = vars.size(); l-- > j + 1;)
          stride *= (*u)[vars[l]].size;
        if ((int)((i / stride) % (*u)[vars[j]].size) != ev[vars[j]])
          out[i] = 0;
      }
  double z = 0;
  for (double x : out)
    z += x;
  if (!(z > 0))
    return false;
  for (auto &x : out)
    x /= z;
  return true;
}

bool Mirror::expectation(int group, double &out) const {
  out = 0;
  for (int fi : groups[group]) {
    const auto &f = *facs[fi].f;
    std::vector<double> p;
    if (!joint(f.v, p))
      return false;
    for (size_t i = 0; i < p.size(); ++i)
      out += p[i] * f.raw[i];
  }
  return true;
}

double Mirror::groupAlpha(int group, const std::vector<std::vector<size_t>> &set) const {
  double s = 0;
  for (const auto &c : set) {
    std::vector<int> comb(u->size(), 0);
    for (size_t k = 0; k < order.size(); ++k)
      comb[order[k]] = (int)c[k];
    for (int fi : groups[group])
      s += facs[fi].f->rawAt(comb.data(), *u);
  }
  return s / (double)set.size();
}

std::string Mirror::text() const {
  std::string s = "vars:";
  for (int v : order)
    s += " " + (*u)[v].name + "/" + std::to_string((*u)[v].size) +
         (ev[v] >= 0 ? "=" + std::to_string(ev[v]) : std::string());
  s += " factors:";
  for (const auto &e : facs) {
    s += " (";
    for (int v : e.f->v)
      s += (*u)[v].name + ",";
    s += e.tunable ? "tunable)" : e.f->exp ? "exp)" : "const)";
  }
  return s;
}

// ==================================================================== models
strct::QueryManager *Inst::q() {
  if (rf)
    return rf.get();
  if (g)
    return g.get();
  return crf.get();
}
strct::GibbsSampler *Inst::s() {
  if (rf)
    return rf.get();
  if (g)
    return g.get();
  return crf.get();
}
strct::EvidenceSetter *Inst::es() {
  if (rf)
    return rf.get();
  if (g)
    return g.get();
  return nullptr;
}
strct::EvidenceRemover *Inst::er() {
  if (rf)
    return rf.get();
  if (g)
    return g.get();
  return nullptr;
}
strct::FactorsConstInserter *Inst::fc() {
  if (rf)
    return rf.get();
  if (g)
    return g.get();
  return nullptr;
}
train::FactorsTunableInserter *Inst::ft() { return rf.get(); }
train::FactorsTunableGetter *Inst::tg() {
  if (rf)
    return rf.get();
  return crf.get();
}
const strct::StateAware *Inst::st() {
  if (rf)
    return rf.get();
  if (g)
    return g.get();
  return crf.get();
}
const strct::FactorsAware *Inst::fa() {
  if (rf)
    return rf.get();
  if (g)
    return g.get();
  return crf.get();
}
const strct::FactorsConstGetter *Inst::cg() {
  if (rf)
    return rf.get();
  if (g)
    return g.get();
  return crf.get();
}
strct::BeliefAware *Inst::ba() {
  if (rf)
    return rf.get();
  if (g)
    return g.get();
  return crf.get();
}

void World::makeVars(int n, uint64_t seed, int max_size, int name_style) {
  Rng r(seed);
  for (int k = 0; k < n; ++k) {
    VarSpec v;
    {
      SimOff off;
      switch (name_style) {
      default:
        v.name = std::string(1, (char)('A' + k % 26)) + (k >= 26 ? std::to_string(k) : "");
        break;
      case 1: // names that spread differently over hash tables
        v.name = "var_" + std::to_string(r.next() % 100000) + "_" + std::to_string(k);
        break;
      case 2: { // names which need care in files
        static const char *odd[] = {"a \"quoted\" name", "back\\slash", "tab\there", "new\nline",
                                    "caf\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "{\"x\":1}", "", "'", "a,b:c"};
        v.name = std::string(odd[r.below(10)]) + std::to_string(k);
      } break;
      }
      v.size = 2 + (int)r.below(max_size - 1);
      if (max_size > 2 && r.chance(0.04))
        v.size = 1;
      if (max_size >= 200) // one with very many values
        v.size = k == (int)(seed % (uint64_t)n) ? max_size : 2 + k % 2;
    }
    v.ptr = categoric::make_variable(v.size, v.name);
    u.push_back(v);
  }
}

Inst &World::add() {
  SimOff off;
  inst.push_back(std::make_unique<Inst>());
  Inst &i = *inst.back();
  i.m.u = &u;
  i.m.ev.assign(u.size(), -1);
  return i;
}

void World::limit(Inst &i) { i.ba()->setPropagationContext(strct::PropagationContext{max_iter}); }

Inst &World::addModel(bool graph) {
  Inst &i = add();
  if (graph)
    i.g = std::make_unique<model::Graph>();
  else
    i.rf = std::make_unique<model::RandomField>();
  limit(i);
  return i;
}

FacPtr World::makeSpec(const std::vector<int> &v, uint64_t seed, int style, double w) {
  SimOff off;
  auto f = std::make_shared<FacSpec>();
  f->v = v;
  Rng r(seed);
  size_t n = 1;
  for (int x : v)
    n *= u[x].size;
  f->exp = style == 2;
  f->w = f->exp ? w : 1;
  double scale = r.chance(0.25) ? 0.2 : 1.0;
  if (r.chance(0.05))
    scale = r.chance(0.5) ? 1e-4 : 1e4;
  scale *= magnitude;
  for (size_t i = 0; i < n; ++i) {
    float x;
    if (style == 2)
      x = (float)(r.unit() * 1.5);
    else if (style == 1 && r.chance(0.35))
      x = 0;
    else
      x = (float)(scale * (0.05 + r.unit() * 1.95));
    f->raw.push_back(x);
  }
  if (style == 2 && r.chance(0.2))
    for (auto &x : f->raw)
      if (r.chance(0.4))
        x = 0; // exponential of a sparse table
  if (r.chance(0.15)) // round values
    for (auto &x : f->raw)
      if (x != 0 && r.chance(0.4))
        x = 1;
  if (style && v.size() == 2 && u[v[0]].size == u[v[1]].size && r.chance(0.08)) {
    f->corr = (int)r.range(1, 2);
    for (size_t i = 0; i < n; ++i)
      f->raw[i] = (i / u[v[1]].size == i % u[v[1]].size) == (f->corr == 1);
  }
  return f;
}

std::shared_ptr<factor::Factor> World::makeFactor(const FacSpec &f) const {
  categoric::VariablesSoup vs;
  for (int v : f.v)
    vs.push_back(u[v].ptr);
  if (f.corr == 1)
    return std::make_shared<factor::Factor>(categoric::Group{vs}, factor::Factor::SimplyCorrelatedTag{});
  if (f.corr == 2)
    return std::make_shared<factor::Factor>(categoric::Group{vs}, factor::Factor::SimplyAntiCorrelatedTag{});
  // the same table can be made in many ways
  uint64_t h = 0x9e3779b97f4a7c15ull * (f.raw.size() + 1);
  for (auto x : f.raw)
    h = (h ^ (uint64_t)(int64_t)(x * 1e4)) * 0x100000001b3ull;
  h >>= 20;
  auto comb_of = [&](size_t i) {
    std::vector<std::size_t> comb;
    if (f.v.size() == 2)
      comb = {i / u[f.v[1]].size, i % u[f.v[1]].size};
    else
      comb = {i};
    return comb;
  };
  auto fill = [&](factor::Factor &res, bool swapped) {
    for (size_t i = 0; i < f.raw.size(); ++i) {
      if (f.raw[i] == 0 && (i & 1))
        continue; // left out of the table
      auto comb = comb_of(i);
      if (swapped)
        std::swap(comb[0], comb[1]);
      res.set(comb, (float)f.raw[i]);
    }
  };
  const int way = (int)(h % 10);
  if (way == 1 && vs.size() == 2) {
    factor::Factor turned(categoric::Group{vs[1], vs[0]});
    fill(turned, true);
    return std::make_shared<factor::Factor>(
        turned.cloneWithPermutedGroup(categoric::Group{categoric::VariablesSoup{vs[0], vs[1]}}));
  }
  auto res = std::make_shared<factor::Factor>(way < 5            ? categoric::Group{vs}
                                              : vs.size() == 2 ? categoric::Group{vs[0], vs[1]}
                                                               : categoric::Group{vs[0]});
  if (way == 2) { // overwritten, then started again
    res->set(comb_of(f.raw.size() - 1), 3.f);
    res->clear();
  }
  if (way == 3 && f.raw[0] != 0)
    res->set(comb_of(0), 5.f);
  fill(*res, false);
  if (way == 4 && vs.size() == 1) {
    factor::Factor ones{categoric::Group{vs}};
    for (size_t i = 0; i < f.raw.size(); ++i)
      ones.set({i}, 1.f);
    return std::make_shared<factor::Factor>(std::vector<const factor::Immutable *>{res.get(), &ones});
  }
  return res;
}

std::shared_ptr<factor::FactorExponential> World::makeExp(const FacSpec &f) const {
  auto base = makeFactor(f);
  if (f.w == 1)
    return std::make_shared<factor::FactorExponential>(*base);
  if (f.raw[0] > 0 && (uint64_t)(f.raw[0] * 1e5) % 5 == 1) {
    // made for other variables first
    categoric::VariablesSoup vs, others;
    for (int v : f.v) {
      vs.push_back(u[v].ptr);
      others.push_back(categoric::make_variable(u[v].size, "other" + std::to_string(v)));
    }
    factor::Factor tmp{categoric::Group{others}};
    base->function().forEachNonNullCombination<false>(
        [&](const auto &comb, float img) { tmp.set(comb, img); });
    auto res = std::make_shared<factor::FactorExponential>(tmp, (float)f.w);
    res->replaceVariables(vs);
    return res;
  }
  return std::make_shared<factor::FactorExponential>(*base, (float)f.w);
}

void World::noteInserted(Inst &i, const std::vector<int> &v, const FacPtr &f, bool tunable, int group) {
  SimOff off;
  for (int x : v)
    if (!i.m.has(x))
      i.m.order.push_back(x);
  i.m.facs.push_back({f, tunable});
  int pos = (int)i.m.facs.size() - 1;
  if (tunable) {
    if (group >= 0) {
      f->w = i.m.facs[i.m.groups[group][0]].f->w;
      i.m.groups[group].push_back(pos);
    } else
      i.m.groups.push_back({pos});
  }
  if (!f->obj) {
    // a copy was made: it has to be the one factor not seen before
    std::set<const factor::Immutable *> known;
    for (auto &e : i.m.facs)
      if (e.f->obj)
        known.insert(e.f->obj.get());
    for (const auto &p : i.fa()->getAllFactors())
      if (!known.count(p.get()))
        f->obj = p;
    if (!f->obj && (asserts & A_REPORT))
      wrong("wrong-report", "the factor just inserted is not reported");
  }
}

bool World::addFactor(Inst &i, std::vector<int> v, int kind, uint64_t seed, int zeros, int share) {
  if (!i.fc())
    return false;
  if (v.size() == 2 && (v[0] == v[1] || i.m.connected(v[0], v[1])))
    return false;
  bool tunable = kind == K_TUN || kind == K_TUN_COPY;
  if (tunable && !i.ft())
    return false;
  bool exp = tunable || kind == K_EXP_CONST || kind == K_EXP_CONST_COPY;
  Rng r(seed ^ 0xbeef);
  double w = (float)(r.unit() * 4 - 2);
  if (r.chance(0.1))
    w = 0;
  if (r.chance(0.15))
    w = r.chance(0.7) ? 1 : -1;
  FacPtr f = makeSpec(v, seed, exp ? 2 : zeros, w);
  int group = -1;
  std::optional<categoric::VariablesSet> share_set;
  if (tunable && share > 0 && !i.m.groups.empty()) {
    int gi = (share - 1) % (int)i.m.groups.size();
    int fi;
    {
      SimOff off;
      const auto &gr = i.m.groups[gi];
      fi = gr[(share / 7) % gr.size()];
      // the set of variables must name one tunable factor only
      std::set<int> want(i.m.facs[fi].f->v.begin(), i.m.facs[fi].f->v.end());
      int n = 0;
      for (auto &e : i.m.facs)
        if (e.tunable && std::set<int>(e.f->v.begin(), e.f->v.end()) == want)
          ++n;
      // the factor to insert is itself not yet there when the group is searched
      if (n == 1 && std::set<int>(v.begin(), v.end()) != want)
        group = gi;
    }
    if (group >= 0) {
      categoric::VariablesSet set;
      for (int x : i.m.facs[fi].f->v)
        set.emplace(u[x].ptr);
      share_set = set;
    }
  }
  switch (kind) {
  case K_CONST: {
    auto o = makeFactor(*f);
    i.fc()->addConstFactor(o);
    f->obj = o;
  } break;
  case K_CONST_COPY: {
    auto o = makeFactor(*f);
    i.fc()->copyConstFactor(*o);
    if (r.chance(0.5)) // nobody else's business any more
      o->set(std::vector<std::size_t>(v.size(), 0), 77.f);
  } break;
  case K_EXP_CONST: {
    auto o = makeExp(*f);
    i.fc()->addConstFactor(o);
    f->obj = o;
  } break;
  case K_EXP_CONST_COPY: {
    auto o = makeExp(*f);
    i.fc()->copyConstFactor(*o);
    if (r.chance(0.5))
      o->setWeight(7.f);
    SimOff off;
    // deep copies of constant factors hold the transformed images
    for (auto &x : f->raw)
      x = (float)std::exp(f->w * x);
    f->exp = false;
    f->w = 1;
  } break;
  case K_TUN: {
    auto o = makeExp(*f);
    i.ft()->addTunableFactor(o, share_set);
    f->obj = o;
  } break;
  case K_TUN_COPY: {
    auto o = makeExp(*f);
    i.ft()->copyTunableFactor(*o, share_set);
    if (r.chance(0.5))
      o->setWeight(7.f);
  } break;
  default:
    return false;
  }
  noteInserted(i, v, f, tunable, group);
  return true;
}

bool World::setEv(Inst &i, int var, int val, bool byname) {
  if (!i.es() || !i.m.has(var))
    return false;
  val %= u[var].size;
  if (byname)
    i.es()->setEvidence(u[var].name, val);
  else
    i.es()->setEvidence(u[var].ptr, val);
  i.m.ev[var] = val;
  return true;
}
bool World::remEv(Inst &i, int var, bool byname) {
  if (!i.er() || !i.m.has(var) || i.m.ev[var] < 0)
    return false;
  if (byname)
    i.er()->removeEvidence(u[var].name);
  else
    i.er()->removeEvidence(u[var].ptr);
  i.m.ev[var] = -1;
  return true;
}
bool World::remSet(Inst &i, uint64_t mask, bool byname) {
  if (!i.er())
    return false;
  categoric::VariablesSet set;
  std::unordered_set<std::string> names;
  std::vector<int> which;
  for (int v : i.m.order)
    if (i.m.ev[v] >= 0 && (mask >> (v % 60) & 1)) {
      which.push_back(v);
      set.emplace(u[v].ptr);
      names.emplace(u[v].name);
    }
  if (byname)
    i.er()->removeEvidences(names);
  else
    i.er()->removeEvidences(set);
  for (int v : which)
    i.m.ev[v] = -1;
  return true;
}
bool World::remAll(Inst &i) {
  if (!i.er())
    return false;
  i.er()->removeAllEvidences();
  for (auto &e : i.m.ev)
    e = -1;
  return true;
}
bool World::setWeights(Inst &i, uint64_t seed) {
  if (!i.tg())
    return false;
  Rng r(seed);
  std::vector<float> w;
  for (size_t k = 0; k < i.m.groups.size(); ++k)
    w.push_back((float)(r.unit() * 4 - 2));
  if (seed % 7 == 3) {
    for (auto &x : w)
      x = 1;
    train::set_ones(*i.tg());
  } else
    i.tg()->setWeights(w);
  SimOff off;
  for (size_t k = 0; k < i.m.groups.size(); ++k)
    for (int f : i.m.groups[k]) {
      i.m.facs[f].f->w = w[k];
      for (auto &o : inst)
        if (o.get() != &i)
          for (auto &e : o->m.facs)
            if (e.f == i.m.facs[f].f)
              o->stale = true;
    }
  return true;
}
void World::fresh(Inst &i) {
  if (!i.stale)
    return;
  if (i.tg()) {
    auto now = i.tg()->getWeights();
    i.tg()->setWeights(now);
    SimOff off;
    // a group one member of which was changed through another model is made
    // uniform again by this assignment
    for (size_t g = 0; g < now.size() && g < i.m.groups.size(); ++g) {
      bool one = false;
      for (int f : i.m.groups[g])
        one = one || std::fabs(i.m.facs[f].f->w - now[g]) < 1e-6;
      if (!one)
        continue;
      for (int f : i.m.groups[g])
        if (std::fabs(i.m.facs[f].f->w - now[g]) >= 1e-6) {
          i.m.facs[f].f->w = now[g];
          for (auto &o : inst)
            if (o.get() != &i)
              for (auto &e : o->m.facs)
                if (e.f == i.m.facs[f].f)
                  o->stale = true;
        }
    }
  } else if (i.es()) {
    // any change of the evidence makes the model start again
    bool done = false;
    for (int v : i.m.order)
      if (i.m.ev[v] >= 0) {
        i.es()->setEvidence(u[v].ptr, i.m.ev[v]);
        done = true;
        // merged tables of neighbours are only renewed for this variable
      }
    for (int v : i.m.order)
      if (i.m.ev[v] < 0) {
        i.es()->setEvidence(u[v].ptr, 0);
        i.er()->removeEvidence(u[v].ptr);
        done = true;
      }
    (void)done;
  }
  i.stale = false;
}

// ==================================================================== queries
namespace {
std::string show(const std::vector<double> &v) {
  std::string s = "[";
  char b[40];
  for (double x : v) {
    snprintf(b, sizeof b, "%.5f ", x);
    s += b;
  }
  return s + "]";
}
std::string show(const std::vector<float> &v) { return show(std::vector<double>(v.begin(), v.end())); }
} // namespace

void World::qMarginal(Inst &i, int var, int threads, bool byname, bool cmp) {
  if (!i.m.has(var))
    return;
  // one thread is what is used when nothing is said
  std::vector<float> got = threads == 1 ? (byname ? i.q()->getMarginalDistribution(u[var].name)
                                                  : i.q()->getMarginalDistribution(u[var].ptr))
                           : byname     ? i.q()->getMarginalDistribution(u[var].name, threads)
                                        : i.q()->getMarginalDistribution(u[var].ptr, threads);
  if (!cmp)
    return;
  SimOff off;
  ++answered;
  sim_eval(1);
  if ((int)got.size() != u[var].size)
    wrong("wrong-marginal", "marginal of %s has %zu values", u[var].name.c_str(), got.size());
  std::vector<double> want;
  bool tree = i.m.observed(var) || i.m.clusterOf(var).tree;
  if (!i.m.marginal(var, want))
    return;
  double sum = 0;
  for (float x : got)
    sum += x;
  if (!(std::fabs(sum - 1) < 1e-3) && (asserts & (A_ANSWER | A_LOOPY)))
    wrong("wrong-marginal", "marginal of %s is not normalised: %s; %s", u[var].name.c_str(),
          show(got).c_str(), i.m.text().c_str());
  if (!tree || !(asserts & A_ANSWER))
    return;
  for (size_t k = 0; k < want.size(); ++k)
    if (!(std::fabs(want[k] - got[k]) < TOL))
      wrong("wrong-marginal", "marginal of %s with %d threads is %s, exact %s; %s", u[var].name.c_str(),
            threads, show(got).c_str(), show(want).c_str(), i.m.text().c_str());
}

void World::qMap(Inst &i, int var, int threads, bool byname, bool cmp) {
  if (!i.m.has(var))
    return;
  std::size_t got = threads == 1 ? (byname ? i.q()->getMAP(u[var].name) : i.q()->getMAP(u[var].ptr))
                    : byname     ? i.q()->getMAP(u[var].name, threads)
                                 : i.q()->getMAP(u[var].ptr, threads);
  if (!cmp)
    return;
  SimOff off;
  ++answered;
  sim_eval(1);
  std::vector<double> want;
  if ((int)got >= u[var].size)
    wrong("wrong-map", "MAP of %s is %zu, outside its domain", u[var].name.c_str(), got);
  if (!(asserts & A_ANSWER) || !i.m.maxMarginal(var, want))
    return;
  if (!i.m.observed(var) && !i.m.clusterOf(var).tree)
    return;
  if (want[got] < 1 - 1e-3)
    wrong("wrong-map", "MAP of %s with %d threads is %zu, max-marginals %s; %s", u[var].name.c_str(), threads,
          got, show(want).c_str(), i.m.text().c_str());
}

void World::qHiddenMap(Inst &i, int threads, bool cmp) {
  auto got = threads == 1 ? i.q()->getHiddenSetMAP() : i.q()->getHiddenSetMAP(threads);
  if (!cmp)
    return;
  SimOff off;
  ++answered;
  sim_eval(1);
  if (!(asserts & A_ANSWER))
    return;
  auto hid = i.st()->getHiddenVariables();
  if (hid.size() != got.size())
    wrong("wrong-map", "MAP of the hidden set has %zu values for %zu variables", got.size(), hid.size());
  size_t k = 0;
  for (const auto &v : hid) {
    int id = -1;
    for (size_t j = 0; j < u.size(); ++j)
      if (u[j].ptr == v)
        id = (int)j;
    if (id < 0)
      wrong("wrong-report", "unknown hidden variable %s", v->name().c_str());
    std::vector<double> want;
    if (i.m.clusterOf(id).tree && i.m.maxMarginal(id, want))
      if (got[k] >= want.size() || want[got[k]] < 1 - 1e-3)
        wrong("wrong-map", "MAP value of %s in the hidden set is %zu, max-marginals %s; %s", v->name().c_str(),
              got[k], show(want).c_str(), i.m.text().c_str());
    ++k;
  }
}

void World::qJoint(Inst &i, uint64_t seed, int threads, bool byname, bool cmp) {
  std::vector<int> vars;
  bool tree = true;
  {
    SimOff off;
    Rng r(seed);
    auto cl = i.m.clusters();
    size_t dom = 1;
    if (!cl.empty()) {
      auto &c = cl[r.below(cl.size())];
      tree = c.tree;
      size_t want = 1 + r.below(std::min<size_t>(4, c.vars.size()));
      vars.push_back(c.vars[r.below(c.vars.size())]);
      while (vars.size() < want) {
        std::vector<int> next;
        dom = 1;
        for (int v : vars)
          dom *= u[v].size;
        for (int v : c.vars)
          if (std::find(vars.begin(), vars.end(), v) == vars.end() && dom * u[v].size <= 700)
            for (int w : vars)
              if (i.m.connected(v, w)) {
                next.push_back(v);
                break;
              }
        if (next.empty())
          break;
        vars.push_back(next[r.below(next.size())]);
      }
      dom = 1;
      for (int v : vars)
        dom *= u[v].size;
    }
    // observed variables may be part of the group
    for (int v : i.m.order)
      if (i.m.ev[v] >= 0 && r.chance(vars.empty() ? 0.7 : 0.4) && vars.size() < 6 && dom * u[v].size < 800) {
        vars.push_back(v);
        dom *= u[v].size;
      }
    for (size_t k = vars.size(); k > 1; --k)
      std::swap(vars[k - 1], vars[r.below(k)]);
  }
  if (vars.empty())
    return;
  std::vector<std::string> names;
  categoric::VariablesSoup soup;
  for (int v : vars) {
    names.push_back(u[v].name);
    soup.push_back(u[v].ptr);
  }
  std::unique_ptr<factor::Factor> got;
  if (byname)
    got = std::make_unique<factor::Factor>(threads == 1 ? i.q()->getJointMarginalDistribution(names)
                                                         : i.q()->getJointMarginalDistribution(names, threads));
  else
    got = std::make_unique<factor::Factor>(
        threads == 1 ? i.q()->getJointMarginalDistribution(categoric::Group{soup})
                     : i.q()->getJointMarginalDistribution(categoric::Group{soup}, threads));
  if (!cmp)
    return;
  SimOff off;
  ++answered;
  sim_eval(1);
  std::vector<double> want, have;
  if (!(asserts & A_ANSWER) || !tree || !i.m.joint(vars, want))
    return;
  const auto &gv = got->function().vars().getVariables();
  if (gv.size() != soup.size() || !std::equal(gv.begin(), gv.end(), soup.begin()))
    wrong("wrong-joint", "joint distribution does not refer to the group asked for");
  double z = 0;
  for (size_t k = 0; k < want.size(); ++k) {
    std::vector<size_t> comb(vars.size());
    size_t x = k;
    for (size_t j = vars.size(); j-- > 0;) {
      comb[j] = x % u[vars[j]].size;
      x /= u[vars[j]].size;
    }
    have.push_back(got->function().findTransformed(comb));
    z += have.back();
  }
  for (auto &x : have)
    x /= z;
  for (size_t k = 0; k < want.size(); ++k)
    if (!(std::fabs(want[k] - have[k]) < TOL)) {
      std::string s;
      for (int v : vars)
        s += u[v].name + " ";
      wrong("wrong-joint", "joint of %swith %d threads is %s, exact %s; %s", s.c_str(), threads,
            show(have).c_str(), show(want).c_str(), i.m.text().c_str());
    }
}

void World::qAll(Inst &i, int threads) {
  std::vector<int> vars = i.m.order;
  for (int v : vars)
    qMarginal(i, v, threads, false);
  for (int v : vars)
    qMap(i, v, threads, false);
}

std::vector<std::vector<size_t>> World::makeSet(const Inst &i, uint64_t seed, int n) {
  SimOff off;
  Rng r(seed);
  std::vector<std::vector<size_t>> set;
  for (int k = 0; k < n; ++k) {
    set.emplace_back();
    for (int v : i.m.order)
      set.back().push_back(r.below(u[v].size));
  }
  return set;
}

std::vector<float> World::gradient(Inst &i, const std::vector<std::vector<size_t>> &set, int threads, float pct) {
  train::TrainSet ts{set};
  if (threads == 1)
    return i.tg()->getWeightsGradient(pct == 1.f ? ts.makeIterator() : ts.makeSubSetIterator(pct));
  return i.tg()->getWeightsGradient(pct == 1.f ? ts.makeIterator() : ts.makeSubSetIterator(pct), threads);
}

bool World::exactGradient(const Mirror &before, bool conditional, const std::vector<std::vector<size_t>> &set,
                          std::vector<double> &want) const {
  Mirror m = before;
  size_t n = before.groups.size();
  want.assign(n, 0);
  std::vector<double> exps(n, 0);
  if (!conditional) {
    for (auto &e : m.ev)
      e = -1;
    if (!m.acyclic())
      return false;
    for (size_t g = 0; g < n; ++g)
      if (!m.expectation((int)g, exps[g]))
        return false;
  } else {
    if (!m.acyclic())
      return false;
    for (const auto &c : set) {
      for (size_t k = 0; k < m.order.size(); ++k)
        if (m.ev[m.order[k]] >= 0)
          m.ev[m.order[k]] = (int)c[k];
      for (size_t g = 0; g < n; ++g) {
        double e;
        if (!m.expectation((int)g, e))
          return false;
        exps[g] += e / (double)set.size();
      }
    }
  }
  for (size_t g = 0; g < n; ++g)
    want[g] = m.groupAlpha((int)g, set) - exps[g];
  return true;
}

void World::checkGradient(const Mirror &before, bool conditional, const std::vector<std::vector<size_t>> &set,
                          const std::vector<float> &got) {
  SimOff off;
  ++answered;
  sim_eval(1);
  if (!(asserts & A_GRAD))
    return;
  if (got.size() != before.groups.size())
    wrong("wrong-gradient", "gradient has %zu values for %zu groups", got.size(), before.groups.size());
  std::vector<double> want;
  if (!exactGradient(before, conditional, set, want))
    return;
  for (size_t g = 0; g < got.size(); ++g)
    if (!(std::fabs(want[g] - got[g]) < 2e-3))
      wrong("wrong-gradient", "gradient is %s, exact %s; %s", show(got).c_str(), show(want).c_str(),
            before.text().c_str());
}

void World::syncEvidence(Inst &i) {
  SimOff off;
  for (auto &e : i.m.ev)
    e = -1;
  for (const auto &[var, val] : i.st()->getEvidences())
    for (size_t j = 0; j < u.size(); ++j)
      if (u[j].ptr == var)
        i.m.ev[j] = (int)val;
}

void World::qGradient(Inst &i, uint64_t seed, int n, int threads) {
  if (!i.tg() || i.m.order.empty())
    return;
  auto set = makeSet(i, seed, n);
  Mirror before;
  {
    SimOff off;
    before = i.m;
  }
  auto got = gradient(i, set, threads);
  syncEvidence(i);
  checkGradient(before, (bool)i.crf, set, got);
}

std::vector<std::vector<size_t>> World::qSamples(Inst &i, int n, int threads, int64_t seed, int delta,
                                                 int transient, bool cmp) {
  strct::GibbsSampler::SamplesGenerationContext ctx;
  ctx.samples_number = n;
  if (delta >= 0)
    ctx.delta_iterations = delta;
  if (transient >= 0)
    ctx.transient = transient;
  if (seed >= 0)
    ctx.seed = (size_t)seed;
  auto got = threads == 1 ? i.s()->makeSamples(ctx) : i.s()->makeSamples(ctx, threads);
  if (!cmp)
    return got;
  SimOff off;
  sim_eval(1);
  if (!(asserts & A_SAMPLE))
    return got;
  if ((int)got.size() != n)
    wrong("wrong-samples", "%zu samples instead of %d", got.size(), n);
  // values excluded by a unary factor or by the evidence, where that is all there is to exclude values
  std::map<int, std::vector<double>> alone;
  bool clear = transient != 0;
  for (int v : i.m.order)
    if (i.m.ev[v] < 0)
      alone[v].assign(u[v].size, 1.0);
  for (auto &e : i.m.facs) {
    const FacSpec &f = *e.f;
    int hid = 0;
    for (int v : f.v)
      hid += i.m.ev[v] < 0;
    for (size_t k = 0; k < f.raw.size(); ++k) {
      std::vector<int> c = f.v.size() == 2 ? std::vector<int>{(int)(k / u[f.v[1]].size), (int)(k % u[f.v[1]].size)}
                                           : std::vector<int>{(int)k};
      double x = f.image(k);
      if (hid == (int)f.v.size() && hid == 2)
        clear = clear && x > 1e-3;
      else if (hid)
        for (size_t j = 0; j < c.size(); ++j)
          if (i.m.ev[f.v[j]] < 0 && (c.size() == 1 || i.m.ev[f.v[1 - j]] == c[1 - j]))
            alone[f.v[j]][c[j]] *= x;
    }
  }
  for (auto &[v, p] : alone) {
    double most = *std::max_element(p.begin(), p.end());
    clear = clear && most > 1e-6 && most < 1e6;
  }
  if (clear)
    for (const auto &c : got)
      for (size_t k = 0; k < c.size() && k < i.m.order.size(); ++k)
        if (auto it = alone.find(i.m.order[k]); it != alone.end() && c[k] < it->second.size() && it->second[c[k]] == 0)
          wrong("impossible-sample", "value %zu of %s was drawn although its probability is zero; seed %lld, %d threads; %s",
                c[k], u[i.m.order[k]].name.c_str(), (long long)seed, threads, i.m.text().c_str());
  for (const auto &c : got) {
    if (c.size() != i.m.order.size())
      wrong("wrong-samples", "sample has %zu values for %zu variables", c.size(), i.m.order.size());
    for (size_t k = 0; k < c.size(); ++k) {
      int v = i.m.order[k];
      if ((int)c[k] >= u[v].size)
        wrong("wrong-samples", "value %zu of %s is outside its domain", c[k], u[v].name.c_str());
      if (i.m.ev[v] >= 0 && (int)c[k] != i.m.ev[v])
        wrong("wrong-samples", "observed variable %s has value %zu instead of %d; %s", u[v].name.c_str(), c[k],
              i.m.ev[v], i.m.text().c_str());
    }
  }
  return got;
}

// ==================================================================== reports
void World::checkReport(Inst &i) {
  // the calls are made for real, the comparisons are not simulated
  const auto &vars = i.st()->getAllVariables();
  auto hid = i.st()->getHiddenVariables();
  auto obs = i.st()->getObservedVariables();
  const auto &evs = i.st()->getEvidences();
  const auto &all = i.fa()->getAllFactors();
  SimOff off;
  sim_eval(1);
  if (asserts & A_REPORT) {
    std::string got, want;
    for (const auto &v : vars)
      got += v->name() + " ";
    for (int v : i.m.order)
      want += u[v].name + " ";
    if (got != want)
      wrong("wrong-report", "variables are '%s', expected '%s'", got.c_str(), want.c_str());
    for (size_t k = 0; k < vars.size(); ++k)
      if (vars[k] != u[i.m.order[k]].ptr)
        wrong("wrong-report", "variable %s is another object", vars[k]->name().c_str());
    size_t nh = 0, no = 0;
    for (int v : i.m.order) {
      bool o = i.m.ev[v] >= 0;
      (o ? no : nh)++;
      if ((hid.find(u[v].ptr) != hid.end()) == o)
        wrong("wrong-report", "%s is %s the hidden variables; %s", u[v].name.c_str(), o ? "among" : "missing from",
              i.m.text().c_str());
      if ((obs.find(u[v].ptr) != obs.end()) != o)
        wrong("wrong-report", "%s is %s the observed variables; %s", u[v].name.c_str(),
              o ? "missing from" : "among", i.m.text().c_str());
      auto it = evs.find(u[v].ptr);
      if (o && (it == evs.end() || (int)it->second != i.m.ev[v]))
        wrong("wrong-report", "evidence of %s is not the value requested (%d); %s", u[v].name.c_str(), i.m.ev[v],
              i.m.text().c_str());
    }
    if (hid.size() != nh || obs.size() != no || evs.size() != no)
      wrong("wrong-report", "hidden %zu observed %zu evidences %zu, expected %zu and %zu", hid.size(), obs.size(),
            evs.size(), nh, no);
    if (all.size() != i.m.facs.size())
      wrong("wrong-report", "%zu factors reported, %zu inserted", all.size(), i.m.facs.size());
    size_t nt = 0;
    for (auto &e : i.m.facs) {
      if (all.find(e.f->obj) == all.end())
        wrong("wrong-report", "an inserted factor is not reported");
      bool in_const = i.cg()->getConstFactors().count(e.f->obj);
      if (in_const == e.tunable)
        wrong("wrong-report", "a factor is reported with the wrong kind");
      nt += e.tunable;
      // values
      const auto &fn = e.f->obj->function();
      for (size_t k = 0; k < e.f->raw.size(); ++k) {
        std::vector<size_t> comb;
        if (e.f->v.size() == 2)
          comb = {k / u[e.f->v[1]].size, k % u[e.f->v[1]].size};
        else
          comb = {k};
        double g = fn.findTransformed(comb), w = e.f->image(k);
        if (!(std::fabs(g - w) <= 1e-4 + 1e-4 * std::fabs(w)))
          wrong("wrong-report", "value of a factor is %g instead of %g", g, w);
      }
    }
    if (i.cg()->getConstFactors().size() != i.m.facs.size() - nt)
      wrong("wrong-report", "%zu constant factors instead of %zu", i.cg()->getConstFactors().size(),
            i.m.facs.size() - nt);
    if (i.tg() && i.tg()->getTunableFactors().size() != nt)
      wrong("wrong-report", "%zu tunable factors instead of %zu", i.tg()->getTunableFactors().size(), nt);
  }
  if (i.tg() && (asserts & (A_WEIGHT | A_REPORT))) {
    auto w = i.tg()->getWeights();
    auto cl = i.tg()->getTunableClusters();
    if (w.size() != i.m.groups.size() || cl.size() != w.size())
      wrong("wrong-weights", "%zu weights and %zu groups reported, %zu expected", w.size(), cl.size(),
            i.m.groups.size());
    for (size_t g = 0; g < w.size(); ++g) {
      std::vector<const factor::Immutable *> got;
      if (std::holds_alternative<train::FactorExponentialPtr>(cl[g]))
        got.push_back(std::get<train::FactorExponentialPtr>(cl[g]).get());
      else
        for (auto &p : std::get<train::TunableClusters>(cl[g]))
          got.push_back(p.get());
      std::vector<const factor::Immutable *> want;
      for (int f : i.m.groups[g])
        want.push_back(i.m.facs[f].f->obj.get());
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
      if (got != want)
        wrong("wrong-weights", "group %zu does not hold the factors inserted into it (%zu instead of %zu)", g,
              got.size(), want.size());
      for (int f : i.m.groups[g]) {
        auto *e = dynamic_cast<factor::FactorExponential *>(i.m.facs[f].f->obj.get());
        if (!e || std::fabs(e->getWeight() - i.m.facs[f].f->w) > 1e-5)
          wrong("wrong-weights", "weight of a factor in group %zu is %g instead of %g", g,
                e ? e->getWeight() : 0.0, i.m.facs[f].f->w);
        if (std::fabs(w[g] - i.m.facs[f].f->w) > 1e-5)
          wrong("wrong-weights", "weight %zu is %g instead of %g", g, w[g], i.m.facs[f].f->w);
      }
    }
  }
}

void World::checkStruct(Inst &i, strct::PropagationKind kind) {
  if (!(asserts & A_STRUCT))
    return;
  bool has = i.ba()->hasPropagationResult();
  SimOff off;
  sim_eval(1);
  if (!has)
    wrong("wrong-structure", "no propagation result after a query");
  const auto &r = i.ba()->getLastPropagationResult();
  if (r.propagation_kind_done != kind)
    wrong("wrong-structure", "the wrong kind of propagation is reported");
  std::multiset<std::pair<size_t, bool>> got, want;
  for (auto &c : r.structures)
    got.insert({c.size, c.tree_or_loopy_graph});
  bool all = true;
  for (auto &c : i.m.clusters()) {
    want.insert({c.vars.size(), c.tree});
    all = all && c.tree;
  }
  if (got != want) {
    std::string g, w;
    for (auto &[n, t] : got)
      g += std::to_string(n) + (t ? "t " : "l ");
    for (auto &[n, t] : want)
      w += std::to_string(n) + (t ? "t " : "l ");
    wrong("wrong-structure", "groups reported '%s', expected '%s'; %s", g.c_str(), w.c_str(), i.m.text().c_str());
  }
  if (all && !r.was_completed)
    wrong("wrong-structure", "propagation over acyclic groups reported as not completed");
}

// ==================================================================== rejections
bool World::reject(Inst &i, int k, uint64_t seed) {
  Rng r(seed);
  auto &m = i.m;
  int fresh_var = -1, known = -1, known2 = -1;
  {
    SimOff off;
    std::vector<int> fv;
    for (size_t j = 0; j < u.size(); ++j)
      if (!m.has((int)j))
        fv.push_back((int)j);
    if (!fv.empty())
      fresh_var = fv[r.below(fv.size())];
    if (!m.order.empty()) {
      known = m.order[r.below(m.order.size())];
      known2 = m.order[r.below(m.order.size())];
    }
  }
  const char *what = "";
  bool threw = false;
  auto attempt = [&](const char *w, auto &&f) {
    what = w;
    try {
      f();
    } catch (const std::exception &) {
      threw = true;
    }
  };
  auto clash = [&](int v) { return categoric::make_variable(u[v].size, u[v].name); };
  auto table2 = [&](const categoric::VariablePtr &a, const categoric::VariablePtr &b) {
    auto f = std::make_shared<factor::Factor>(categoric::Group{a, b});
    f->set({0, 0}, 1.5f);
    f->set({a->size() - 1, b->size() - 1}, 0.5f);
    return f;
  };
  auto table1 = [&](const categoric::VariablePtr &a) {
    auto f = std::make_shared<factor::Factor>(categoric::Group{a});
    f->set({0}, 1.5f);
    return f;
  };
  auto tun = [&](const factor::Factor &f) { return std::make_shared<factor::FactorExponential>(f, 1.7f); };
  bool ins = i.fc() != nullptr, tinsert = i.ft() != nullptr;
  switch (k % REJECTS) {
  case 0:
    if (!ins)
      return false;
    attempt("null constant factor", [&] { i.fc()->addConstFactor(nullptr); });
    break;
  case 1:
    if (!tinsert)
      return false;
    attempt("null tunable factor", [&] { i.ft()->addTunableFactor(nullptr); });
    break;
  case 2: { // duplicate
    if (!ins || m.facs.empty())
      return false;
    auto &e = m.facs[r.below(m.facs.size())];
    attempt("duplicate factor", [&] { i.fc()->addConstFactor(e.f->obj); });
  } break;
  case 3: { // tunable duplicate
    if (!tinsert || m.groups.empty())
      return false;
    auto &g = m.groups[r.below(m.groups.size())];
    auto p = std::dynamic_pointer_cast<factor::FactorExponential>(m.facs[g[r.below(g.size())]].f->obj);
    if (!p)
      return false;
    attempt("duplicate tunable factor", [&] { i.ft()->addTunableFactor(p); });
  } break;
  case 4: { // three variables
    if (!ins || u.size() < 3)
      return false;
    size_t a = r.below(u.size()), b = (a + 1) % u.size(), c = (a + 2) % u.size();
    auto f = std::make_shared<factor::Factor>(categoric::Group{u[a].ptr, u[b].ptr, u[c].ptr});
    f->set({0, 0, 0}, 1.f);
    if (tinsert && r.chance(0.5))
      attempt("tunable factor of three variables", [&] { i.ft()->addTunableFactor(tun(*f)); });
    else
      attempt("factor of three variables", [&] { i.fc()->addConstFactor(f); });
  } break;
  case 5:
  case 6: { // second factor between the same variables
    if (!ins)
      return false;
    std::vector<int> cand;
    for (size_t j = 0; j < m.facs.size(); ++j)
      if (m.facs[j].f->v.size() == 2)
        cand.push_back((int)j);
    if (cand.empty())
      return false;
    auto &f = *m.facs[cand[r.below(cand.size())]].f;
    int a = f.v[0], b = f.v[1];
    if (r.chance(0.5))
      std::swap(a, b);
    auto t = table2(u[a].ptr, u[b].ptr);
    if (tinsert && r.chance(0.5))
      attempt("second tunable factor between the same variables", [&] { i.ft()->addTunableFactor(tun(*t)); });
    else if (r.chance(0.5))
      attempt("second factor between the same variables", [&] { i.fc()->addConstFactor(t); });
    else
      attempt("second factor (copied) between the same variables", [&] { i.fc()->copyConstFactor(*t); });
  } break;
  case 7: // clashing variable, unary
    if (!ins || known < 0)
      return false;
    {
      auto t = table1(clash(known));
      if (tinsert && r.chance(0.5))
        attempt("tunable factor of a clashing variable", [&] { i.ft()->addTunableFactor(tun(*t)); });
      else
        attempt("factor of a clashing variable", [&] { i.fc()->addConstFactor(t); });
    }
    break;
  case 8: // clashing second variable, first one known
  case 9: // clashing first variable
    if (!ins || known < 0 || known2 < 0 || known == known2)
      return false;
    {
      auto t = (k % REJECTS) == 8 ? table2(u[known].ptr, clash(known2)) : table2(clash(known2), u[known].ptr);
      if (tinsert && r.chance(0.5))
        attempt("tunable factor with a clashing variable", [&] { i.ft()->addTunableFactor(tun(*t)); });
      else
        attempt("factor with a clashing variable", [&] { i.fc()->addConstFactor(t); });
    }
    break;
  case 10: // new variable together with a clashing one
  case 11:
    if (!ins || known < 0 || fresh_var < 0)
      return false;
    {
      auto t = (k % REJECTS) == 10 ? table2(u[fresh_var].ptr, clash(known)) : table2(clash(known), u[fresh_var].ptr);
      if (tinsert && r.chance(0.5))
        attempt("tunable factor of a new and a clashing variable", [&] { i.ft()->addTunableFactor(tun(*t)); });
      else if (r.chance(0.5))
        attempt("factor of a new and a clashing variable", [&] { i.fc()->addConstFactor(t); });
      else
        attempt("factor (copied) of a new and a clashing variable", [&] { i.fc()->copyConstFactor(*t); });
    }
    break;
  case 12: // unknown variable
    if (!i.es())
      return false;
    if (fresh_var >= 0 && r.chance(0.5))
      attempt("evidence for a variable outside the model", [&] { i.es()->setEvidence(u[fresh_var].ptr, 0); });
    else
      attempt("evidence for an unknown name", [&] { i.es()->setEvidence(std::string("nobody"), 0); });
    break;
  case 13: // value out of range
    if (!i.es() || known < 0)
      return false;
    if (r.chance(0.5))
      attempt("evidence out of range", [&] { i.es()->setEvidence(u[known].ptr, u[known].size + r.below(3)); });
    else
      attempt("evidence out of range", [&] { i.es()->setEvidence(u[known].name, u[known].size); });
    break;
  case 14: { // removal of evidence that is not set
    if (!i.er())
      return false;
    auto hid = m.hidden();
    if (hid.empty())
      return false;
    int v = hid[r.below(hid.size())];
    if (r.chance(0.5))
      attempt("removal of evidence that is not set", [&] { i.er()->removeEvidence(u[v].ptr); });
    else
      attempt("removal of evidence that is not set", [&] { i.er()->removeEvidence(u[v].name); });
  } break;
  case 15:
  case 16: { // removal of a set, some of which are not set
    if (!i.er())
      return false;
    auto hid = m.hidden();
    if (hid.empty())
      return false;
    categoric::VariablesSet set;
    std::unordered_set<std::string> names;
    for (int v : m.order)
      if (m.ev[v] >= 0 && r.chance(0.7)) {
        set.emplace(u[v].ptr);
        names.emplace(u[v].name);
      }
    int v = hid[r.below(hid.size())];
    set.emplace(u[v].ptr);
    names.emplace(u[v].name);
    if (r.chance(0.3) && fresh_var >= 0) {
      set.emplace(u[fresh_var].ptr);
      names.emplace("nobody");
    }
    if (r.chance(0.5))
      attempt("removal of several evidences, one of which is not set", [&] { i.er()->removeEvidences(set); });
    else
      attempt("removal of several evidences, one of which is not set", [&] { i.er()->removeEvidences(names); });
  } break;
  case 17: { // weights
    if (!i.tg())
      return false;
    std::vector<float> w(m.groups.size() + 1 + r.below(2), 0.77f);
    if (!m.groups.empty() && r.chance(0.5))
      w.resize(m.groups.size() - 1);
    attempt("wrong number of weights", [&] { i.tg()->setWeights(w); });
  } break;
  case 18:
  case 19: { // unknown sharing group
    if (!tinsert || known < 0 || u.size() < 2)
      return false;
    categoric::VariablesSet set;
    // a group of variables no tunable factor has
    bool found = false;
    for (int t = 0; t < 12 && !found; ++t) {
      set.clear();
      int a = (int)r.below(u.size()), b = (int)r.below(u.size());
      set.emplace(u[a].ptr);
      set.emplace(u[b].ptr);
      found = true;
      for (auto &e : m.facs)
        if (e.tunable && std::set<int>(e.f->v.begin(), e.f->v.end()) == std::set<int>({a, b}))
          found = false;
    }
    if (!found)
      return false;
    int a = r.chance(0.5) && fresh_var >= 0 ? fresh_var : known;
    categoric::VariablesSet own;
    std::shared_ptr<factor::Factor> t;
    int b = known2;
    if (b != a && !m.connected(a, b) && r.chance(0.5)) {
      t = table2(u[a].ptr, u[b].ptr);
      own.emplace(u[b].ptr);
    } else
      t = table1(u[a].ptr);
    own.emplace(u[a].ptr);
    // naming the factor's own variables is not what is tested here
    if (own == set)
      return false;
    if (r.chance(0.5))
      attempt("unknown sharing group", [&] { i.ft()->addTunableFactor(tun(*t), set); });
    else
      attempt("unknown sharing group (copy)", [&] { i.ft()->copyTunableFactor(*tun(*t), set); });
  } break;
  case 20: { // query of an unknown variable
    int th = 1 + (int)r.below(2);
    switch (r.below(4)) {
    case 0:
      attempt("marginal of an unknown name", [&] { i.q()->getMarginalDistribution(std::string("nobody"), th); });
      break;
    case 1:
      attempt("MAP of an unknown name", [&] { i.q()->getMAP(std::string("nobody"), th); });
      break;
    case 2:
      if (fresh_var < 0)
        return false;
      attempt("marginal of an unknown variable", [&] { i.q()->getMarginalDistribution(u[fresh_var].ptr, th); });
      break;
    default:
      if (fresh_var < 0)
        return false;
      attempt("MAP of an unknown variable", [&] { i.q()->getMAP(u[fresh_var].ptr, th); });
    }
  } break;
  case 21: { // joint with an unknown variable
    if (known < 0)
      return false;
    if (fresh_var >= 0 && r.chance(0.5))
      attempt("joint with an unknown variable", [&] {
        i.q()->getJointMarginalDistribution(categoric::Group{u[known].ptr, u[fresh_var].ptr}, 1);
      });
    else if (r.chance(0.5))
      attempt("joint with an unknown name",
              [&] { i.q()->getJointMarginalDistribution(std::vector<std::string>{u[known].name, "nobody"}, 1); });
    else
      attempt("joint with a repeated name", [&] {
        i.q()->getJointMarginalDistribution(std::vector<std::string>{u[known].name, u[known].name}, 1);
      });
  } break;
  case 22: // conditional model: wrong evidence
    if (!i.crf)
      return false;
    {
      std::vector<std::size_t> vals;
      for (const auto &v : i.st()->getObservedVariables())
        vals.push_back(r.below(v->size()));
      size_t k2 = r.below(vals.size());
      size_t j = 0;
      size_t dom = 0;
      for (const auto &v : i.st()->getObservedVariables())
        if (j++ == k2)
          dom = v->size();
      switch (r.below(3)) {
      case 0:
        vals.push_back(0);
        break;
      case 1:
        vals.pop_back();
        break;
      default:
        vals[k2] = dom + r.below(2);
      }
      attempt("wrong evidence values", [&] { i.crf->setEvidences(vals); });
    }
    break;
  case 23:
    attempt("null propagation strategy", [&] { i.ba()->setLoopyPropagationStrategy(nullptr); });
    break;
  case 24: { // conditional model without evidence
    if (!i.rf)
      return false;
    bool any = false;
    for (int v : m.order)
      any = any || m.ev[v] >= 0;
    if (any)
      return false;
    attempt("conditional model without evidence",
            [&] { model::ConditionalRandomField c(*i.rf, r.chance(0.5)); });
  } break;
  case 25: { // conditional model with a tunable factor over observed variables only
    if (!i.rf)
      return false;
    bool bad = false;
    for (auto &e : m.facs)
      if (e.tunable) {
        bool all = true;
        for (int v : e.f->v)
          all = all && m.ev[v] >= 0;
        bad = bad || all;
      }
    if (!bad)
      return false;
    attempt("conditional model with a tunable factor over evidence",
            [&] { model::ConditionalRandomField c(*i.rf, r.chance(0.5)); });
  } break;
  }
  sim_count_fault(FI_REJECT);
  ++rejected;
  if (!threw)
    wrong("not-rejected", "request was not rejected: %s; %s", what, m.text().c_str());
  return true;
}

// ==================================================================== copies
// false: the copy differs from its source and that is not what is being checked
bool World::adopt(Inst &dst, Inst &src, bool copy, bool as_graph) {
  SimOff off;
  const bool care = asserts & (A_REPORT | A_WEIGHT);
#define BAD(...)                                                                                                   \
  do {                                                                                                             \
    if (!care)                                                                                                     \
      return false;                                                                                                \
    wrong("wrong-copy", __VA_ARGS__);                                                                              \
  } while (0)
  // order of variables: as reported, but exactly the variables of the source
  std::set<int> want(src.m.order.begin(), src.m.order.end());
  want.insert(dst.m.order.begin(), dst.m.order.end());
  // what the receiving model had before
  const std::vector<int> order_before = dst.m.order;
  const std::vector<std::vector<int>> groups_before = dst.m.groups;
  dst.m.order.clear();
  dst.m.groups.clear();
  for (const auto &v : dst.st()->getAllVariables()) {
    int id = -1;
    for (size_t j = 0; j < u.size(); ++j)
      if (u[j].ptr == v)
        id = (int)j;
    if (id < 0 || !want.count(id))
      BAD("the copy has an unexpected variable %s", v->name().c_str());
    want.erase(id);
    dst.m.order.push_back(id);
  }
  if (!want.empty())
    BAD("the copy lacks variable %s", u[*want.begin()].name.c_str());
  for (size_t k = 0; k < order_before.size(); ++k)
    if (dst.m.order[k] != order_before[k])
      BAD("absorbing another model changed the order of the variables");
  for (int v : src.m.order)
    if (src.m.ev[v] >= 0)
      dst.m.ev[v] = src.m.ev[v];
  std::map<int, int> pos;
  std::set<const factor::Immutable *> used;
  for (auto &e : dst.m.facs)
    used.insert(e.f->obj.get());
  using Objs = std::set<const factor::Immutable *>;
  // the groups of the copy; factors may be equal, so a factor is looked for among those of its group
  std::vector<Objs> clusters;
  Objs tunables;
  if (!as_graph)
    for (auto &c : dst.tg()->getTunableClusters()) {
      clusters.emplace_back();
      if (auto *one = std::get_if<train::FactorExponentialPtr>(&c))
        clusters.back().insert(one->get());
      else
        for (auto &x : std::get<train::TunableClusters>(c))
          clusters.back().insert(x.get());
      tunables.insert(clusters.back().begin(), clusters.back().end());
    }
  auto match = [&](const FacSpec &f, bool tunable, const Objs *among, double &dist) -> factor::ImmutablePtr {
    factor::ImmutablePtr best;
    double best_d = 1e300;
    for (const auto &p : dst.fa()->getAllFactors()) {
      if (used.count(p.get()) || (among && !among->count(p.get())) || (!among && tunables.count(p.get())))
        continue;
      const auto &vs = p->function().vars().getVariables();
      if (vs.size() != f.v.size())
        continue;
      bool same = true;
      double d = 0;
      for (size_t k = 0; k < vs.size(); ++k)
        same = same && vs[k] == u[f.v[k]].ptr;
      for (size_t k = 0; same && k < f.raw.size(); ++k) {
        std::vector<size_t> comb;
        if (f.v.size() == 2)
          comb = {k / u[f.v[1]].size, k % u[f.v[1]].size};
        else
          comb = {k};
        double g = p->function().findTransformed(comb), w = f.image(k);
        same = std::fabs(g - w) <= 1e-4 + 1e-4 * std::fabs(w);
        d += std::fabs(g - w);
        if (tunable) // two tables may be alike after the exponential
          d += std::fabs(p->function().findImage(comb) - f.raw[k]);
      }
      if (same && d < best_d) {
        best = p;
        best_d = d;
      }
    }
    if (best) {
      used.insert(best.get());
      dist += best_d;
    }
    return best;
  };
  std::map<int, factor::ImmutablePtr> twin; // of the tunable factors of the source
  std::map<size_t, size_t> from;            // group of the copy -> of the source
  std::map<size_t, size_t> old;             // group of the copy -> of those it had before
  if (!as_graph)
    for (size_t g = 0; g < groups_before.size(); ++g) {
      Objs have;
      for (int f : groups_before[g])
        have.insert(dst.m.facs[f].f->obj.get());
      size_t c = 0;
      while (c < clusters.size() && (old.count(c) || clusters[c] != have))
        ++c;
      if (c == clusters.size())
        BAD("absorbing another model changed a group of factors sharing the weight; %s", src.m.text().c_str());
      old[c] = g;
    }
  if (!as_graph)
    for (size_t g = 0; copy && g < src.m.groups.size(); ++g) {
      double best_d = 1e300;
      size_t best = clusters.size();
      std::map<int, factor::ImmutablePtr> best_twin;
      const Objs before = used;
      Objs after;
      for (size_t c = 0; c < clusters.size(); ++c) {
        if (from.count(c) || old.count(c) || clusters[c].size() != src.m.groups[g].size())
          continue;
        used = before;
        double d = 0;
        std::map<int, factor::ImmutablePtr> here;
        for (int f : src.m.groups[g]) {
          auto p = match(*src.m.facs[f].f, true, &clusters[c], d);
          if (!p)
            break;
          here[f] = p;
        }
        if (here.size() == clusters[c].size() && d < best_d) {
          best_d = d;
          best = c;
          best_twin = here;
          after = used;
        }
      }
      if (best == clusters.size())
        BAD("no group of factors sharing the weight in the copy is the one of its source; %s", src.m.text().c_str());
      used = after;
      from[best] = g;
      twin.insert(best_twin.begin(), best_twin.end());
    }
  for (size_t k = 0; k < src.m.facs.size(); ++k) {
    auto &e = src.m.facs[k];
    Mirror::Entry n = e;
    n.tunable = e.tunable && !as_graph;
    if (copy) {
      n.f = std::make_shared<FacSpec>(*e.f);
      double d = 0;
      n.f->obj = n.tunable ? twin[(int)k] : match(*e.f, false, nullptr, d);
      if (!n.f->obj)
        BAD("the copy lacks a factor of its source; %s", src.m.text().c_str());
      if (!n.tunable && n.f->exp) {
        for (auto &x : n.f->raw)
          x = (float)std::exp(n.f->w * x);
        n.f->exp = false;
        n.f->w = 1;
      }
    }
    dst.m.facs.push_back(n);
    pos[(int)k] = (int)dst.m.facs.size() - 1;
  }
  if (!as_graph) {
    // the groups of the source, in the order in which the copy reports them
    if (!copy)
      for (size_t g = 0; g < src.m.groups.size(); ++g) {
        Objs have;
        for (int f : src.m.groups[g])
          have.insert(dst.m.facs[pos[f]].f->obj.get());
        size_t c = 0;
        while (c < clusters.size() && (from.count(c) || old.count(c) || clusters[c] != have))
          ++c;
        if (c == clusters.size())
          BAD("a group of factors sharing the weight is not one of the copy; %s", src.m.text().c_str());
        from[c] = g;
      }
    if (from.size() + old.size() != clusters.size())
      BAD("the copy has a group of factors sharing the weight that its source does not have; %s",
          src.m.text().c_str());
    for (size_t c = 0; c < clusters.size(); ++c) {
      dst.m.groups.emplace_back();
      if (old.count(c)) {
        dst.m.groups.back() = groups_before[old[c]];
        continue;
      }
      for (int f : src.m.groups[from[c]])
        dst.m.groups.back().push_back(pos[f]);
    }
  }
#undef BAD
  return true;
}

Inst *World::adopted(Inst &d, Inst &src, bool copy, bool as_graph) {
  if (!adopt(d, src, copy, as_graph)) {
    inst.pop_back();
    return nullptr;
  }
  limit(d);
  return &d;
}

// dst absorbs a small model made for that; false: nothing was done
bool World::merge(Inst &dst, bool copy, uint64_t seed) {
  if (!dst.fc() || inst.size() >= 6 || u.empty())
    return false;
  Rng r(seed);
  int mode = (int)r.below(4); // 1: only constant factors, 2: only tunable ones, by range
  if (mode == 2 && !dst.ft())
    mode = 0;
  Inst &n = addModel(mode == 1 || (mode != 2 && r.chance(0.3)));
  int k = (int)r.range(1, 4);
  for (int j = 0; j < k; ++j) {
    std::vector<int> v{(int)r.below(u.size())};
    if (r.chance(0.6)) {
      v.push_back((int)r.below(u.size()));
      if (v[0] == v[1] || dst.m.connected(v[0], v[1]))
        v.pop_back();
    }
    bool tun = mode == 2 || (n.ft() && r.chance(0.6));
    uint64_t fs = r.next();
    int share = (int)r.below(40);
    addFactor(n, v, tun ? (int)K_TUN : r.chance(0.8) ? (int)K_CONST : (int)K_EXP_CONST, fs, 0,
              tun && mode != 2 ? share : 0);
  }
  if (n.m.order.empty()) {
    inst.pop_back();
    return false;
  }
  if (!mode && r.chance(0.4))
    setEv(n, n.m.order[r.below(n.m.order.size())], (int)r.below(60), false);
  bool graph = dst.g != nullptr;
  if (mode == 1) {
    const auto &f = n.cg()->getConstFactors();
    dst.fc()->absorbConstFactors(f.begin(), f.end(), copy);
  } else if (mode == 2) {
    std::vector<train::FactorExponentialPtr> f;
    for (auto &c : n.tg()->getTunableClusters())
      f.push_back(std::get<train::FactorExponentialPtr>(c));
    dst.ft()->absorbTunableFactors(f.begin(), f.end(), copy);
  } else if (graph)
    dst.g->absorb(*n.fa(), copy);
  else
    dst.rf->absorb(*n.fa(), copy);
  bool ok = adopt(dst, n, copy, graph);
  if (!ok) // not what is being checked: nothing is known about that model any more
    for (size_t k2 = 0; k2 < inst.size(); ++k2)
      if (inst[k2].get() == &dst) {
        inst.erase(inst.begin() + k2);
        break;
      }
  if (!ok || inst.size() > 4 || r.chance(0.5))
    inst.pop_back(); // the absorbed model is gone, the receiving one stays
  return ok;
}

Inst *World::absorb(Inst &src, bool copy, int target) {
  if (inst.size() >= 5)
    return nullptr;
  if (src.crf && target == 3) {
    auto c = std::make_unique<model::ConditionalRandomField>(*src.crf);
    Inst &d = add();
    d.crf = std::move(c);
    return adopted(d, src, false, false);
  }
  if (src.g && target == 3) {
    auto c = std::make_unique<model::Graph>(*src.g);
    Inst &d = add();
    d.g = std::move(c);
    return adopted(d, src, false, true);
  }
  if (src.rf && target == 3) {
    auto c = std::make_unique<model::RandomField>(*src.rf);
    Inst &d = add();
    d.rf = std::move(c);
    return adopted(d, src, false, false);
  }
  if (target == 2) {
    if (!src.rf)
      return nullptr;
    bool any = false;
    for (int v : src.m.order)
      any = any || src.m.ev[v] >= 0;
    if (!any)
      return nullptr;
    for (auto &e : src.m.facs)
      if (e.tunable) {
        bool all = true;
        for (int v : e.f->v)
          all = all && src.m.ev[v] >= 0;
        if (all)
          return nullptr;
      }
    auto c = std::make_unique<model::ConditionalRandomField>(*src.rf, copy);
    Inst &d = add();
    d.crf = std::move(c);
    return adopted(d, src, copy, false);
  }
  if (target == 1) {
    auto c = std::make_unique<model::Graph>();
    c->absorb(*src.fa(), copy);
    Inst &d = add();
    d.g = std::move(c);
    return adopted(d, src, copy, true);
  }
  auto c = std::make_unique<model::RandomField>();
  c->absorb(*src.fa(), copy);
  Inst &d = add();
  d.rf = std::move(c);
  return adopted(d, src, copy, false);
}
} // namespace W
