// C16: exports and what is read back. C17: damaged and unreadable documents.
// C18: train sets and tables in text files.
#include "world.h"

#include <EasyFactorGraph/io/TrainSetImport.h>
#include <EasyFactorGraph/io/json/Exporter.h>
#include <EasyFactorGraph/io/json/Importer.h>
#include <Utils.h> // import_values

#include <cmath>
#include <errno.h>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

namespace {
using namespace W;

// ------------------------------------------------------------ model contents
struct SFac {
  std::vector<std::string> names; // sorted
  std::vector<double> vals;       // first name is the slowest
  bool exp = false;
  double w = 1;
};
struct Snap {
  std::map<std::string, size_t> vars, ev;
  std::vector<SFac> consts;
  std::vector<std::vector<SFac>> groups;
};

SFac snapFactor(const factor::Immutable &f) {
  SFac s;
  const auto &vars = f.function().vars().getVariables();
  std::vector<size_t> p;
  for (size_t k = 0; k < vars.size(); ++k)
    p.push_back(k);
  std::sort(p.begin(), p.end(), [&](size_t a, size_t b) { return vars[a]->name() < vars[b]->name(); });
  size_t n = 1;
  for (size_t k : p) {
    s.names.push_back(vars[k]->name());
    n *= vars[k]->size();
  }
  if (n <= 100000) {
    s.vals.assign(n, 0);
    f.function().forEachCombination<false>([&](const auto &comb, float img) {
      size_t x = 0;
      for (size_t k : p)
        x = x * vars[k]->size() + comb[k];
      s.vals[x] = img;
    });
  }
  if (auto *e = dynamic_cast<const factor::FactorExponential *>(&f)) {
    s.exp = true;
    s.w = e->getWeight();
  }
  return s;
}

Snap snap(Inst &i) {
  SimOff off;
  Snap s;
  for (const auto &v : i.st()->getAllVariables())
    s.vars[v->name()] = v->size();
  for (const auto &[v, x] : i.st()->getEvidences())
    s.ev[v->name()] = x;
  for (const auto &f : i.cg()->getConstFactors())
    s.consts.push_back(snapFactor(*f));
  if (auto *t = i.tg())
    for (const auto &c : t->getTunableClusters()) {
      s.groups.emplace_back();
      if (auto *one = std::get_if<train::FactorExponentialPtr>(&c))
        s.groups.back().push_back(snapFactor(**one));
      else
        for (const auto &f : std::get<train::TunableClusters>(c))
          s.groups.back().push_back(snapFactor(*f));
    }
  return s;
}

bool near(double a, double b) {
  if (a == b || (std::isnan(a) && std::isnan(b)))
    return true;
  return std::fabs(a - b) <= 2e-5 * std::max(std::fabs(a), std::fabs(b)) + 1e-37;
}
// empty: equal; otherwise what is different
std::string differ(const SFac &a, const SFac &b) {
  char t[300];
  if (a.names != b.names)
    return "variables";
  if (a.exp != b.exp)
    return "kind";
  if (!near(a.w, b.w)) {
    snprintf(t, sizeof t, "weight %.9g instead of %.9g", b.w, a.w);
    return t;
  }
  if (a.vals.size() != b.vals.size())
    return "size of the table";
  for (size_t k = 0; k < a.vals.size(); ++k)
    if (!near(a.vals[k], b.vals[k])) {
      snprintf(t, sizeof t, "value %zu is %.9g instead of %.9g", k, b.vals[k], a.vals[k]);
      return t;
    }
  return "";
}
std::string label(const SFac &f) {
  std::string s = f.exp ? "exponential factor on" : "factor on";
  for (auto &n : f.names)
    s += " " + n;
  return s;
}
// b holds exactly the factors of a
std::string differ(const std::vector<SFac> &a, const std::vector<SFac> &b) {
  if (a.size() != b.size())
    return std::to_string(b.size()) + " factors instead of " + std::to_string(a.size());
  std::vector<bool> used(b.size());
  for (auto &f : a) {
    bool ok = false;
    std::string hint = "no such factor";
    for (size_t k = 0; k < b.size() && !ok; ++k)
      if (!used[k]) {
        auto d = differ(f, b[k]);
        if (d.empty())
          ok = used[k] = true;
        else if (d != "variables")
          hint = d;
      }
    if (!ok)
      return label(f) + ": " + hint;
  }
  return "";
}
std::string differ(const Snap &a, const Snap &b) {
  if (a.vars != b.vars) {
    std::string s = "variables are";
    for (auto &[n, k] : b.vars)
      s += " '" + n + "'(" + std::to_string(k) + ")";
    s += " instead of";
    for (auto &[n, k] : a.vars)
      s += " '" + n + "'(" + std::to_string(k) + ")";
    return s;
  }
  if (a.ev != b.ev) {
    std::string s = "evidences are";
    for (auto &[n, k] : b.ev)
      s += " " + n + "=" + std::to_string(k);
    s += " instead of";
    for (auto &[n, k] : a.ev)
      s += " " + n + "=" + std::to_string(k);
    return s;
  }
  auto d = differ(a.consts, b.consts);
  if (!d.empty())
    return "constant factors: " + d;
  if (a.groups.size() != b.groups.size())
    return std::to_string(b.groups.size()) + " tunable groups instead of " + std::to_string(a.groups.size());
  std::vector<bool> used(b.groups.size());
  for (auto &g : a.groups) {
    bool ok = false;
    std::string hint;
    for (size_t k = 0; k < b.groups.size() && !ok; ++k)
      if (!used[k]) {
        auto e = differ(g, b.groups[k]);
        if (e.empty())
          ok = used[k] = true;
        else if (hint.empty() || g.size() == b.groups[k].size())
          hint = e;
      }
    if (!ok)
      return "tunable group of " + label(g[0]) + " (" + std::to_string(g.size()) + "): " + hint;
  }
  return "";
}
// what remains when the target has no tunable factors
Snap flat(Snap s) {
  for (auto &g : s.groups)
    for (auto &f : g)
      s.consts.push_back(f);
  s.groups.clear();
  return s;
}

std::string readAll(const std::string &path) {
  SimOff off;
  std::ifstream f(path, std::ios::binary);
  std::stringstream b;
  b << f.rdbuf();
  return b.str();
}
void writeAll(const std::string &path, const std::string &text) {
  SimOff off;
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f << text;
}
std::string path(int k) {
  SimOff off;
  return std::string(g_scratch) + "/f" + std::to_string(k);
}
void removeAll() {
  SimOff off;
  for (int k = 0; k < 8; ++k)
    unlink(path(k).c_str());
  sim_io_root(g_scratch);
  sim_io_clear();
}

void exportIt(Inst &i, const std::string &to) {
  if (i.rf)
    io::json::Exporter::exportToFile(*i.rf, to);
  else if (i.g)
    io::json::Exporter::exportToFile(*i.g, to);
  else
    io::json::Exporter::exportToFile(*i.crf, to);
}
void importIt(Inst &i, const std::string &from) {
  if (i.rf)
    io::json::Importer::importFromFile(*i.rf, from);
  else
    io::json::Importer::importFromFile(*i.g, from);
}

const int errnos[] = {EIO, ENOSPC, EACCES, EMFILE, EDQUOT, ENOMEM};

// ------------------------------------------------------------ building models
enum Kind {
  OP_FACTOR = 0, // v1 v2 kind seed zeros share scale
  OP_EV,         // var val
  OP_REM,        // var
  OP_WEIGHTS,    // seed
  OP_EXPORT,     // C16: file mode nth arg view target chunk threads
  OP_DAMAGE,     // C17: kind a b c
  OP_IMPORT,     // C17: mode nth arg chunk threads twice
  OP_RFACTOR,    // C17: factor of the receiver, as OP_FACTOR
  OP_REV,        // C17: evidence of the receiver
  OP_TABLE,      // C18: what rows cols seed format mode nth arg chunk
  OP_KINDS
};

// factors with values of any magnitude
bool put(World &w, Inst &m, const Op &o, bool wide) {
  int n = (int)w.u.size();
  std::vector<int> v{(int)(o[1] % n)};
  if (o[2] >= 0 && o[2] % n != v[0])
    v.push_back((int)(o[2] % n));
  int kind = (int)o[3];
  if (!wide || o[7] == 0)
    return w.addFactor(m, v, kind, (uint64_t)o[4], (int)o[5], (int)o[6]);
  if (v.size() == 2 && m.m.connected(v[0], v[1]))
    return false;
  bool tunable = (kind == World::K_TUN || kind == World::K_TUN_COPY) && m.ft();
  bool exp = tunable || kind == World::K_EXP_CONST;
  FacPtr f = w.makeSpec(v, (uint64_t)o[4], exp ? 2 : (int)o[5], 1);
  {
    SimOff off;
    Rng r((uint64_t)o[4] ^ 0xabcd);
    static const double scales[] = {1, 1e-3, 1e-7, 1e-20, 1e5, 1e12};
    for (auto &x : f->raw)
      x = (float)(x * scales[o[7] == 1 ? (size_t)r.below(3) : o[7] == 2 ? 1 + r.below(3) : r.below(6)]);
    f->w = exp ? (float)((r.unit() - 0.5) * scales[r.below(5)]) : 1;
    // values that a writer may be tempted to leave out or to abbreviate
    static const float round[] = {1, 0, -1, 2, 10, 100};
    if (exp && r.chance(0.35))
      f->w = round[r.below(6)];
    for (auto &x : f->raw)
      if (r.chance(0.15))
        x = round[r.below(6) == 2 ? 0 : r.below(2)];
  }
  if (tunable) {
    auto x = w.makeExp(*f);
    m.ft()->addTunableFactor(x);
    f->obj = x;
  } else if (exp) {
    auto x = w.makeExp(*f);
    m.fc()->addConstFactor(x);
    f->obj = x;
  } else {
    auto x = w.makeFactor(*f);
    m.fc()->addConstFactor(x);
    f->obj = x;
  }
  w.noteInserted(m, v, f, tunable, -1);
  return true;
}

Op factorOp(Rng &r, int kind, int nv, bool graph, double tunable, double share) {
  bool tun = !graph && r.chance(tunable);
  int k = tun ? (r.chance(0.7) ? World::K_TUN : World::K_TUN_COPY)
              : (int[]){World::K_CONST, World::K_CONST, World::K_CONST_COPY, World::K_EXP_CONST}[r.below(4)];
  int64_t v2 = r.chance(0.35) ? -1 : (int64_t)r.below(nv);
  return {{kind, (int64_t)r.below(nv), v2, k, (int64_t)(r.next() >> 4), r.chance(0.3),
           tun && r.chance(share) ? r.range(1, 40) : 0, r.chance(0.5) ? 0 : r.range(1, 3)}};
}

// ------------------------------------------------------------------------ C16
enum Mode {
  M_NONE = 0,
  M_OPEN,
  M_WRITE,
  M_SHORT,
  M_EINTR,
  M_SHORT_WRITE,
  M_CRASH,
  M_CLOSE,
  M_DIR,
  M_CRASH_OPEN,
  M_NUM
};

void gen16(Rng &r, int tier, Ops &ops, SimCfg &) {
  int nv = (int)r.range(1, tier ? 8 : 6);
  bool graph = r.chance(0.25), large = r.chance(0.06);
  if (large) // documents longer than any buffer
    nv = (int)r.range(8, 30);
  ops.push_back({{nv, (int64_t)(r.next() >> 4), r.chance(0.05) ? r.range(11, 24) : r.chance(0.01) ? r.range(250, 300) : r.range(2, 5),
                  (int64_t)r.below(3), graph}});
  int n = (int)r.range(1, tier ? 14 : 9);
  if (large)
    n = (int)r.range(10, 50);
  for (int k = 0; k < n; ++k)
    ops.push_back(factorOp(r, OP_FACTOR, nv, graph, 0.6, 0.6));
  int rounds = (int)r.range(1, 3);
  for (int k = 0; k < rounds; ++k) {
    int e = (int)r.below(4);
    while (e-- > 0)
      ops.push_back({{OP_EV, (int64_t)r.below(nv), (int64_t)r.below(60)}});
    if (r.chance(0.3))
      ops.push_back({{OP_REM, (int64_t)r.below(nv)}});
    if (r.chance(0.4))
      ops.push_back({{OP_WEIGHTS, (int64_t)(r.next() >> 4)}});
    if (k && r.chance(0.5))
      ops.push_back(factorOp(r, OP_FACTOR, nv, graph, 0.6, 0.6));
    int mode = r.chance(0.35) ? M_NONE : (int)r.below(M_NUM);
    int64_t arg = r.chance(0.3) ? r.range(1, 20) : r.range(1, 3000);
    ops.push_back({{OP_EXPORT, (int64_t)r.below(2), mode,
                    mode == M_CLOSE || mode == M_OPEN || mode == M_DIR ? 1 : r.chance(0.6) ? 1 : r.range(1, 30), arg,
                    (int64_t)r.below(2), (int64_t)r.below(2),
                    r.chance(0.5) ? 0 : r.range(1, 200), r.range(1, 3),
                    r.chance(0.4) ? (int64_t)(r.next() >> 4) : 0}});
  }
}

struct Run16 {
  World w;
  std::map<int, Snap> stored; // last complete export by file
  std::map<int, std::vector<Snap>> failed; // exports after that one, reported as failed: might be there all the same

  Inst &src() { return *w.inst[0]; }

  // import into an empty model; returns false when it threw
  bool readBack(const std::string &file, bool graph, int64_t chunk, Snap &got, std::string &what) {
    World t;
    t.asserts = 0;
    Inst &i = t.addModel(graph);
    sim_io_clear();
    if (chunk)
      sim_io_chunk((uint32_t)chunk);
    bool threw = false;
    try {
      importIt(i, file);
    } catch (const std::exception &e) {
      SimOff off;
      threw = true;
      what = e.what();
    }
    sim_io_clear();
    SimOff off;
    got = snap(i);
    return !threw;
  }

  void exported(const Op &o) {
    Inst *from = &src();
    std::unique_ptr<World> view;
    if (o[5] && from->rf && !from->m.hidden().empty() && from->m.hidden().size() < from->m.order.size()) {
      // exported from a conditional model made of it
      view = std::make_unique<World>();
      Inst &c = view->add();
      try {
        c.crf = std::make_unique<model::ConditionalRandomField>(*from->rf, false);
        from = &c;
      } catch (const Error &) { // for instance unary factors on evidences
      }
    }
    int file = (int)o[1], mode = (int)o[2];
    std::string to = path(file);
    if (mode == M_DIR) {
      SimOff off;
      to = o[4] & 1 ? std::string(g_scratch) : to + "x/none";
    }
    Snap want = snap(*from);
    std::optional<Snap> before;
    if (stored.count(file))
      before = stored[file];
    sim_io_clear();
    int64_t e = errnos[o[4] % 6];
    switch (mode) {
    case M_OPEN:
      sim_io_fault(IO_OPEN, 1, IA_ERRNO, e, 0);
      break;
    case M_WRITE:
      sim_io_fault(IO_WRITE, (uint64_t)o[3], IA_ERRNO, e, (int)(o[4] & 1));
      break;
    case M_SHORT:
      sim_io_fault(IO_WRITE, 1, IA_SHORT, o[4], 1);
      break;
    case M_EINTR:
      sim_io_fault(IO_WRITE, (uint64_t)o[3], IA_EINTR, 0, 0);
      break;
    case M_SHORT_WRITE: // some parts arrive, then the disk is full
      sim_io_fault(IO_WRITE, (uint64_t)o[3] + 1, IA_ERRNO, ENOSPC, 1);
      sim_io_fault(IO_WRITE, 1, IA_SHORT, 1 + o[4] / 8, 1);
      break;
    case M_CRASH:
      sim_io_fault(IO_WRITE, (uint64_t)o[3], IA_CRASH, o[4] % 3 ? o[4] : 0, 0);
      if (o[3] > 1)
        sim_io_fault(IO_WRITE, 1, IA_SHORT, 1 + o[4] / 16, 1);
      break;
    case M_CRASH_OPEN:
      sim_io_fault(IO_OPEN, 1, IA_CRASH, 0, 0);
      break;
    case M_CLOSE:
      sim_io_fault(IO_CLOSE, 1, IA_ERRNO, EIO, 0);
      break;
    }
    bool threw = false, crashed = false;
    std::string what;
    if (mode == M_CRASH || mode == M_CRASH_OPEN) {
      uint32_t tid = 0;
      bool *pt = &threw;
      std::thread th([&tid, from, &to, pt] {
        tid = sim_tid();
        try {
          exportIt(*from, to);
        } catch (...) {
          *pt = true;
        }
      });
      th.join();
      crashed = sim_crashed(tid);
    } else {
      try {
        exportIt(*from, to);
      } catch (const std::exception &x) {
        SimOff off;
        threw = true;
        what = x.what();
      }
    }
    int fired = sim_io_clear() + (mode == M_DIR);
    sim_eval(1);
    {
      SimOff off;
      Snap now = snap(*from);
      auto d = differ(want, now);
      if (!d.empty())
        wrong("export-changed-model", "exporting changed the model: %s", d.c_str());
    }
    if (crashed) {
      sim_nontrivial();
      Snap got;
      std::string why;
      bool ok = readBack(to, false, o[7], got, why);
      SimOff off;
      sim_eval(1);
      if (!ok) {
        if (!got.vars.empty() || !got.consts.empty() || !got.groups.empty())
          wrong("partial-import", "importing the file left by a crash was refused (%s) but changed the model",
                why.c_str());
        return;
      }
      auto d = differ(want, got);
      if (d.empty()) {
        stored[file] = want;
        failed[file].clear();
        return;
      }
      if (before && differ(*before, got).empty())
        return;
      for (auto &f : failed[file])
        if (differ(f, got).empty())
          return;
      wrong("torn-file", "a file cut short by a crash was imported, although it holds neither the new nor the old "
                         "model: %s", d.c_str());
    }
    if (threw) {
      if (!fired)
        wrong("export-refused", "the export failed although nothing went wrong: %s", what.c_str());
      sim_nontrivial();
      SimOff off;
      failed[file].push_back(want);
      return;
    }
    Snap got;
    bool graph = o[6];
    bool ok = readBack(to, graph, o[7], got, what);
    bool reordered = false;
    {
      SimOff off;
      sim_eval(1);
      sim_nontrivial();
      if (!ok)
        wrong("incomplete-file", "the export returned normally, but its file cannot be imported (%s); %d faults",
              what.c_str(), fired);
      auto d = differ(graph ? flat(want) : want, got);
      if (!d.empty())
        wrong("different-model", "the model read back from the exported file differs: %s; exported %s", d.c_str(),
              w.inst[0]->m.text().c_str());
      if (mode != M_DIR) {
        stored[file] = want;
        failed[file].clear();
        reordered = o[9] && reorder(to, (uint64_t)o[9]);
      }
    }
    if (!reordered)
      return;
    ok = readBack(path(5), graph, o[7], got, what);
    SimOff off;
    sim_eval(1);
    if (!ok)
      wrong("order-matters", "the exported document with its parts in another order cannot be imported: %s",
            what.c_str());
    auto d = differ(graph ? flat(want) : want, got);
    if (!d.empty())
      wrong("order-matters", "the exported document with its parts in another order gives another model: %s; "
                             "exported %s", d.c_str(), w.inst[0]->m.text().c_str());
  }

  // writes the document with variables and factors listed in another order; not
  // when it is open which of several tunable factors owns a shared weight
  bool reorder(const std::string &from, uint64_t seed) {
    nlohmann::json doc = nlohmann::json::parse(readAll(from));
    auto &pot = doc["Potentials"];
    std::map<std::set<std::string>, int> tunable;
    std::set<std::set<std::string>> owners;
    auto names = [](const nlohmann::json &l) {
      std::set<std::string> r;
      for (auto &n : l)
        r.insert(n.get<std::string>());
      return r;
    };
    for (auto &p : pot)
      if (p.contains("tunability") && p["tunability"] == "Y") {
        ++tunable[names(p["Variables"])];
        if (p.contains("Share"))
          owners.insert(names(p["Share"]));
      }
    for (auto &k : owners)
      if (tunable[k] != 1)
        return false;
    Rng r(seed);
    for (auto *l : {&pot, &doc["Variables"]})
      for (size_t k = l->size(); k > 1; --k)
        std::swap((*l)[k - 1], (*l)[r.below(k)]);
    writeAll(path(5), doc.dump());
    return true;
  }

  void step(const Op &o) {
    switch (o[0]) {
    case OP_FACTOR:
      put(w, src(), o, true);
      break;
    case OP_EV:
      w.setEv(src(), (int)(o[1] % (int)w.u.size()), (int)o[2], false);
      break;
    case OP_REM:
      w.remEv(src(), (int)(o[1] % (int)w.u.size()), false);
      break;
    case OP_WEIGHTS:
      w.setWeights(src(), (uint64_t)o[1]);
      break;
    case OP_EXPORT:
      exported(o);
      break;
    }
  }
};

void run16(const Ops &ops) {
  removeAll();
  const Op &c = ops[0];
  Run16 r;
  r.w.asserts = 0;
  r.w.makeVars((int)c[0], (uint64_t)c[1], (int)c[2], (int)c[3]);
  r.w.addModel(c[4]);
  for (size_t k = 1; k < ops.size(); ++k)
    r.step(ops[k]);
  removeAll();
}

// ------------------------------------------------------------------------ C17
enum Damage { D_TRUNC = 0, D_FLIP, D_BYTE, D_CUT, D_DUP, D_NODE, D_NUMBER, D_DROP, D_CORR, D_NUM };
enum RMode { R_NONE = 0, R_MISSING, R_DIR, R_OPEN, R_READ, R_EINTR, R_NUM };

void gen17(Rng &r, int tier, Ops &ops, SimCfg &) {
  int nv = (int)r.range(2, 5);
  bool graph = r.chance(0.3);
  ops.push_back({{nv, (int64_t)(r.next() >> 4), r.range(2, 3), (int64_t)r.below(3), r.chance(0.3), graph}});
  int n = (int)r.range(1, 6);
  for (int k = 0; k < n; ++k) {
    ops.push_back(factorOp(r, OP_FACTOR, nv, false, 0.5, 0.5));
    ops.back().a[7] = 0;
  }
  n = (int)r.below(3);
  for (int k = 0; k < n; ++k)
    ops.push_back({{OP_EV, (int64_t)r.below(nv), (int64_t)r.below(60)}});
  if (r.chance(0.5)) {
    n = (int)r.range(1, 3);
    for (int k = 0; k < n; ++k) {
      ops.push_back(factorOp(r, OP_RFACTOR, nv, graph, 0.5, 0.5));
      ops.back().a[7] = 0;
    }
    if (r.chance(0.5))
      ops.push_back({{OP_REV, (int64_t)r.below(nv), (int64_t)r.below(8)}});
  }
  int rounds = (int)r.range(1, tier ? 4 : 3);
  for (int k = 0; k < rounds; ++k) {
    int d = r.chance(0.2) ? 0 : (int)r.range(1, 3);
    while (d-- > 0)
      ops.push_back({{OP_DAMAGE, r.chance(0.5) ? r.range(D_NODE, D_CORR) : (int64_t)r.below(D_NUM),
                      (int64_t)(r.next() >> 8), (int64_t)(r.next() >> 8), (int64_t)(r.next() >> 8)}});
    int mode = r.chance(0.5) ? R_NONE : (int)r.below(R_NUM);
    ops.push_back({{OP_IMPORT, mode, r.range(1, 6),
                    (int64_t)(r.next() >> 8), r.chance(0.5) ? 0 : r.range(1, 400), r.range(1, 3), r.chance(0.5)}});
  }
}

struct Run17 {
  World s; // the model the document describes
  World t; // the receiver
  std::string doc;
  bool damaged = false;

  Inst &rec() { return *t.inst[0]; }

  void original() {
    SimOff off;
    Inst &i = *s.inst[0];
    doc = (i.rf ? io::json::Exporter::exportToJson(*i.rf) : io::json::Exporter::exportToJson(*i.g)).dump();
    damaged = false;
  }

  // all the nodes of a document
  static void nodes(nlohmann::json &j, std::vector<nlohmann::json *> &out, nlohmann::json *parent,
                    std::vector<nlohmann::json *> &parents) {
    out.push_back(&j);
    parents.push_back(parent);
    if (j.is_structured())
      for (auto &c : j)
        nodes(c, out, &j, parents);
  }

  void damage(const Op &o) {
    SimOff off;
    if (doc.empty())
      return;
    break_(o);
    // huge domains are legal, but the import of their tables would take most of the time
    auto j = nlohmann::json::parse(doc, nullptr, false);
    if (!j.is_object() || !j.contains("Variables") || !j["Variables"].is_array())
      return;
    bool huge = false;
    for (auto &v : j["Variables"])
      if (v.is_object() && v.contains("Size") && v["Size"].is_string()) {
        auto t = v["Size"].get<std::string>();
        if (t.size() < 10 && atol(t.c_str()) > 300) {
          v["Size"] = "300";
          huge = true;
        }
      }
    try {
      if (huge)
        doc = j.dump();
    } catch (...) {
    }
  }

  void break_(const Op &o) {
    sim_count_fault(o[1] == D_TRUNC ? FI_FILE_TRUNC : o[1] == D_FLIP ? FI_FILE_FLIP : FI_FILE_DAMAGE);
    damaged = true;
    size_t n = doc.size(), at = (size_t)o[2] % n;
    switch (o[1]) {
    case D_TRUNC:
      doc.resize(at);
      return;
    case D_FLIP:
      doc[at] = (char)(doc[at] ^ (1 << (o[3] % 8)));
      return;
    case D_BYTE:
      doc[at] = "{}[]\",:0 \\-9tn\xff"[o[3] % 15];
      return;
    case D_CUT:
      doc.erase(at, 1 + (size_t)o[3] % 40);
      return;
    case D_DUP:
      doc.insert((size_t)o[4] % n, doc.substr(at, 1 + (size_t)o[3] % 40));
      return;
    }
    auto j = nlohmann::json::parse(doc, nullptr, false);
    if (j.is_discarded())
      return;
    std::vector<nlohmann::json *> all, up;
    nodes(j, all, nullptr, up);
    static const char *num[] = {"-1",  "999999", "12345678901234567890", "1e3", "0x10", " 3", "",   "abc",
                                "2.5", "nan",    "inf",                  "-0",  "7",    "0",  "1 ", "-2.5"};
    switch (o[1]) {
    case D_NODE: {
      auto *x = all[(size_t)o[2] % all.size()];
      switch (o[3] % 9) {
      case 0:
        *x = nullptr;
        break;
      case 1:
        *x = 3;
        break;
      case 2:
        *x = nlohmann::json::array();
        break;
      case 3:
        *x = nlohmann::json::object();
        break;
      case 4:
        *x = "";
        break;
      case 5:
        *x = true;
        break;
      case 6:
        *x = -1.5;
        break;
      case 7: // another part of the document
        *x = nlohmann::json(*all[(size_t)o[4] % all.size()]);
        break;
      case 8: { // once more
        if (x->is_array() && !x->empty()) {
          nlohmann::json c = (*x)[(size_t)o[4] % x->size()];
          x->push_back(c);
        }
      } break;
      }
    } break;
    case D_NUMBER: {
      // a textual number anywhere
      std::vector<nlohmann::json *> c;
      for (auto *x : all)
        if (x->is_string()) {
          auto t = x->get<std::string>();
          if (!t.empty() && t.find_first_not_of("0123456789.-+e") == std::string::npos)
            c.push_back(x);
        }
      if (!c.empty())
        *c[(size_t)o[2] % c.size()] = num[o[3] % 16];
    } break;
    case D_DROP: {
      std::vector<nlohmann::json *> c;
      for (auto *x : all)
        if (x->is_structured() && !x->empty())
          c.push_back(x);
      if (c.empty())
        break;
      auto *x = c[(size_t)o[2] % (o[4] % 3 ? std::min<size_t>(c.size(), 6) : c.size())];
      auto it = x->begin();
      std::advance(it, (size_t)o[3] % x->size());
      x->erase(it);
    } break;
    case D_CORR:
      if (j.is_object() && j.contains("Potentials") && j["Potentials"].is_array() && !j["Potentials"].empty()) {
        auto &p = j["Potentials"][(size_t)o[2] % j["Potentials"].size()];
        if (p.is_object()) {
          static const char *v[] = {"T", "F", "X", ""};
          p["Correlation"] = v[o[3] % 4];
          if (o[4] & 1)
            p.erase("Distr_val");
        }
      }
      break;
    }
    try {
      doc = j.dump();
    } catch (...) {
    }
  }

  // the reference model becomes what the receiver reports; false when the
  // numbers are too extreme to be judged
  bool reflect() {
    SimOff off;
    Inst &i = rec();
    bool fine = true;
    t.u.clear();
    i.m = Mirror{};
    i.m.u = &t.u;
    const auto &vars = i.st()->getAllVariables();
    const auto &evs = i.st()->getEvidences();
    std::map<const categoric::Variable *, int> pos;
    std::set<std::string> names;
    double states = 1;
    for (const auto &v : vars) {
      if (!names.insert(v->name()).second)
        fine = false; // equal names with different sizes are different variables for the library
      pos[v.get()] = (int)t.u.size();
      t.u.push_back({v->name(), (int)std::min<size_t>(v->size(), 1u << 30), v});
      i.m.order.push_back((int)i.m.order.size());
      auto it = evs.find(v);
      i.m.ev.push_back(it == evs.end() ? -1 : (int)it->second);
      if (it != evs.end() && it->second >= v->size())
        wrong("inconsistent-model", "evidence %zu of '%s' is outside of its domain (%zu)", it->second,
              v->name().c_str(), v->size());
      states *= (double)v->size();
      if (v->size() > 64)
        fine = false;
    }
    if (states > 200000)
      fine = false;
    if (!fine)
      return false;
    std::set<std::pair<int, int>> edges;
    auto add = [&](const factor::ImmutablePtr &f, bool tunable) {
      FacPtr x = std::make_shared<FacSpec>();
      for (const auto &v : f->function().vars().getVariables()) {
        auto it = pos.find(v.get());
        if (it == pos.end())
          wrong("inconsistent-model", "a factor refers to the variable '%s' the model does not report",
                v->name().c_str());
        x->v.push_back(it->second);
      }
      if (x->v.size() == 2 &&
          !edges.insert({std::min(x->v[0], x->v[1]), std::max(x->v[0], x->v[1])}).second)
        wrong("inconsistent-model", "two factors between '%s' and '%s'", t.u[x->v[0]].name.c_str(),
              t.u[x->v[1]].name.c_str());
      f->function().forEachCombination<false>([&](const auto &, float img) {
        x->raw.push_back(img);
        if (!std::isfinite(img) || img > 100 || (img != 0 && img < 1e-3))
          fine = false;
      });
      if (auto *e = dynamic_cast<const factor::FactorExponential *>(f.get())) {
        x->exp = true;
        x->w = e->getWeight();
        if (!(std::fabs(x->w) < 6))
          fine = false;
        for (double img : x->raw)
          if (!(std::fabs(img * x->w) < 12))
            fine = false;
      }
      x->obj = f;
      i.m.facs.push_back({x, tunable});
      if (tunable)
        i.m.groups.back().push_back((int)i.m.facs.size() - 1);
    };
    for (const auto &f : i.cg()->getConstFactors())
      add(f, false);
    if (auto *tg = i.tg())
      for (const auto &c : tg->getTunableClusters()) {
        i.m.groups.emplace_back();
        if (auto *one = std::get_if<train::FactorExponentialPtr>(&c))
          add(*one, true);
        else
          for (const auto &f : std::get<train::TunableClusters>(c))
            add(f, true);
      }
    return fine;
  }

  void imported(const Op &o) {
    int mode = (int)o[1];
    std::string from = path(0);
    writeAll(from, doc);
    bool invalid, complete_doc;
    {
      SimOff off;
      complete_doc = nlohmann::json::accept(doc);
      invalid = !complete_doc;
      if (mode == R_MISSING)
        from = path(7);
      if (mode == R_DIR)
        from = g_scratch;
      if (mode == R_MISSING || mode == R_DIR)
        invalid = true;
    }
    Snap before = snap(rec());
    bool was_empty = before.vars.empty();
    sim_io_clear();
    bool chunked = o[4] != 0;
    if (chunked)
      sim_io_chunk((uint32_t)o[4]);
    switch (mode) {
    case R_OPEN:
      sim_io_fault(IO_OPEN, 1, IA_ERRNO, errnos[o[3] % 6], 0);
      break;
    case R_READ:
      sim_io_fault(IO_READ, (uint64_t)o[2], IA_ERRNO, EIO, 1);
      break;
    case R_EINTR:
      sim_io_fault(IO_READ, (uint64_t)o[2], IA_EINTR, 0, 0);
      break;
    }
    bool threw = false;
    std::string what;
    try {
      importIt(rec(), from);
    } catch (const std::exception &e) {
      SimOff off;
      threw = true;
      what = e.what();
    } catch (...) {
      threw = true;
    }
    int fired = sim_io_clear();
    if (fired && (mode == R_OPEN || mode == R_READ))
      invalid = true;
    sim_eval(1);
    if (damaged || fired)
      sim_nontrivial();
    Snap after = snap(rec());
    if (invalid) {
      SimOff off;
      // a read error after the last byte does not make the content unreadable
      bool late = mode == R_READ && complete_doc && !threw;
      if (!threw && !late)
        wrong("accepted-unreadable", "an import from %s returned normally; document: %.300s",
              complete_doc ? "an unreadable file" : "a file with invalid syntax", doc.c_str());
      auto d = differ(before, after);
      if (!d.empty() && !late)
        wrong("changed-by-refused-import", "an unreadable or invalid file changed the model: %s", d.c_str());
    }
    if (!damaged && was_empty && !threw && !invalid) {
      SimOff off;
      Snap ref = snap(*s.inst[0]);
      auto d = differ(rec().g ? flat(ref) : ref, after);
      if (!d.empty())
        wrong("different-model", "an intact document was imported as a different model: %s", d.c_str());
    }
    if (!damaged && was_empty && threw && !invalid)
      wrong("refused-intact", "an intact document was refused: %s", what.c_str());
    // the same document in one piece has the same outcome
    if (was_empty && !invalid && o[6]) {
      World t2;
      t2.asserts = 0;
      Inst &i2 = t2.addModel(rec().g != nullptr);
      bool threw2 = false;
      try {
        importIt(i2, from);
      } catch (...) {
        threw2 = true;
      }
      SimOff off;
      sim_eval(1);
      // equally named variables of different size or the order in which
      // evidences are set are no matter of how the file is read
      if (threw2 != threw)
        wrong("outcome-depends-on-reads", "the import %s with split or interrupted reads, %s without",
              threw ? "failed" : "worked", threw2 ? "failed" : "worked");
      if (!threw) {
        auto d = differ(snap(i2), after);
        if (!d.empty())
          wrong("outcome-depends-on-reads", "split or interrupted reads change the imported model: %s", d.c_str());
      }
    }
    consistent((int)o[5]);
  }

  void consistent(int threads) {
    bool fine = reflect();
    t.asserts = A_REPORT | A_WEIGHT;
    if (fine)
      t.asserts |= A_ANSWER;
    else
      return;
    t.limit(rec());
    t.checkReport(rec());
    t.qAll(rec(), threads);
  }

  void step(const Op &o) {
    int n = (int)s.u.size();
    switch (o[0]) {
    case OP_FACTOR:
      put(s, *s.inst[0], o, false);
      break;
    case OP_EV:
      s.setEv(*s.inst[0], (int)(o[1] % n), (int)o[2], false);
      break;
    case OP_RFACTOR:
      if (doc.empty())
        put(t, rec(), o, false);
      break;
    case OP_REV:
      if (doc.empty())
        t.setEv(rec(), (int)(o[1] % n), (int)o[2], false);
      break;
    case OP_DAMAGE:
      if (doc.empty())
        original();
      damage(o);
      break;
    case OP_IMPORT:
      if (doc.empty() && !damaged)
        original();
      imported(o);
      doc.clear();
      damaged = false;
      break;
    }
  }
};

void run17(const Ops &ops) {
  removeAll();
  const Op &c = ops[0];
  Run17 r;
  r.s.asserts = 0;
  r.t.asserts = 0;
  r.s.makeVars((int)c[0], (uint64_t)c[1], (int)c[2], (int)c[3]);
  r.t.makeVars((int)c[0], (uint64_t)c[1], (int)c[2], (int)c[3]); // equal, other objects
  r.s.addModel(c[4]);
  r.t.addModel(c[5]);
  for (size_t k = 1; k < ops.size(); ++k)
    r.step(ops[k]);
  removeAll();
}

// ------------------------------------------------------------------------ C18
enum TMode { T_NONE = 0, T_MISSING, T_READ, T_EINTR, T_RAGGED, T_OPEN, T_RANGE, T_ALLOC, T_DIR, T_NUM };

void gen18(Rng &r, int tier, Ops &ops, SimCfg &) {
  ops.push_back({{0}});
  int n = (int)r.range(1, 3);
  for (int k = 0; k < n; ++k) {
    int mode = r.chance(0.45) ? T_NONE : (int)r.below(T_NUM);
    int rows = r.chance(0.2) ? 1 : r.chance(0.8) ? (int)r.range(1, 30) : (int)r.range(100, tier ? 2500 : 1200);
    int64_t cols = r.range(1, 6), factor = (int64_t)r.below(2);
    if (r.chance(0.02)) { // long lines
      cols = r.range(20, 900);
      rows = (int)r.range(1, 20);
    } else if (r.chance(0.0008)) { // more rows than 16 bits count
      rows = (int)r.range(65530, 66000);
      cols = r.range(1, 2);
      factor = 0;
    }
    ops.push_back({{OP_TABLE, factor, rows, cols, (int64_t)(r.next() >> 4),
                    (int64_t)r.below(64), mode, mode == T_ALLOC ? r.range(1, 60) : r.range(1, 5),
                    (int64_t)(r.next() >> 8), r.chance(0.4) ? 0 : r.range(1, 300)}});
  }
}

void table18(const Op &o) {
  bool factor = o[1];
  int rows = (int)o[2], cols = (int)o[3], mode = (int)o[6];
  int fmt = (int)o[5];
  struct Fast {
    bool on;
    ~Fast() {
      if (on)
        sim_fast(0);
    }
  } fast{rows > 10000};
  if (fast.on)
    sim_fast(1);
  Rng r((uint64_t)o[4]);
  std::vector<std::vector<size_t>> want;
  std::vector<float> img;
  std::vector<size_t> sizes;
  std::string text;
  std::string file = path(1);
  bool bad = mode == T_MISSING || mode == T_DIR;
  int broken_row = -1;
  {
    SimOff off;
    if (factor) {
      cols = 1 + cols % 3;
      for (int k = 0; k < cols; ++k)
        sizes.push_back(cols < 3 && mode != T_RANGE && r.chance(0.1) ? r.range(10, 30) : (int64_t)(1 + r.below(5)));
      if (mode == T_RANGE)
        sizes[r.below(cols)] = 5;
      // a selection of the combinations, in random order
      std::vector<std::vector<size_t>> all;
      size_t tot = 1;
      for (auto s : sizes)
        tot *= s;
      for (size_t k = 0; k < tot; ++k) {
        std::vector<size_t> c(cols);
        size_t x = k;
        for (int j = cols; j-- > 0;) {
          c[j] = x % sizes[j];
          x /= sizes[j];
        }
        all.push_back(c);
      }
      for (size_t k = all.size(); k > 1; --k)
        std::swap(all[k - 1], all[r.below(k)]);
      if ((size_t)rows < all.size())
        all.resize(rows);
      want = all;
      for (size_t k = 0; k < want.size(); ++k)
        img.push_back((float)(r.chance(0.1)   ? 0
                              : r.chance(0.9) ? 0.001 * (double)r.below(100000)
                                              : std::pow(10, (double)r.range(-9, 8)) * (1 + r.unit())));
    } else {
      for (int k = 0; k < rows; ++k) {
        std::vector<size_t> c;
        for (int j = 0; j < cols; ++j)
          c.push_back(r.chance(0.9) ? r.below(6) : r.chance(0.9) ? r.below(100000) : r.below(0x7fffffff));
        want.push_back(c);
      }
    }
    if (mode == T_RAGGED && want.size() > 1)
      broken_row = (int)r.range(1, (int64_t)want.size() - 1);
    if (mode == T_RANGE && factor)
      broken_row = (int)r.below(want.size());
    const char *seps[] = {" ", "  ", "\t", " \t "};
    const char *sep = seps[fmt & 3];
    for (size_t k = 0; k < want.size(); ++k) {
      std::string line = fmt & 4 && r.chance(0.3) ? " " : "";
      std::vector<size_t> c = want[k];
      if ((int)k == broken_row) {
        bad = true;
        if (mode == T_RANGE)
          c[r.below(c.size())] = 5 + r.below(3);
        else if (r.chance(0.5) && c.size() > 1)
          c.pop_back();
        else
          c.push_back(r.below(3));
      }
      for (size_t j = 0; j < c.size(); ++j)
        line += (j ? sep : "") + std::to_string(c[j]);
      if (factor) {
        char t[40];
        snprintf(t, sizeof t, r.chance(0.9) ? "%s%.6g" : "%s%.6e", sep, img[k]);
        line += t;
      }
      if (fmt & 8 && r.chance(0.3))
        line += " ";
      text += line;
      if (k + 1 < want.size() || fmt & 16)
        text += "\n";
    }
    if (mode == T_MISSING)
      file = path(7);
    if (mode == T_DIR)
      file = g_scratch;
  }
  writeAll(path(1), text);
  sim_io_clear();
  if (o[9])
    sim_io_chunk((uint32_t)o[9]);
  switch (mode) {
  case T_READ:
    sim_io_fault(IO_READ, (uint64_t)o[7], IA_ERRNO, EIO, (int)(o[8] & 1));
    break;
  case T_EINTR:
    sim_io_fault(IO_READ, (uint64_t)o[7], IA_EINTR, 0, 0);
    break;
  case T_OPEN:
    sim_io_fault(IO_OPEN, 1, IA_ERRNO, errnos[o[8] % 6], 0);
    break;
  }
  bool threw = false;
  std::string what;
  std::optional<train::TrainSet> set;
  std::unique_ptr<factor::Factor> f;
  if (factor) {
    categoric::VariablesSoup vs;
    for (size_t k = 0; k < sizes.size(); ++k)
      vs.push_back(categoric::make_variable(sizes[k], std::string(1, (char)('A' + k))));
    f = std::make_unique<factor::Factor>(categoric::Group{vs});
    if (o[8] & 2) // what was there before is replaced
      f->set(std::vector<std::size_t>(sizes.size(), 0), 7.f);
  }
  if (mode == T_ALLOC)
    sim_arm_alloc((uint64_t)o[7], 0);
  try {
    if (factor)
      io::import_values(*f, file);
    else
      set.emplace(io::import_train_set(file));
  } catch (const std::exception &e) {
    sim_disarm_alloc();
    SimOff off;
    threw = true;
    what = e.what();
  }
  int fired = (mode == T_ALLOC ? sim_disarm_alloc() : 0);
  fired += sim_io_clear();
  if (mode == T_EINTR)
    fired = 0;
  SimOff off;
  sim_eval(1);
  sim_nontrivial();
  if (threw) {
    if (!bad && !fired)
      wrong("refused-file", "a file of %zu rows was refused although nothing went wrong: %s", want.size(),
            what.c_str());
    return;
  }
  if (bad)
    wrong("accepted-file", "%s was accepted",
          mode == T_MISSING ? "a missing file"
          : mode == T_DIR   ? "a directory"
          : mode == T_RANGE ? "a value out of range"
                            : "a file with rows of different length");
  if (factor) {
    for (size_t k = 0; k < want.size(); ++k) {
      float got = f->function().findImage(want[k]);
      if (!near(got, img[k]) && std::fabs(got - img[k]) > 1e-4 * img[k])
        wrong("wrong-table", "image of row %zu is %g instead of %g", k, got, img[k]);
    }
    size_t extra = 0;
    f->function().forEachNonNullCombination<false>([&](const auto &comb, float) {
      for (auto &c : want)
        if (std::equal(c.begin(), c.end(), comb.begin()))
          return;
      ++extra;
    });
    if (extra)
      wrong("wrong-table", "%zu combinations that are not in the file", extra);
    return;
  }
  const auto &got = set->getCombinations();
  if (got.size() != want.size())
    wrong("wrong-set", "%zu elements instead of %zu (%d faults)", got.size(), want.size(), fired);
  for (size_t k = 0; k < want.size(); ++k)
    if (got[k] != want[k]) {
      std::string a, b;
      for (auto x : got[k])
        a += std::to_string(x) + " ";
      for (auto x : want[k])
        b += std::to_string(x) + " ";
      wrong("wrong-set", "row %zu is '%s' instead of '%s'", k, a.c_str(), b.c_str());
    }
}

void run18(const Ops &ops) {
  removeAll();
  for (size_t k = 1; k < ops.size(); ++k)
    table18(ops[k]);
  removeAll();
}

size_t pin1(const Ops &) { return 1; }
RegisterScenario r16({"C16", gen16, run16, pin1});
RegisterScenario r17({"C17", gen17, run17, pin1});
RegisterScenario r18({"C18", gen18, run18, pin1});
} // namespace
