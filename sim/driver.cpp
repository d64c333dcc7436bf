// Driver: generates workloads from seeds, executes each one in a forked child
// under the simulator, confirms, minimises and replays violations.
#include "driver.h"

#include <algorithm>
#include <errno.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <map>

char g_scratch[256];

namespace {
std::vector<Scenario> &registry() {
  static std::vector<Scenario> r;
  return r;
}

SimResult *g_res;
SimDev *g_devs;
SimDev *g_replay; // shared copy of the deviations to replay

struct Program {
  Ops ops;
  SimCfg cfg;
};

struct Run {
  int status = 0; // as SimResult, 4: stuck
  std::string kind, msg;
  uint64_t trace_hash = 0;
};

double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

struct RootArg {
  const Scenario *sc;
  const Ops *ops;
};
void root_fn(void *p) {
  RootArg *a = (RootArg *)p;
  a->sc->run(*a->ops);
}

void clean_scratch() {
  // only plain files directly below the private scratch directory
  char cmd[300];
  snprintf(cmd, sizeof cmd, "%s/f", g_scratch);
  for (int i = 0; i < 8; ++i) {
    char p[320];
    snprintf(p, sizeof p, "%s%d", cmd, i);
    unlink(p);
  }
}

Run execute(const Scenario &sc, const Program &p, const std::vector<SimDev> *replay) {
  memset((void *)g_res, 0, sizeof(SimResult));
  uint32_t nrep = 0;
  if (replay) {
    nrep = (uint32_t)std::min<size_t>(replay->size(), MAX_DEVS);
    if (nrep)
      memcpy(g_replay, replay->data(), nrep * sizeof(SimDev));
  }
  clean_scratch();
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    RootArg a{&sc, &p.ops};
    sim_start(&p.cfg, g_replay, nrep, replay ? 1 : 0, root_fn, &a);
  }
  Run r;
  int pfd = (int)syscall(SYS_pidfd_open, pid, 0);
  struct pollfd pf{pfd, POLLIN, 0};
  int n;
  do {
    n = poll(&pf, 1, 240000);
  } while (n < 0 && errno == EINTR);
  if (n <= 0) {
    kill(pid, SIGKILL);
    r.status = 4;
  }
  close(pfd);
  int st = 0;
  waitpid(pid, &st, 0);
  if (r.status == 4) {
    r.kind = "stuck";
    r.msg = "the simulated process did not end";
    return r;
  }
  r.status = g_res->status;
  if (r.status == 0) {
    r.status = 3;
    char b[100];
    snprintf(b, sizeof b, "child ended with wait status 0x%x", st);
    r.kind = "runtime";
    r.msg = b;
  } else {
    r.kind = g_res->kind;
    r.msg = g_res->msg;
  }
  r.trace_hash = g_res->trace_hash;
  return r;
}

void default_cfg(Rng &rng, SimCfg &c) {
  memset(&c, 0, sizeof c);
  c.sched_seed = rng.next();
  c.env_seed = rng.next();
  c.heap_seed = rng.next();
  uint64_t x = rng.below(100);
  c.strat = x < 40 ? ST_RANDOM : x < 68 ? ST_PCT : x < 78 ? ST_RR : x < 94 ? ST_STARVE : ST_DEFAULT;
  static const uint32_t ps[] = {32, 128, 256, 512, 1024};
  c.p_sync = ps[rng.below(5)];
  static const uint32_t gaps[] = {0, 0, 0, 20, 100, 500, 3000};
  c.plain_gap = gaps[rng.below(7)];
  static const uint32_t cf[] = {0, 0, 512, 1024};
  c.child_first = cf[rng.below(4)];
  c.pct_depth = 1 + (uint32_t)rng.below(5);
  c.pct_len = 60u << rng.below(13);
  c.starve_tid = (uint32_t)rng.below(5);
  c.starve_len = 30u << rng.below(8);
  c.heap_reuse = (uint32_t)rng.below(2);
  c.heap_shuffle = (uint32_t)rng.below(2);
  static const uint32_t po[] = {0x00, 0xAA, 0xFF, 0x01};
  c.poison = po[rng.below(4)];
  c.time0 = (int64_t)rng.below(4000000000ull);
  c.clock_jump = rng.chance(0.3) ? 200 : 0;
  c.step_cap = 400000000ull;
}

Program make_program(const Scenario &sc, uint64_t seed, int tier) {
  Program p;
  Rng rng(seed);
  default_cfg(rng, p.cfg);
  sc.generate(rng, tier, p.ops, p.cfg);
  return p;
}

uint64_t run_seed(uint64_t master, const std::string &prop, uint64_t idx) {
  uint64_t h = 0xcbf29ce484222325ull;
  for (char c : prop)
    h = (h ^ (uint8_t)c) * 0x100000001b3ull;
  Rng r(master ^ h);
  Rng q(r.next() + idx * 0x2545F4914F6CDD1Dull);
  return q.next();
}

// the class of a violation which minimisation has to preserve
std::string klass(const Run &r) { return r.kind; }

void write_replay(const std::string &path, const std::string &prop, const Program &p,
                  const std::vector<SimDev> &devs, const Run &r, uint64_t seed, bool seeded) {
  FILE *f = fopen(path.c_str(), "w");
  if (!f) {
    perror(path.c_str());
    exit(2);
  }
  fprintf(f, "# replay with: /verif/replay.sh <this file>\n");
  fprintf(f, "property %s\nseed %llu\nkind %s\nhash %016llx\n", prop.c_str(), (unsigned long long)seed,
          r.kind.c_str(), (unsigned long long)r.trace_hash);
  std::string m = r.msg;
  std::replace(m.begin(), m.end(), '\n', ' ');
  fprintf(f, "msg %s\n", m.c_str());
  const SimCfg &c = p.cfg;
  fprintf(f, "cfg %llu %llu %llu %u %u %u %u %u %u %u %u %u %u %u %lld %u %llu\n",
          (unsigned long long)c.sched_seed, (unsigned long long)c.env_seed, (unsigned long long)c.heap_seed,
          c.strat, c.p_sync, c.plain_gap, c.child_first, c.pct_depth, c.pct_len, c.starve_tid, c.starve_len,
          c.heap_reuse, c.heap_shuffle, c.poison, (long long)c.time0, c.clock_jump,
          (unsigned long long)c.step_cap);
  for (const auto &o : p.ops) {
    fprintf(f, "op");
    for (auto v : o.a)
      fprintf(f, " %lld", (long long)v);
    fprintf(f, "\n");
  }
  if (seeded) // longer than what is recorded: the seed of the scheduler gives the schedule
    fprintf(f, "schedule seeded\n");
  for (const auto &d : devs)
    fprintf(f, "dev %llu %u\n", (unsigned long long)d.step, d.tid);
  fclose(f);
}

bool read_replay(const std::string &path, std::string &prop, Program &p, std::vector<SimDev> &devs,
                 std::string &kind, uint64_t &hash, bool &seeded) {
  FILE *f = fopen(path.c_str(), "r");
  if (!f)
    return false;
  static char line[1 << 16];
  while (fgets(line, sizeof line, f)) {
    char *sp = strchr(line, ' ');
    if (line[0] == '#' || !sp)
      continue;
    std::string key(line, sp - line);
    char *v = sp + 1;
    v[strcspn(v, "\n")] = 0;
    if (key == "property")
      prop = v;
    else if (key == "schedule")
      seeded = true;
    else if (key == "kind")
      kind = v;
    else if (key == "hash")
      hash = strtoull(v, nullptr, 16);
    else if (key == "cfg") {
      unsigned long long a, b, c, cap;
      long long t0;
      SimCfg &k = p.cfg;
      memset(&k, 0, sizeof k);
      if (sscanf(v, "%llu %llu %llu %u %u %u %u %u %u %u %u %u %u %u %lld %u %llu", &a, &b, &c, &k.strat,
                 &k.p_sync, &k.plain_gap, &k.child_first, &k.pct_depth, &k.pct_len, &k.starve_tid,
                 &k.starve_len, &k.heap_reuse, &k.heap_shuffle, &k.poison, &t0, &k.clock_jump, &cap) != 17)
        return false;
      k.sched_seed = a;
      k.env_seed = b;
      k.heap_seed = c;
      k.time0 = t0;
      k.step_cap = cap;
    } else if (key == "op") {
      Op o;
      char *e;
      for (;;) {
        long long x = strtoll(v, &e, 10);
        if (e == v)
          break;
        o.a.push_back(x);
        v = e;
      }
      p.ops.push_back(o);
    } else if (key == "dev") {
      unsigned long long s;
      unsigned t;
      if (sscanf(v, "%llu %u", &s, &t) == 2)
        devs.push_back({s, t});
    }
  }
  fclose(f);
  return true;
}

std::vector<SimDev> current_devs() { return std::vector<SimDev>(g_devs, g_devs + g_res->ndev); }

// shrink a failing program; returns deviations of the final execution
void minimise(const Scenario &sc, Program &p, std::vector<SimDev> &devs, Run &r, double budget, bool &seeded) {
  const double t_end = now() + budget;
  const std::string want = klass(r);
  size_t pinned = sc.pinned ? sc.pinned(p.ops) : 0;
  auto fails = [&](Program &q, Run &out) {
    uint64_t keep = q.cfg.sched_seed;
    for (int i = 0; i < 4; ++i) {
      q.cfg.sched_seed = keep + i;
      out = execute(sc, q, nullptr);
      if (out.status == 2 && klass(out) == want)
        return true;
      if (now() > t_end)
        break;
    }
    q.cfg.sched_seed = keep;
    return false;
  };
  // 1. drop operations
  size_t chunk = p.ops.size() > pinned ? (p.ops.size() - pinned + 1) / 2 : 0;
  while (chunk >= 1 && now() < t_end) {
    bool any = false;
    for (size_t i = pinned; i < p.ops.size() && now() < t_end;) {
      Program q = p;
      size_t e = std::min(q.ops.size(), i + chunk);
      q.ops.erase(q.ops.begin() + i, q.ops.begin() + e);
      Run o;
      if (fails(q, o)) {
        p = q;
        r = o;
        any = true;
      } else
        i += chunk;
    }
    if (chunk == 1 && !any)
      break;
    if (chunk > 1)
      chunk = (chunk + 1) / 2;
    else if (!any)
      break;
  }
  // 2. calmer environment
  auto try_cfg = [&](void (*f)(SimCfg &)) {
    if (now() > t_end)
      return;
    Program q = p;
    f(q.cfg);
    Run o;
    if (fails(q, o)) {
      p = q;
      r = o;
    }
  };
  try_cfg([](SimCfg &c) { c.strat = ST_DEFAULT; c.plain_gap = 0; c.child_first = 0; });
  try_cfg([](SimCfg &c) { c.plain_gap = 0; });
  try_cfg([](SimCfg &c) { c.child_first = 0; });
  try_cfg([](SimCfg &c) { c.clock_jump = 0; });
  try_cfg([](SimCfg &c) { c.heap_shuffle = 0; });
  // 3. schedule deviations
  r = execute(sc, p, nullptr);
  devs = current_devs();
  if (g_res->dev_overflow) {
    devs.clear();
    seeded = true;
    return;
  }
  auto dev_fails = [&](const std::vector<SimDev> &d, Run &o) {
    o = execute(sc, p, &d);
    return o.status == 2 && klass(o) == want;
  };
  Run o;
  if (!dev_fails(devs, o) || o.trace_hash != r.trace_hash) {
    fprintf(stderr, "replay of the recorded schedule differs (%s %s)\n", o.kind.c_str(), o.msg.c_str());
    r.status = 3;
    return;
  }
  size_t c2 = std::max<size_t>(1, (devs.size() + 1) / 2);
  while (!devs.empty() && now() < t_end) {
    bool any = false;
    for (size_t i = 0; i < devs.size() && now() < t_end;) {
      std::vector<SimDev> d = devs;
      size_t e = std::min(d.size(), i + c2);
      d.erase(d.begin() + i, d.begin() + e);
      if (dev_fails(d, o)) {
        devs = d;
        r = o;
        any = true;
      } else
        i += c2;
    }
    if (c2 == 1 && !any)
      break;
    c2 = c2 > 1 ? (c2 + 1) / 2 : 1;
    if (c2 == 1 && !any && devs.size() > 400)
      break;
  }
  // normalise: the deviations as recorded by the final replay
  Run fin = execute(sc, p, &devs);
  if (fin.status == 2 && klass(fin) == want)
    r = fin;
}

const char *fault_names[FI_NUM] = {"preempt_sync", "preempt_plain", "stalled_thread", "child_first",
                                   "alloc_fail", "thread_create_fail", "task_throw", "open_fail",
                                   "write_error", "short_write", "read_error", "short_read", "eintr",
                                   "crash", "file_truncated", "file_corrupted", "clock_jump",
                                   "rand_forced", "rejected_request", "heap_shuffled", "spurious_wakeup",
                                   "trainer_throw", "close_error", "document_damage"};

std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if ((unsigned char)c < 32)
      o += ' ';
    else
      o += c;
  }
  return o + "\"";
}

std::string ops_text(const Program &p, size_t max) {
  std::string s;
  for (size_t i = 0; i < p.ops.size() && s.size() < max; ++i) {
    s += "(";
    for (size_t k = 0; k < p.ops[i].a.size(); ++k) {
      if (k)
        s += ",";
      s += std::to_string(p.ops[i].a[k]);
    }
    s += ")";
  }
  return s;
}

int explore(const std::string &prop, uint64_t master, int tier, int worker, int workers, double seconds,
            uint64_t max_runs, const std::string &out, const std::string &replay_dir) {
  const Scenario *sc = find_scenario(prop);
  if (!sc) {
    fprintf(stderr, "unknown scenario %s\n", prop.c_str());
    return 2;
  }
  double t0 = now();
  uint64_t runs = 0, evals = 0, steps = 0, max_steps = 0, abandoned = 0, syncs = 0, switches = 0, vt = 0, nontriv = 0, dup = 0, threads = 0;
  uint64_t faults[FI_NUM] = {}, probes[PROBES] = {};
  std::unordered_set<uint64_t> scheds, contents, nontrivial_keys;
  std::vector<std::string> samples;
  std::string viol;
  int rc = 0;
  for (uint64_t i = worker; now() - t0 < seconds && runs < max_runs; i += workers) {
    uint64_t seed = run_seed(master, prop, i);
    Program p = make_program(*sc, seed, tier);
    Run r = execute(*sc, p, nullptr);
    ++runs;
    if (r.status == 1 || r.status == 2) {
      evals += g_res->evals;
      steps += g_res->steps;
      max_steps = std::max(max_steps, g_res->steps);
      syncs += g_res->sync_events;
      switches += g_res->switches;
      threads += g_res->threads;
      vt += g_res->vtime_ns;
      for (int k = 0; k < FI_NUM; ++k)
        faults[k] += g_res->faults[k];
      for (int k = 0; k < PROBES; ++k)
        probes[k] += g_res->probes[k];
      scheds.insert(g_res->sched_hash);
      contents.insert(g_res->content_hash);
      if (g_res->nontrivial) {
        ++nontriv;
        nontrivial_keys.insert(g_res->sched_hash * 31 + g_res->content_hash);
      }
      if (samples.size() < 3 && g_res->nontrivial) {
        char b[400];
        snprintf(b, sizeof b, "seed %llu strategy %u: %llu steps, %llu switches, %u threads, %llu checks; workload ",
                 (unsigned long long)seed, p.cfg.strat, (unsigned long long)g_res->steps,
                 (unsigned long long)g_res->switches, g_res->threads, (unsigned long long)g_res->evals);
        samples.push_back(b + ops_text(p, 300));
      }
    }
    if (r.status == 1) {
      if (runs % 64 == 1) {
        ++dup;
        std::vector<SimDev> d = current_devs();
        bool ovf = g_res->dev_overflow;
        Run q = execute(*sc, p, nullptr);
        if (q.status != 4 && (q.trace_hash != r.trace_hash || q.status != r.status)) {
          fprintf(stderr, "seed %llu is not repeatable\n", (unsigned long long)seed);
          rc = 2;
          break;
        }
        if (!ovf) {
          q = execute(*sc, p, &d);
          if (q.status != 4 && (q.trace_hash != r.trace_hash || q.status != r.status)) {
            fprintf(stderr, "seed %llu: recorded schedule is not repeatable\n", (unsigned long long)seed);
            rc = 2;
            break;
          }
        }
      }
      continue;
    }
    if (r.status == 4 && ++abandoned < 3) // a slow machine: this run says nothing
      continue;
    if (r.status != 2) {
      fprintf(stderr, "seed %llu: simulator error: %s: %s\n", (unsigned long long)seed, r.kind.c_str(),
              r.msg.c_str());
      rc = 2;
      break;
    }
    // violation: the same seed has to show it again
    Run q = execute(*sc, p, nullptr);
    if (q.status != 2 || q.trace_hash != r.trace_hash || q.kind != r.kind) {
      fprintf(stderr, "seed %llu: violation '%s: %s' is not repeatable (second run: status %d %s)\n",
              (unsigned long long)seed, r.kind.c_str(), r.msg.c_str(), q.status, q.kind.c_str());
      rc = 2;
      break;
    }
    std::vector<SimDev> devs;
    size_t ops0 = p.ops.size();
    uint32_t devs0 = g_res->ndev;
    bool seeded = false;
    minimise(*sc, p, devs, q, tier ? 120 : 45, seeded);
    if (q.status != 2) {
      rc = 2;
      break;
    }
    char name[400];
    snprintf(name, sizeof name, "%s/%s-%016llx.replay", replay_dir.c_str(), prop.c_str(),
             (unsigned long long)seed);
    write_replay(name, prop, p, devs, q, seed, seeded);
    char b[600];
    snprintf(b, sizeof b,
             "{\"seed\": %llu, \"replay\": %s, \"ops_before\": %zu, \"ops_after\": %zu, \"deviations_before\": "
             "%u, \"deviations_after\": %zu, \"pcs\": [%u, %u], ",
             (unsigned long long)seed, jstr(name).c_str(), ops0, p.ops.size(), devs0, devs.size(),
             g_res->pcs[0], g_res->pcs[1]);
    viol = std::string(b) + "\"kind\": " + jstr(q.kind) + ", \"msg\": " + jstr(q.msg) + "}";
    rc = 1;
    break;
  }
  FILE *f = fopen(out.c_str(), "w");
  if (!f)
    return 2;
  fprintf(f, "{\"rc\": %d, \"runs\": %llu, \"evaluations\": %llu, \"steps\": %llu, \"max_steps\": %llu, \"abandoned\": %llu, \"sync_events\": %llu, ",
          rc, (unsigned long long)runs, (unsigned long long)evals, (unsigned long long)steps,
          (unsigned long long)max_steps, (unsigned long long)abandoned, (unsigned long long)syncs);
  fprintf(f, "\"switches\": %llu, \"vtime_ns\": %llu, \"threads\": %llu, \"repeat_checks\": %llu, \"wall\": %.3f,\n",
          (unsigned long long)switches, (unsigned long long)vt, (unsigned long long)threads,
          (unsigned long long)dup, now() - t0);
  fprintf(f, "\"faults\": {");
  for (int k = 0; k < FI_NUM; ++k)
    fprintf(f, "%s\"%s\": %llu", k ? ", " : "", fault_names[k], (unsigned long long)faults[k]);
  fprintf(f, "},\n\"probes\": [");
  for (int k = 0; k < PROBES; ++k)
    fprintf(f, "%s%llu", k ? ", " : "", (unsigned long long)probes[k]);
  fprintf(f, "],\n\"samples\": [");
  for (size_t k = 0; k < samples.size(); ++k)
    fprintf(f, "%s%s", k ? ", " : "", jstr(samples[k]).c_str());
  fprintf(f, "],\n\"violation\": %s,\n", viol.empty() ? "null" : viol.c_str());
  auto dump = [&](const char *n, const std::unordered_set<uint64_t> &s) {
    fprintf(f, "\"%s\": [", n);
    bool first = true;
    for (auto v : s) {
      fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)(v >> 12));
      first = false;
    }
    fprintf(f, "],\n");
  };
  dump("sched_hashes", scheds);
  dump("content_hashes", contents);
  dump("nontrivial_hashes", nontrivial_keys);
  fprintf(f, "\"nontrivial_runs\": %llu}\n", (unsigned long long)nontriv);
  fclose(f);
  return rc;
}

int replay(const std::string &path) {
  std::string prop, kind;
  Program p;
  std::vector<SimDev> devs;
  uint64_t hash = 0;
  bool seeded = false;
  if (!read_replay(path, prop, p, devs, kind, hash, seeded)) {
    fprintf(stderr, "cannot read %s\n", path.c_str());
    return 2;
  }
  const Scenario *sc = find_scenario(prop);
  if (!sc)
    return 2;
  Run r = execute(*sc, p, seeded ? nullptr : &devs);
  if (r.status == 1) {
    printf("REPLAY property=%s: no violation (recorded: %s)\n", prop.c_str(), kind.c_str());
    return 0;
  }
  printf("REPLAY property=%s kind=%s exact=%d status=%d pcs=0x%x,0x%x\n%s\n", prop.c_str(), r.kind.c_str(),
         r.trace_hash == hash && r.kind == kind, r.status, g_res->pcs[0], g_res->pcs[1], r.msg.c_str());
  if (r.status != 2)
    return 2;
  return 1;
}
} // namespace

RegisterScenario::RegisterScenario(const Scenario &s) { registry().push_back(s); }
const Scenario *find_scenario(const std::string &name) {
  for (const auto &s : registry())
    if (name == s.name)
      return &s;
  return nullptr;
}

int main(int argc, char **argv) {
  std::map<std::string, std::string> o;
  std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2)
    o[argv[i]] = argv[i + 1];
  auto get = [&](const char *k, const char *d) { return o.count(k) ? o[k] : std::string(d); };
  int cpu = atoi(get("--cpu", "-1").c_str());
  if (cpu >= 0) {
    cpu_set_t have, s;
    CPU_ZERO(&have);
    sched_getaffinity(0, sizeof have, &have);
    int n = CPU_COUNT(&have), k = n ? cpu % n : 0;
    CPU_ZERO(&s);
    for (int c = 0; c < CPU_SETSIZE; ++c)
      if (CPU_ISSET(c, &have) && k-- == 0) {
        CPU_SET(c, &s);
        break;
      }
    sched_setaffinity(0, sizeof s, &s);
  }
  struct rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  std::string base = get("--scratch", "/tmp");
  snprintf(g_scratch, sizeof g_scratch, "%s/efgsim.XXXXXX", base.c_str());
  if (!mkdtemp(g_scratch)) {
    perror("mkdtemp");
    return 2;
  }
  auto shm = [](size_t n) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      perror("mmap");
      exit(2);
    }
    return p;
  };
  g_res = (SimResult *)shm(sizeof(SimResult));
  g_devs = (SimDev *)shm(sizeof(SimDev) * MAX_DEVS);
  g_replay = (SimDev *)shm(sizeof(SimDev) * MAX_DEVS);
  sim_init(g_res, g_devs);
  int rc = 2;
  if (mode == "explore")
    rc = explore(get("--prop", ""), strtoull(get("--seed", "1").c_str(), nullptr, 10),
                 atoi(get("--tier", "0").c_str()), atoi(get("--worker", "0").c_str()),
                 atoi(get("--workers", "1").c_str()), atof(get("--seconds", "10").c_str()),
                 strtoull(get("--max-runs", "1000000000").c_str(), nullptr, 10), get("--out", "/dev/stdout"),
                 get("--replays", "/tmp"));
  else if (mode == "replay")
    rc = replay(get("--file", ""));
  else if (mode == "one") { // debugging: execute one seed
    const Scenario *sc = find_scenario(get("--prop", ""));
    Program p = make_program(*sc, strtoull(get("--run-seed", "1").c_str(), nullptr, 10), 0);
    Run r = execute(*sc, p, nullptr);
    printf("%d %s %s hash %llx steps %llu\n", r.status, r.kind.c_str(), r.msg.c_str(),
           (unsigned long long)r.trace_hash, (unsigned long long)g_res->steps);
    rc = 0;
  } else
    fprintf(stderr, "usage: simrun explore|replay|one ...\n");
  clean_scratch();
  rmdir(g_scratch);
  return rc;
}
