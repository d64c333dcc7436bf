// C01, C02, C03: the thread pool and everything that owns one.
#include "world.h"

#include <EasyFactorGraph/structure/bases/PoolAware.h>

#include <stdexcept>
#include <string.h>
#include <thread>

using EFG::strct::Pool;
using EFG::strct::PoolAware;
using EFG::strct::Task;
using EFG::strct::Tasks;

namespace {
constexpr int MAX_IDS = 80;

struct TaskFailure : std::runtime_error {
  TaskFailure() : std::runtime_error("injected task failure") {}
};

// Book keeping of one pool: plain memory, touched outside the simulation.
struct Watch {
  int running[MAX_IDS] = {};
  int active = 0; // tasks of the batch under way
  int open_batch = 0, open_left = 0;
  size_t size = 1;
  uint64_t slot[MAX_IDS] = {}; // touched inside the simulation, by thread id
};

struct Batch {
  int id = 0;
  std::vector<int> ran;    // bookkeeping
  std::vector<int> in;     // written by the caller before
  std::vector<uint64_t> out; // written by the tasks
  std::vector<char> thrower;
  bool weak = false; // tasks may be skipped (something threw)
  int entered = 0;
};

void task_body(Watch &w, Batch &b, int k, size_t th) {
  bool throws = false;
  {
    SimOff off;
    if (th >= w.size)
      sim_fail("bad-thread-id", "task %d of batch %d got thread id %zu in a pool of %zu", k, b.id, th, w.size);
    if (w.running[th])
      sim_fail("thread-id-shared", "two tasks run at once with thread id %zu", th);
    if (w.active && w.open_batch != b.id)
      sim_fail("batches-overlap", "a task of batch %d starts while batch %d is still running", b.id, w.open_batch);
    if (w.open_left && w.open_batch != b.id)
      sim_fail("batches-overlap", "a task of batch %d starts before batch %d has ended", b.id, w.open_batch);
    if (b.ran[k]++)
      sim_fail("task-repeated", "task %d of batch %d (%zu tasks, pool of %zu) is executed again", k, b.id,
               b.ran.size(), w.size);
    if (!b.entered++) {
      w.open_batch = b.id;
      w.open_left = b.weak ? 0 : (int)b.ran.size();
    }
    w.running[th] = 1;
    ++w.active;
    throws = b.thrower[k];
  }
  // plain accesses: visible to the race detector
  uint64_t v = (uint64_t)b.in[k];
  w.slot[th] += v + 1;
  if (v % 3 == 0)
    sim_point();
  b.out[k] = v * 7 + w.slot[th] * 0;
  if (v % 4 == 1)
    sim_point();
  w.slot[th] -= v;
  {
    SimOff off;
    w.running[th] = 0;
    --w.active;
    if (w.open_left)
      --w.open_left;
    b.ran[k] += 1 << 16;
    if (throws)
      sim_count_fault(FI_TASK_THROW);
  }
  if (throws)
    throw TaskFailure{};
}

// hand over one batch and judge the outcome
void run_batch(Pool &pool, Watch &w, int id, int n, uint64_t seed, uint64_t throw_mask) {
  auto b = std::make_unique<Batch>();
  b->id = id;
  b->weak = throw_mask != 0;
  b->ran.assign(n, 0);
  b->in.assign(n, 0);
  b->out.assign(n, 0);
  b->thrower.assign(n, 0);
  bool any = false;
  for (int k = 0; k < n; ++k) {
    b->in[k] = (int)((seed >> (k % 50)) & 0xff) + k;
    if (throw_mask >> (k % 60) & 1) {
      b->thrower[k] = 1;
      any = true;
    }
  }
  bool threw = false;
  {
    auto tasks = std::make_unique<Tasks>();
    Batch *bp = b.get();
    for (int k = 0; k < n; ++k)
      tasks->emplace_back([bp, &w, k](const std::size_t th) { task_body(w, *bp, k, th); });
    if (any) {
      try {
        pool.parallelFor(*tasks);
      } catch (...) {
        threw = true;
      }
    } else
      pool.parallelFor(*tasks);
    tasks.reset(); // whoever still uses the batch is caught
  }
  uint64_t sum = 0;
  for (int k = 0; k < n; ++k)
    sum += b->out[k]; // race with a late task?
  SimOff off;
  if (any && !threw)
    sim_fail("error-lost", "a task of batch %d failed, the call returned normally", id);
  for (int k = 0; k < n; ++k) {
    int r = b->ran[k];
    if (r != 0x10001 && !(any && r == 0))
      sim_fail(r == 0 ? "task-lost" : "task-unfinished",
               "after the call for batch %d (%d tasks, pool of %zu) task %d has %s", id, n, w.size, k,
               r == 0 ? "not been executed" : "not ended");
    if (r && b->out[k] != (uint64_t)b->in[k] * 7)
      sim_fail("effect-lost", "effect of task %d of batch %d is not visible to the caller", k, id);
    sim_eval(1);
  }
  sim_eval(1);
  sim_hash(sum * 31 + n);
}

template <class F> void as_client(std::vector<std::unique_ptr<std::thread>> &ths, F f) {
  ths.push_back(std::make_unique<std::thread>(std::move(f)));
}

// ------------------------------------------------------------------ C01
// op0: pool size, clients   op: client, tasks, seed
void gen01(Rng &r, int tier, Ops &ops, SimCfg &) {
  int size = (int)r.range(1, r.chance(0.2) ? 6 : 4), clients = r.chance(0.5) ? 1 : (int)r.range(2, 3);
  if (r.chance(0.03))
    size = (int)r.range(7, r.chance(0.3) ? r.chance(0.1) ? 70 : 20 : 12);
  ops.push_back({{size, clients}});
  if (r.chance(0.0008)) { // more tasks than 16 bits count
    ops.push_back({{0, (int64_t)r.range(65500, 66200), (int64_t)(r.next() >> 4)}});
    return;
  }
  if (size <= 3 && r.chance(0.0008)) { // more batches than 16 bits count
    ops.push_back({{0, (int64_t)r.range(1, 3), (int64_t)(r.next() >> 4), 65600}});
    return;
  }
  int n = (int)r.range(1, tier ? 10 : 6);
  if (r.chance(0.01)) // a long life
    n = (int)r.range(40, 300);
  bool huge = n < 12 && r.chance(0.02);
  for (int i = 0; i < n; ++i) {
    int64_t m = r.below(10);
    int tasks = m == 0 ? 0 : m < 3 ? (int)r.range(1, 2) : m < 8 ? (int)r.range(1, 2 * size + 2) : (int)r.range(1, 12);
    if (huge && r.chance(0.5))
      tasks = (int)r.range(20, r.chance(0.3) ? 600 : 120);
    ops.push_back({{(int64_t)r.below(clients), tasks, (int64_t)(r.next() >> 4)}});
  }
}
void run01(const Ops &ops) {
  int size = (int)ops[0][0], clients = (int)ops[0][1];
  auto w = std::make_unique<Watch>();
  w->size = size;
  {
    Pool pool(size);
    if (pool.size() != (size_t)size)
      sim_fail("pool-size", "pool of %d reports size %zu", size, pool.size());
    std::vector<std::unique_ptr<std::thread>> ths;
    auto body = [&](int c) {
      for (size_t i = 1; i < ops.size(); ++i)
        if ((int)ops[i][0] % clients == c)
          for (int64_t k = 0; k == 0 || k < ops[i][3]; ++k)
            run_batch(pool, *w, (int)(i + k * 1000), (int)ops[i][1], (uint64_t)ops[i][2], 0);
    };
    for (int c = 1; c < clients; ++c)
      as_client(ths, [&body, c] { body(c); });
    body(0);
    for (auto &t : ths)
      t->join();
  }
  if (size > 1 || clients > 1)
    sim_nontrivial();
}
size_t pin1(const Ops &) { return 1; }

// ------------------------------------------------------------------ C02
struct Owner : PoolAware {
  using PoolAware::getPool;
  using PoolAware::resetPool;
  using PoolAware::setPoolSize;
  using PoolAware::ScopedPoolActivator;
};

void small_model(W::World &w, W::Inst &i, uint64_t seed, bool tunable = false) {
  Rng r(seed);
  int n = (int)w.u.size();
  for (int k = 1; k < n; ++k)
    w.addFactor(i, {(int)r.below(k), k}, tunable && r.chance(0.6) ? W::World::K_TUN : W::World::K_CONST, r.next(), 0,
                -1);
  if (r.chance(0.5))
    w.addFactor(i, {(int)r.below(n)}, W::World::K_CONST, r.next(), 0, -1);
}

// op0: clients  op: client, kind, slot, size, seed
void gen02(Rng &r, int tier, Ops &ops, SimCfg &) {
  int clients = r.chance(0.6) ? 1 : (int)r.range(2, 3);
  ops.push_back({{clients}});
  int n = (int)r.range(2, tier ? 14 : 9);
  for (int i = 0; i < n; ++i)
    ops.push_back({{(int64_t)r.below(clients), (int64_t)r.below(12), (int64_t)r.below(3), (int64_t)r.range(1, 4),
                    (int64_t)(r.next() >> 4)}});
  if (r.chance(0.05)) // a bigger pool
    ops[r.range(1, n)].a[3] = r.range(5, r.chance(0.05) ? 50 : 9);
}
struct Slots {
  std::unique_ptr<Pool> pool[3];
  std::unique_ptr<Owner> own[3];
  std::unique_ptr<W::World> mod[3];
  Watch w[3], wo[3];
};
void quiet(int clients, const char *after, uint64_t extra) {
  SimOff off;
  if (clients != 1)
    return;
  uint64_t n = sim_live_threads();
  if (n > 1 + extra)
    sim_fail("thread-left", "after %s there are %llu threads, %llu belong to live pools", after,
             (unsigned long long)n, (unsigned long long)(1 + extra));
  sim_eval(1);
}
uint64_t expected(const Slots &s) {
  SimOff off;
  uint64_t n = 0;
  for (int k = 0; k < 3; ++k) {
    if (s.pool[k])
      n += s.pool[k]->size() - 1;
    if (s.own[k])
      n += s.own[k]->getPool().size() - 1;
  }
  return n;
}
void life_op(Slots &s, const Op &o, int idx, int clients) {
  int k = (int)(o[2] % 3);
  size_t size = (size_t)o[3];
  uint64_t seed = (uint64_t)o[4];
  switch (o[1]) {
  case 0:
  case 1:
    s.pool[k].reset();
    s.pool[k] = std::make_unique<Pool>(size);
    s.w[k] = Watch{};
    s.w[k].size = size;
    break;
  case 2:
    s.pool[k].reset();
    quiet(clients, "destroying a pool", expected(s));
    break;
  case 3:
  case 4:
    if (!s.pool[k]) {
      s.pool[k] = std::make_unique<Pool>(size);
      s.w[k] = Watch{};
      s.w[k].size = size;
    }
    run_batch(*s.pool[k], s.w[k], idx, (int)(seed % 7), seed >> 8, 0);
    break;
  case 5:
    if (!s.own[k])
      s.own[k] = std::make_unique<Owner>();
    s.own[k]->setPoolSize(size);
    s.wo[k] = Watch{};
    s.wo[k].size = size;
    if (s.own[k]->getPool().size() != size)
      sim_fail("pool-size", "resized to %zu, reports %zu", size, s.own[k]->getPool().size());
    break;
  case 6:
    if (s.own[k]) {
      s.own[k]->resetPool();
      s.wo[k] = Watch{};
      quiet(clients, "resetting a pool", expected(s));
    }
    break;
  case 7:
    s.own[k].reset();
    quiet(clients, "destroying an owner of a pool", expected(s));
    break;
  case 8:
    if (s.own[k]) {
      s.wo[k] = Watch{};
      s.wo[k].size = size;
      {
        Owner::ScopedPoolActivator act(*s.own[k], size);
        run_batch(s.own[k]->getPool(), s.wo[k], idx, (int)(seed % 7), seed >> 8, 0);
      }
      s.wo[k] = Watch{};
      quiet(clients, "leaving a scope with a larger pool", expected(s));
    }
    break;
  case 9:
    if (s.own[k]) {
      s.wo[k].size = s.own[k]->getPool().size();
      run_batch(s.own[k]->getPool(), s.wo[k], idx, (int)(seed % 7), seed >> 8, 0);
    }
    break;
  case 10: {
    bool was = (bool)s.mod[k];
    if (!was) {
      SimOff off;
      s.mod[k] = std::make_unique<W::World>();
      s.mod[k]->asserts = W::A_ANSWER;
      s.mod[k]->makeVars(3, seed, 2);
    }
    if (!was)
      small_model(*s.mod[k], s.mod[k]->addModel(seed & 1), seed >> 3);
    W::Inst &i = *s.mod[k]->inst[0];
    s.mod[k]->setEv(i, 0, (int)(seed % 2), false);
    s.mod[k]->qMarginal(i, 1, (int)size, false);
    quiet(clients, "a query", expected(s));
    break;
  }
  default:
    if (s.mod[k]) {
      s.mod[k].reset();
      quiet(clients, "destroying a model", expected(s));
    }
  }
}
void run02(const Ops &ops) {
  int clients = (int)ops[0][0];
  std::vector<std::unique_ptr<std::thread>> ths;
  auto body = [&](int c) {
    auto s = std::make_unique<Slots>();
    for (size_t i = 1; i < ops.size(); ++i)
      if ((int)ops[i][0] % clients == c)
        life_op(*s, ops[i], (int)i, clients);
  };
  for (int c = 1; c < clients; ++c)
    as_client(ths, [&body, c] { body(c); });
  body(0);
  for (auto &t : ths)
    t->join();
  quiet(1, "everything has been destroyed", 0);
  sim_nontrivial();
}

// ------------------------------------------------------------------ C03
// op0: pool size, vars, model seed, clients
// op: kind, size, seed, nth, persistent
void gen03(Rng &r, int tier, Ops &ops, SimCfg &) {
  int clients = r.chance(0.25) ? (int)r.range(2, 3) : 1;
  ops.push_back({{(int64_t)r.range(1, 4), (int64_t)r.range(2, 5), (int64_t)(r.next() >> 4), clients}});
  int n = (int)r.range(2, tier ? 14 : 9);
  for (int i = 0; i < n; ++i)
    ops.push_back({{(int64_t)(clients > 1 ? r.below(4) : r.below(18)), (int64_t)r.range(1, 4), (int64_t)(r.next() >> 4), (int64_t)r.range(1, 3),
                    (int64_t)r.below(2)}});
}
void failing_batch(Pool &pool, Watch &w, const Op &o, size_t size, int id) {
  uint64_t seed = (uint64_t)o[2];
  int n = (int)(seed % (2 * size + 3));
  uint64_t mask = seed >> 10;
  if (o[0] == 1)
    mask &= seed >> 30;
  if (o[0] == 2)
    mask = n ? 1ull << (seed % n) : 0;
  run_batch(pool, w, id, n, seed >> 8, mask);
  if (mask && n)
    sim_nontrivial();
}
// several threads hand failing and ordinary batches to the same pool: each
// caller gets the failures of its own batches and nothing else
void run03clients(const Ops &ops) {
  size_t size = (size_t)ops[0][0];
  int clients = (int)ops[0][3];
  auto w = std::make_unique<Watch>();
  w->size = size;
  {
    Pool pool(size);
    std::vector<std::unique_ptr<std::thread>> ths;
    auto body = [&](int c) {
      for (size_t i = 1; i < ops.size(); ++i)
        if ((int)(i % clients) == c) {
          if (ops[i][0] < 3)
            failing_batch(pool, *w, ops[i], size, (int)i);
          else
            run_batch(pool, *w, (int)i, (int)(ops[i][2] % 8), (uint64_t)ops[i][2] >> 8, 0);
        }
    };
    for (int c = 1; c < clients; ++c)
      as_client(ths, [&body, c] { body(c); });
    body(0);
    for (auto &t : ths)
      t->join();
    run_batch(pool, *w, (int)ops.size(), (int)size + 1, 12345, 0);
  }
  quiet(1, "everything has been destroyed", 0);
}
void run03(const Ops &ops) {
  if (ops[0][3] > 1)
    return run03clients(ops);
  size_t size = (size_t)ops[0][0];
  auto w = std::make_unique<Watch>();
  w->size = size;
  auto pool = std::make_unique<Pool>(size);
  auto own = std::make_unique<Owner>();
  auto wo = std::make_unique<Watch>();
  W::World world;
  world.asserts = W::A_ANSWER | W::A_GRAD;
  world.makeVars((int)ops[0][1], (uint64_t)ops[0][2], 3);
  W::Inst &inst = world.addModel(ops[0][2] & 1);
  small_model(world, inst, (uint64_t)ops[0][2] >> 3, !(ops[0][2] & 1));
  for (size_t i = 1; i < ops.size(); ++i) {
    const Op &o = ops[i];
    size_t sz = (size_t)o[1];
    uint64_t seed = (uint64_t)o[2];
    switch (o[0]) {
    case 0:
    case 1:
    case 2: // failing tasks
      failing_batch(*pool, *w, o, size, (int)i);
      break;
    case 3: // ordinary batch
      run_batch(*pool, *w, (int)i, (int)(seed % 8), seed >> 8, 0);
      break;
    case 4: { // new pool, threads refused
      auto p2 = std::unique_ptr<Pool>();
      bool threw = false;
      sim_arm_thread((uint64_t)o[3], (int)o[4]);
      try {
        p2 = std::make_unique<Pool>(sz);
      } catch (...) {
        threw = true;
      }
      int fired = sim_disarm_thread();
      SimOff off;
      sim_eval(1);
      if (fired && !threw)
        sim_fail("refusal-hidden", "a worker of a pool of %zu could not be started, no exception", sz);
      if (!fired && threw)
        sim_fail("unexpected-exception", "creating a pool of %zu threw", sz);
      if (threw && sim_live_threads() != 1 + (size - 1) + (own->getPool().size() - 1))
        sim_fail("thread-left", "failed creation of a pool leaves threads behind");
      if (fired)
        sim_nontrivial();
      if (p2) {
        sim_off_leave();
        Watch w2;
        w2.size = sz;
        run_batch(*p2, w2, (int)i, (int)(seed % 8), seed >> 8, 0);
        p2.reset();
        sim_off_enter();
      }
      break;
    }
    case 5: // zero threads
    {
      bool threw = false;
      try {
        Pool p(0);
      } catch (...) {
        threw = true;
      }
      if (!threw)
        sim_fail("zero-accepted", "a pool of zero threads is accepted");
      sim_count_fault(FI_REJECT);
      sim_eval(1);
      break;
    }
    case 6:
    case 7:
    case 8: { // owner resized with refusals or to zero
      bool threw = false;
      size_t want = o[0] == 8 ? 0 : sz;
      if (o[0] != 8)
        sim_arm_thread((uint64_t)o[3], (int)o[4]);
      try {
        own->setPoolSize(want);
      } catch (...) {
        threw = true;
      }
      int fired = o[0] != 8 ? sim_disarm_thread() : 1;
      sim_eval(1);
      if (o[0] == 8)
        sim_count_fault(FI_REJECT);
      if (fired && !threw)
        sim_fail("refusal-hidden", "a pool could not be resized to %zu, no exception", want);
      if (!fired && threw)
        sim_fail("unexpected-exception", "resizing a pool to %zu threw", want);
      if (fired)
        sim_nontrivial();
      size_t has = 0;
      try {
        has = own->getPool().size();
      } catch (...) {
        sim_fail("owner-unusable", "after a refused resize the owner has no pool any more");
      }
      if (threw) {
        *wo = Watch{};
        wo->size = has;
      } else
        wo->size = want;
      run_batch(own->getPool(), *wo, (int)i, (int)(seed % 8), seed >> 8, 0);
      break;
    }
    case 9:
    case 10: { // query with refusals or zero threads
      int var = (int)(seed % world.u.size());
      if (o[0] == 10)
        world.remAll(inst); // there has to be something to compute
      world.setEv(inst, (int)((seed >> 9) % world.u.size()), (int)((seed >> 5) % 2), false);
      if (!inst.m.has(var))
        break;
      if (inst.m.observed(var))
        world.remAll(inst);
      bool threw = false;
      bool zero = o[0] == 10;
      if (!zero)
        sim_arm_thread((uint64_t)o[3], (int)o[4]);
      try {
        world.qMarginal(inst, var, zero ? 0 : (int)sz, false, !zero);
      } catch (...) {
        threw = true;
      }
      int fired = zero ? 1 : sim_disarm_thread();
      sim_eval(1);
      if (zero)
        sim_count_fault(FI_REJECT);
      if (fired && !threw)
        sim_fail("refusal-hidden", "a query for %zu threads could not get them, no exception", zero ? 0 : sz);
      if (!fired && threw)
        sim_fail("unexpected-exception", "a query with %zu threads threw", sz);
      if (fired)
        sim_nontrivial();
      if (seed >> 20 & 1)
        world.qMarginal(inst, var, 1, false);
      break;
    }
    case 11: { // sampling with refusals
      bool threw = false;
      sim_arm_thread((uint64_t)o[3], (int)o[4]);
      try {
        world.qSamples(inst, 3, (int)sz, 5, 1, 1, false);
      } catch (...) {
        threw = true;
      }
      int fired = sim_disarm_thread();
      sim_eval(1);
      if (fired && !threw)
        sim_fail("refusal-hidden", "sampling with %zu threads could not get them, no exception", sz);
      if (!fired && threw)
        sim_fail("unexpected-exception", "sampling with %zu threads threw", sz);
      break;
    }
    case 12:
    case 13:
    case 14:
    case 15: { // other requests with refusals or zero threads
      world.remAll(inst);
      if (!inst.m.order.empty() && o[0] != 15 && inst.m.order.size() > 1)
        world.setEv(inst, inst.m.order[(seed >> 9) % inst.m.order.size()], 0, false);
      if (o[0] == 15 && (!inst.rf || inst.m.groups.empty()))
        break;
      bool threw = false, zero = seed >> 40 & 1;
      int th = zero ? 0 : (int)sz;
      if (!zero)
        sim_arm_thread((uint64_t)o[3], (int)o[4]);
      try {
        switch (o[0]) {
        case 12:
          world.qMap(inst, inst.m.hidden()[(seed >> 17) % inst.m.hidden().size()], th, false, !zero);
          break;
        case 13:
          world.qHiddenMap(inst, th, !zero);
          break;
        case 14:
          world.qJoint(inst, seed >> 5, th, false, !zero);
          break;
        default:
          world.qGradient(inst, seed >> 5, (int)(seed % 4) + 1, th);
        }
      } catch (...) {
        threw = true;
      }
      int fired = zero ? 1 : sim_disarm_thread();
      sim_eval(1);
      if (zero)
        sim_count_fault(FI_REJECT);
      if (fired && !threw)
        sim_fail("refusal-hidden", "request %d for %d threads could not get them, no exception", (int)o[0], th);
      if (!fired && threw)
        sim_fail("unexpected-exception", "request %d with %d threads threw", (int)o[0], th);
      if (fired)
        sim_nontrivial();
      if (seed >> 20 & 1) {
        world.qMarginal(inst, inst.m.order[(seed >> 23) % inst.m.order.size()], 1, false);
        if (o[0] == 15)
          world.qGradient(inst, seed >> 7, 2, 1 + (int)(seed % 3));
      }
      break;
    }
    default: { // ordinary query
      int var = (int)(seed % world.u.size());
      if (inst.m.has(var)) {
        world.remAll(inst);
        world.qMarginal(inst, var, (int)sz, false);
        world.qMap(inst, var, (int)(1 + sz % 3), false);
      }
    }
    }
  }
  run_batch(*pool, *w, (int)ops.size(), (int)size + 1, 12345, 0);
  run_batch(own->getPool(), *wo, (int)ops.size() + 1, 3, 12345, 0);
  pool.reset();
  own.reset();
  quiet(1, "everything has been destroyed", 0);
}

RegisterScenario r1({"C01", gen01, run01, pin1});
RegisterScenario r2({"C02", gen02, run02, pin1});
RegisterScenario r3({"C03", gen03, run03, pin1});
} // namespace
