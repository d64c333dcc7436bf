// Deterministic simulation runtime.
//
// The library under test is compiled with -fsanitize=thread but linked against
// this file instead of libtsan: every memory access, atomic operation and
// (through symbol interposition) every thread, lock, clock, random, allocation
// and file operation arrives here. Threads are real, but exactly one of them
// runs at any time and this file decides which one.
//
// This file uses no STL containers and is compiled without instrumentation.
#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <initializer_list>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <typeinfo>
#include <cxxabi.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" char __data_start, _end;
extern "C" char __libc_single_threaded;

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define RET_PC ((uint32_t)(uintptr_t)__builtin_return_address(0))

namespace {
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

constexpr uintptr_t ARENA = 0x100000000000ull;
constexpr size_t HEAP_SZ = 160ull << 20;
constexpr size_t STACK_SZ = 512ull << 10;
constexpr u32 SLOTS = 80;
constexpr size_t ARENA_SZ = HEAP_SZ + STACK_SZ * SLOTS;
constexpr size_t ARENA_G = ARENA_SZ / 8;

struct VC {
  u32 c[SLOTS];
};
inline void vc_join(VC &a, const VC &b) {
  for (u32 i = 0; i < SLOTS; ++i)
    if (b.c[i] > a.c[i])
      a.c[i] = b.c[i];
}

struct Cell {
  u64 s[4];
  u32 pc[4];
};

enum TState { T_FREE = 0, T_RUNNABLE, T_BLOCKED, T_FINISHED, T_CRASHED };

struct TlsDtor {
  void (*fn)(void *);
  void *obj;
};

struct Thread {
  u32 tid, slot;
  int state;
  volatile u32 baton;
  const void *wait_addr;
  u64 deadline; // 0: none
  int timed_out;
  VC vc, fence_acq, fence_rel;
  int has_fence_rel;
  int stalled;
  u64 spin_ver;
  u32 spins;
  int64_t prio;
  int off;
  int detached, joined;
  void *(*fn)(void *);
  void *arg;
  void *ret;
  pthread_t real;
  TlsDtor dtors[64];
  u32 ndtors;
  u64 cond_seq;
  Thread *next_all;
};

struct SyncObj {
  uintptr_t addr;
  VC vc;
  int owner;   // mutex: tid+1
  int rec;
  int readers; // rwlock
  u32 kind;    // 1 atomic, 2 mutex, 3 rwlock, 4 guard/once
};
constexpr u32 SYNC_N = 1 << 14;

struct IoFault {
  int used, op, act, persistent;
  u64 nth;
  int64_t arg;
};
constexpr int MAXTHREADS = 65536;
constexpr int NCLASS = 54;
struct FreeList {
  u32 *buf; // ring of block offsets (granules)
  u32 head, tail, cap;
};

struct State {
  int on;
  int fast;
  Thread *cur;
  u64 step, next_dec;
  SimCfg cfg;
  const SimDev *replay;
  u32 nreplay, rpos;
  int is_replay;
  SimResult *res;
  SimDev *devs;
  u32 ndev;
  u64 version, idle_rounds, idle_ver;
  u64 now_ns;
  int64_t clock_off;
  u64 rng_s, rng_e, rng_h;
  u64 hash, shash;
  Thread *all[MAXTHREADS];
  Thread *live[SLOTS + 64]; // by thread id; finished ones are dropped now and then
  u32 nlist;
  u32 nthreads;
  u32 nlive;
  Thread *slot_owner[SLOTS];
  VC slot_last[SLOTS];
  u64 pct_points[16];
  u32 pct_n, pct_i;
  int64_t pct_low;
  u32 rr_left;
  u64 starve_left;
  u64 cond_seq;
  // heap
  size_t heap_top; // granules
  FreeList fl[NCLASS];
  u64 live_blocks;
  u64 live_bytes;
  // faults
  int alloc_armed, alloc_persist, alloc_fired;
  u64 alloc_left;
  int thr_armed, thr_persist, thr_fired;
  u64 thr_left;
  IoFault iof[8];
  u64 io_count[IO_OPS];
  int io_fired;
  u32 io_chunk;
  char io_root[256];
  size_t io_root_len;
  u8 fd_tracked[1024];
  int rand_mode, rand_left;
  int64_t rand_v;
  int dead;
};

State S;
Cell *cells;
u8 *bstate;   // per byte state of the heap
u8 *gflag;    // per granule: bit0 a sync object may live here
u32 *blksize; // per granule of the heap: size of the block starting here
SyncObj *syncs;
uintptr_t GLO, GLO_SZ;
Thread *threads_mem;

// ---- real functions
int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int (*r_join)(pthread_t, void **);
int (*r_detach)(pthread_t);
int (*r_mlock)(pthread_mutex_t *);
int (*r_mtrylock)(pthread_mutex_t *);
int (*r_munlock)(pthread_mutex_t *);
int (*r_mdestroy)(pthread_mutex_t *);
int (*r_cwait)(pthread_cond_t *, pthread_mutex_t *);
int (*r_csignal)(pthread_cond_t *);
int (*r_cbcast)(pthread_cond_t *);
int (*r_once)(pthread_once_t *, void (*)());
int (*r_rdlock)(pthread_rwlock_t *);
int (*r_wrlock)(pthread_rwlock_t *);
int (*r_rwunlock)(pthread_rwlock_t *);
int (*r_yield)();
int (*r_nanosleep)(const timespec *, timespec *);
int (*r_clock_gettime)(clockid_t, timespec *);
time_t (*r_time)(time_t *);
int (*r_gettimeofday)(timeval *, void *);
int (*r_rand)();
long (*r_syscall)(long, ...);
ssize_t (*r_read)(int, void *, size_t);
ssize_t (*r_write)(int, const void *, size_t);
ssize_t (*r_writev)(int, const iovec *, int);
FILE *(*r_fopen)(const char *, const char *);
int (*r_fclose)(FILE *);
int (*r_open)(const char *, int, ...);
int (*r_close)(int);

template <typename T> void load_sym(T &f, const char *name) {
  f = (T)dlsym(RTLD_NEXT, name);
}

inline u64 mix64(u64 x) {
  x ^= x >> 30;
  x *= 0xbf58476d1ce4e5b9ull;
  x ^= x >> 27;
  x *= 0x94d049bb133111ebull;
  x ^= x >> 31;
  return x;
}
inline u64 next_rng(u64 &s) {
  s += 0x9e3779b97f4a7c15ull;
  return mix64(s);
}
// addresses of shared libraries differ between processes
inline u64 norm_addr(uintptr_t a) {
  if (a - ARENA < ARENA_SZ || a < (1u << 28))
    return a;
  return 7;
}
inline void hash_ev(u64 a, u64 b) {
  S.hash = mix64(S.hash ^ (a * 0x9e3779b97f4a7c15ull) ^ (b + 0x1234567));
}

void finish_result(int status) {
  SimResult *r = S.res;
  r->trace_hash = S.hash;
  r->sched_hash = S.shash;
  r->steps = S.step;
  r->vtime_ns = S.now_ns + S.step * 10;
  r->threads = S.nthreads;
  r->ndev = S.ndev;
  r->status = status;
}

[[noreturn]] void die(int status, const char *kind, const char *msg) {
  if (S.res && S.res->status == 0) {
    snprintf(S.res->kind, sizeof S.res->kind, "%s", kind);
    snprintf(S.res->msg, sizeof S.res->msg, "%s", msg);
    finish_result(status);
  }
  S.on = 0;
  _exit(status == 1 ? 0 : 3);
}

[[noreturn]] void vfail(const char *kind, const char *fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  S.on = 0;
  die(2, kind, buf);
}

inline int futex(volatile u32 *a, int op, u32 v) {
  return (int)r_syscall(SYS_futex, a, op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0);
}

void wait_baton(Thread *me) {
  while (__atomic_load_n(&me->baton, __ATOMIC_ACQUIRE) == 0)
    futex(&me->baton, FUTEX_WAIT, 0);
  me->baton = 0;
}
void give_baton(Thread *t) {
  __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE);
  futex(&t->baton, FUTEX_WAKE, 1);
}

// ------------------------------------------------------------------ scheduler
inline bool candidate(const Thread *t) {
  return t->state == T_RUNNABLE && !t->stalled;
}

inline u64 vnow() { return S.now_ns + S.step * 10; }

void wake_thread(Thread *t) {
  t->state = T_RUNNABLE;
  t->stalled = 0;
  t->spins = 0;
  t->deadline = 0;
  t->wait_addr = nullptr;
}

void bump_version() {
  ++S.version;
}

void prune_live() {
  u32 k = 0;
  for (u32 i = 0; i < S.nlist; ++i)
    if (S.live[i]->state != T_FINISHED && S.live[i]->state != T_CRASHED)
      S.live[k++] = S.live[i];
  S.nlist = k;
}

void fire_timers() {
  u64 n = vnow();
  for (u32 i = 0; i < S.nlist; ++i) {
    Thread *t = S.live[i];
    if (t->state == T_BLOCKED && t->deadline && t->deadline <= n) {
      t->timed_out = 1;
      wake_thread(t);
      bump_version();
    }
  }
}

// refresh stalled threads whose observed version is outdated
u32 collect(Thread **out) {
  u32 n = 0;
  prune_live();
  for (u32 i = 0; i < S.nlist; ++i) {
    Thread *t = S.live[i];
    if (t->state != T_RUNNABLE)
      continue;
    if (t->stalled && t->spin_ver != S.version) {
      t->stalled = 0;
      t->spins = 0;
    }
    if (!t->stalled)
      out[n++] = t;
  }
  return n;
}

void record_dev(u32 tid) {
  if (S.ndev < MAX_DEVS) {
    S.devs[S.ndev].step = S.step;
    S.devs[S.ndev].tid = tid;
    ++S.ndev;
  } else {
    S.res->dev_overflow = 1;
  }
}

void describe_threads(char *buf, size_t n) {
  size_t o = 0;
  for (u32 i = 0; i < S.nthreads && o + 80 < n; ++i) {
    Thread *t = S.all[i];
    if (t->state == T_FINISHED)
      continue;
    o += snprintf(buf + o, n - o, " [thread %u: %s%s wait=%p]", t->tid,
                  t->state == T_RUNNABLE  ? "runnable"
                  : t->state == T_BLOCKED ? "blocked"
                                          : "crashed",
                  t->stalled ? " spinning" : "", t->wait_addr);
  }
}

void plan_next_plain() {
  if (S.is_replay) {
    while (S.rpos < S.nreplay && S.replay[S.rpos].step < S.step)
      ++S.rpos;
    S.next_dec = S.rpos < S.nreplay ? S.replay[S.rpos].step : ~0ull;
    return;
  }
  u64 nd = ~0ull;
  if (S.cfg.strat == ST_PCT) {
    if (S.pct_i < S.pct_n)
      nd = S.pct_points[S.pct_i];
  } else if (S.cfg.plain_gap) {
    u64 g = 1 + next_rng(S.rng_s) % (2 * (u64)S.cfg.plain_gap);
    nd = S.step + g;
  }
  S.next_dec = nd;
}

// choose the next thread. kind: 0 plain access, 1 sync point, 2 forced (current
// cannot continue), 3 thread creation (hint = child)
Thread *choose(int kind, Thread *hint) {
  Thread *cand[SLOTS + 4];
  Thread *cur = S.cur;
  fire_timers();
  u32 n = collect(cand);
  if (n == 0) {
    // nothing can run: let time pass, or let the spinners spin on
    u64 best = 0;
    bool any_runnable = false;
    for (u32 i = 0; i < S.nlist; ++i) {
      Thread *t = S.live[i];
      if (t->state == T_BLOCKED && t->deadline && (!best || t->deadline < best))
        best = t->deadline;
      if (t->state == T_RUNNABLE)
        any_runnable = true;
    }
    if (best) {
      u64 v = vnow();
      if (best > v)
        S.now_ns += best - v;
      fire_timers();
    } else if (any_runnable) {
      if (S.idle_ver != S.version) {
        S.idle_ver = S.version;
        S.idle_rounds = 0;
      }
      if (++S.idle_rounds > 3000) {
        char b[1500];
        describe_threads(b, sizeof b);
        vfail("no-progress", "every thread that can run is spinning and nothing changes any more:%s", b);
      }
      for (u32 i = 0; i < S.nlist; ++i) {
        Thread *t = S.live[i];
        if (t->state == T_RUNNABLE) {
          t->stalled = 0;
          t->spins = 0;
        }
      }
    } else {
      char b[1500];
      describe_threads(b, sizeof b);
      vfail("deadlock", "no thread can run:%s", b);
    }
    n = collect(cand);
    if (n == 0)
      vfail("deadlock", "no thread can run after letting time pass");
  }
  bool cur_ok = candidate(cur);
  // default choice
  Thread *def = nullptr;
  if (cur_ok)
    def = cur;
  else {
    for (u32 i = 0; i < n && !def; ++i)
      if (cand[i]->tid > cur->tid)
        def = cand[i];
    if (!def)
      def = cand[0];
  }
  Thread *pick = def;
  if (S.is_replay) {
    while (S.rpos < S.nreplay && S.replay[S.rpos].step < S.step)
      ++S.rpos;
    if (S.rpos < S.nreplay && S.replay[S.rpos].step == S.step) {
      for (u32 i = 0; i < n; ++i)
        if (cand[i]->tid == S.replay[S.rpos].tid)
          pick = cand[i];
      ++S.rpos;
    }
    S.next_dec = S.rpos < S.nreplay ? S.replay[S.rpos].step : ~0ull;
  } else {
    const SimCfg &c = S.cfg;
    switch (c.strat) {
    case ST_DEFAULT:
      break;
    case ST_RANDOM:
    case ST_STARVE: {
      bool sw = !cur_ok || kind == 0 || (next_rng(S.rng_s) & 1023) < c.p_sync;
      if (sw && n > 1)
        pick = cand[next_rng(S.rng_s) % n];
      if (c.strat == ST_STARVE && S.starve_left && n > 1) {
        --S.starve_left;
        if (pick->tid == c.starve_tid) {
          u32 r = next_rng(S.rng_s) % (n - 1);
          for (u32 i = 0; i < n; ++i) {
            if (cand[i]->tid == c.starve_tid)
              continue;
            if (r-- == 0) {
              pick = cand[i];
              break;
            }
          }
          ++S.res->faults[FI_STALL_THREAD];
        }
      }
    } break;
    case ST_PCT: {
      while (S.pct_i < S.pct_n && S.pct_points[S.pct_i] <= S.step) {
        cur->prio = --S.pct_low;
        ++S.pct_i;
      }
      pick = cand[0];
      for (u32 i = 1; i < n; ++i)
        if (cand[i]->prio > pick->prio)
          pick = cand[i];
    } break;
    case ST_RR: {
      if (kind == 0 || !cur_ok || S.rr_left == 0) {
        S.rr_left = next_rng(S.rng_s) % (1 + c.p_sync / 16);
        pick = nullptr;
        for (u32 i = 0; i < n && !pick; ++i)
          if (cand[i]->tid > cur->tid)
            pick = cand[i];
        if (!pick)
          pick = cand[0];
      } else
        --S.rr_left;
    } break;
    }
    if (kind == 3 && hint && c.child_first &&
        (next_rng(S.rng_s) & 1023) < c.child_first && candidate(hint)) {
      pick = hint;
      ++S.res->faults[FI_CHILD_FIRST];
    }
    if (kind == 0 || S.next_dec <= S.step)
      plan_next_plain();
  }
  if (pick != def)
    record_dev(pick->tid);
  if (pick != cur && cur_ok) {
    if (kind == 0)
      ++S.res->faults[FI_PREEMPT_PLAIN];
    else
      ++S.res->faults[FI_PREEMPT_SYNC];
  }
  return pick;
}

void switch_to(Thread *t, u32 pc) {
  Thread *me = S.cur;
  if (t == me)
    return;
  ++S.res->switches;
  hash_ev(t->tid, S.step);
  S.shash = mix64(S.shash ^ (((u64)me->tid << 40) + ((u64)t->tid << 32) + (u32)norm_addr(pc)));
  S.cur = t;
  int e = errno;
  give_baton(t);
  wait_baton(me);
  errno = e;
}

void check_cap() {
  if (UNLIKELY(S.step > S.cfg.step_cap)) {
    char b[1500];
    describe_threads(b, sizeof b);
    vfail("no-progress", "step budget of %llu exhausted:%s",
          (unsigned long long)S.cfg.step_cap, b);
  }
}

void sync_point(int kind, u64 evkind, const void *addr, u32 pc, Thread *hint = nullptr) {
  ++S.step;
  ++S.res->sync_events;
  hash_ev(((u64)S.cur->tid << 8) | evkind, norm_addr((uintptr_t)addr));
  check_cap();
  if (S.nlive == 1 && candidate(S.cur)) {
    return; // alone: nothing to decide
  }
  Thread *t = choose(kind, hint);
  switch_to(t, pc);
}

// current thread blocks on addr until woken (or deadline)
void block_on(const void *addr, u64 deadline, u32 pc) {
  Thread *me = S.cur;
  me->state = T_BLOCKED;
  me->wait_addr = addr;
  me->deadline = deadline;
  me->timed_out = 0;
  ++S.step;
  ++S.res->sync_events;
  hash_ev(((u64)me->tid << 8) | 0x33, norm_addr((uintptr_t)addr));
  check_cap();
  Thread *t = choose(2, nullptr);
  switch_to(t, pc);
}

u32 wake_addr(const void *addr, u32 max) {
  u32 k = 0;
  for (u32 i = 0; i < S.nlist && k < max; ++i) {
    Thread *t = S.live[i];
    if (t->state == T_BLOCKED && t->wait_addr == addr) {
      wake_thread(t);
      ++k;
    }
  }
  bump_version();
  return k;
}

// the current thread observed shared state without changing anything
void spin_note(u32 pc) {
  Thread *t = S.cur;
  if (t->spin_ver != S.version) {
    t->spin_ver = S.version;
    t->spins = 0;
    return;
  }
  if (++t->spins > 24) {
    t->stalled = 1;
    if (S.nlive == 1) {
      // alone and spinning
      if (S.idle_ver != S.version) {
        S.idle_ver = S.version;
        S.idle_rounds = 0;
      }
      if (++S.idle_rounds > 3000)
        vfail("no-progress", "the only thread left spins on a condition nobody can change (pc 0x%x)", pc);
      t->stalled = 0;
      t->spins = 0;
      return;
    }
    ++S.step;
    check_cap();
    Thread *n = choose(2, nullptr);
    switch_to(n, pc);
  }
}

// ------------------------------------------------------------------ sync table
SyncObj *sync_get(uintptr_t a, u32 kind) {
  u32 h = (u32)mix64(a) & (SYNC_N - 1);
  for (u32 i = 0; i < SYNC_N; ++i) {
    SyncObj *o = &syncs[(h + i) & (SYNC_N - 1)];
    if (o->addr == a)
      return o;
    if (o->addr == 0) {
      memset(o, 0, sizeof *o);
      o->addr = a;
      o->kind = kind;
      if (a - ARENA < ARENA_SZ)
        gflag[(a - ARENA) >> 3] = 1;
      return o;
    }
  }
  die(3, "runtime", "sync table full");
}
SyncObj *sync_find(uintptr_t a) {
  u32 h = (u32)mix64(a) & (SYNC_N - 1);
  for (u32 i = 0; i < SYNC_N; ++i) {
    SyncObj *o = &syncs[(h + i) & (SYNC_N - 1)];
    if (o->addr == a)
      return o;
    if (o->addr == 0)
      return nullptr;
  }
  return nullptr;
}
// forget what is known about the synchronisation object at a: its clock becomes
// empty, it stays in the table
void sync_purge(uintptr_t a) {
  for (uintptr_t x = a; x < a + 8; ++x) {
    SyncObj *o = sync_find(x);
    if (o) {
      if ((o->kind == 2 || o->kind == 3) && (o->owner || o->readers))
        vfail("locked-mutex-freed", "memory of a locked mutex was released (thread %d holds it)", o->owner - 1);
      memset(&o->vc, 0, sizeof o->vc);
      o->owner = o->rec = o->readers = 0;
    }
  }
}

inline void tick(Thread *t) { ++t->vc.c[t->slot]; }

// ------------------------------------------------------------------ shadow
void report_race(uintptr_t a, bool w, bool at, u32 pc, const Cell &c, int i) {
  u64 s = c.s[i];
  u32 oslot = (s >> 32) & 127;
  S.res->pcs[0] = pc;
  S.res->pcs[1] = c.pc[i];
  vfail("data-race",
        "%s%s of %p by thread %u (pc 0x%x) races with earlier %s%s by the thread in slot %u (pc 0x%x)",
        at ? "atomic " : "", w ? "write" : "read", (void *)a, S.cur->tid, pc,
        (s >> 49) & 1 ? "atomic " : "", (s >> 48) & 1 ? "write" : "read", oslot, c.pc[i]);
}

inline void race_cell(size_t g, u32 mask, bool w, bool at, u32 pc, uintptr_t a) {
  Cell &c = cells[g];
  Thread *t = S.cur;
  const u32 slot = t->slot;
  const u64 me = (1ull << 63) | ((u64)at << 49) | ((u64)w << 48) | ((u64)mask << 40) |
                 ((u64)slot << 32) | t->vc.c[slot];
  int repl = -1;
  for (int i = 0; i < 4; ++i) {
    u64 s = c.s[i];
    if (s == me)
      return;
    if (!s) {
      if (repl < 0)
        repl = i;
      continue;
    }
    u32 sm = (s >> 40) & 0xff;
    if (!(sm & mask))
      continue;
    u32 os = (s >> 32) & 127;
    bool sw = (s >> 48) & 1;
    if (os == slot) {
      if ((sm & ~mask) == 0 && (w || !sw) && (!at || ((s >> 49) & 1)))
        repl = i;
      continue;
    }
    if (!w && !sw)
      continue;
    if (at && ((s >> 49) & 1))
      continue;
    if ((u32)s <= t->vc.c[os]) {
      if (w && (sm & ~mask) == 0 && repl < 0)
        repl = i;
      continue;
    }
    report_race(a, w, at, pc, c, i);
  }
  if (repl < 0)
    repl = (int)(S.step & 3);
  c.s[repl] = me;
  c.pc[repl] = pc;
}

const char *bs_name(u8 b) {
  return b == 2 ? "released memory" : "memory outside any allocated block";
}

inline void check_range(uintptr_t a, size_t n, bool w, bool at, u32 pc) {
  size_t gbase;
  if (LIKELY(a - ARENA < ARENA_SZ)) {
    size_t off = a - ARENA;
    if (off < HEAP_SZ) {
      for (size_t i = 0; i < n; ++i) {
        u8 &b = bstate[off + i];
        if (UNLIKELY(b != 1)) {
          if (b == 3) {
            if (w)
              b = 1;
            else if (at) {
              S.res->pcs[0] = pc;
              vfail("uninitialised-read", "thread %u reads an atomic at %p that was never initialised (pc 0x%x)",
                    S.cur->tid, (void *)a, pc);
            }
          } else {
            S.res->pcs[0] = pc;
            vfail("bad-memory-access", "thread %u %s %zu byte(s) at %p: %s (pc 0x%x)", S.cur->tid,
                  w ? "writes" : "reads", n, (void *)a, bs_name(b), pc);
          }
        }
      }
      if (w)
        S.cur->spins = 0;
    }
    gbase = 0;
  } else if (a - GLO < GLO_SZ) {
    gbase = ARENA_G;
    uintptr_t x = a;
    size_t left = n;
    while (left) {
      size_t g = gbase + ((x - GLO) >> 3);
      u32 o = x & 7;
      u32 k = 8 - o;
      if (k > left)
        k = (u32)left;
      race_cell(g, ((1u << k) - 1) << o, w, at, pc, x);
      x += k;
      left -= k;
    }
    return;
  } else {
    return;
  }
  uintptr_t x = a;
  size_t left = n;
  while (left) {
    size_t g = (x - ARENA) >> 3;
    u32 o = x & 7;
    u32 k = 8 - o;
    if (k > left)
      k = (u32)left;
    race_cell(g, ((1u << k) - 1) << o, w, at, pc, x);
    x += k;
    left -= k;
  }
}

inline void plain_access(uintptr_t a, size_t n, bool w, u32 pc) {
  if (!S.on)
    return;
  if (S.cur->off || S.fast) {
    // harness code: only remember what it initialises
    if (w)
      S.cur->spins = 0;
    if (w && a - ARENA < HEAP_SZ)
      for (size_t i = 0; i < n; ++i)
        if (bstate[a - ARENA + i] == 3)
          bstate[a - ARENA + i] = 1;
    return;
  }
  ++S.step;
  if (UNLIKELY(S.step >= S.next_dec)) {
    check_cap();
    if (S.nlive > 1) {
      Thread *t = choose(0, nullptr);
      switch_to(t, pc);
    } else
      plan_next_plain();
  }
  if (UNLIKELY((S.step & 0xfffff) == 0))
    check_cap();
  check_range(a, n, w, false, pc);
}

// ------------------------------------------------------------------ heap
inline int size_class(size_t n, size_t &cls_size) {
  // granule rounded classes: multiples of 16 up to 256, then powers of 2 with
  // halves
  if (n <= 256) {
    int c = (int)((n + 15) / 16);
    if (c == 0)
      c = 1;
    cls_size = (size_t)c * 16;
    return c - 1;
  }
  size_t s = 384;
  int c = 16;
  while (s < n) {
    size_t nx = (s & (s - 1)) ? ((s / 3) * 4) : (s / 2 * 3);
    s = nx;
    ++c;
  }
  cls_size = s;
  return c;
}

u32 fl_count(const FreeList &f) { return f.tail - f.head; }
void fl_push(FreeList &f, u32 g) {
  if (f.buf == nullptr) {
    f.cap = 1 << 22;
    f.buf = (u32 *)mmap(nullptr, f.cap * sizeof(u32), PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  if (fl_count(f) >= f.cap)
    die(3, "runtime", "free list full");
  f.buf[f.tail++ & (f.cap - 1)] = g;
}

void *heap_alloc(size_t n) {
  size_t cs;
  int c = size_class(n, cs);
  if (c >= NCLASS || n > (64u << 20))
    return nullptr;
  FreeList &f = S.fl[c];
  u32 quarantine = S.cfg.heap_reuse ? 0 : (cs > 65536 ? 2 : 64);
  if (fl_count(f) <= quarantine) {
    // carve fresh blocks
    u32 cnt = cs > 4096 ? 1 : (S.cfg.heap_shuffle ? 16 : 4);
    size_t gs = cs / 8 + 2; // 16 byte gap
    if (S.heap_top == 0)
      S.heap_top = 16;
    if (S.heap_top + gs * cnt >= HEAP_SZ / 8)
      return nullptr;
    u32 tmp[16];
    for (u32 i = 0; i < cnt; ++i) {
      tmp[i] = (u32)S.heap_top;
      S.heap_top += gs;
    }
    if (S.cfg.heap_shuffle)
      for (u32 i = cnt; i > 1; --i) {
        u32 j = next_rng(S.rng_h) % i;
        u32 x = tmp[i - 1];
        tmp[i - 1] = tmp[j];
        tmp[j] = x;
      }
    // fresh blocks are used first
    for (u32 i = 0; i < cnt; ++i)
      fl_push(f, tmp[i]);
    if (!S.cfg.heap_reuse) {
      // move them to the front of the queue
      for (u32 i = 0; i < cnt; ++i) {
        u32 g = f.buf[--f.tail & (f.cap - 1)];
        f.buf[--f.head & (f.cap - 1)] = g;
      }
    }
  }
  u32 g;
  if (S.cfg.heap_reuse)
    g = f.buf[--f.tail & (f.cap - 1)];
  else
    g = f.buf[f.head++ & (f.cap - 1)];
  uintptr_t a = ARENA + (uintptr_t)g * 8;
  size_t off = a - ARENA;
  blksize[g] = (u32)n + 1;
  memset(bstate + off, S.on && !S.cur->off && !S.fast ? 3 : 1, n);
  memset(bstate + off + n, 0, cs - n);
  memset(cells + g, 0, (cs / 8) * sizeof(Cell));
  memset((void *)a, (int)S.cfg.poison, cs);
  ++S.live_blocks;
  S.live_bytes += n;
  ++S.res->allocs;
  return (void *)a;
}

void heap_free(void *p, u32 pc) {
  uintptr_t a = (uintptr_t)p;
  size_t off = a - ARENA;
  size_t g = off >> 3;
  if ((off & 7) || off >= HEAP_SZ || blksize[g] == 0 || bstate[off] == 2) {
    S.res->pcs[0] = pc;
    if (off < HEAP_SZ && bstate[off] == 2)
      vfail("double-free", "thread %u releases %p twice (pc 0x%x)", S.cur->tid, p, pc);
    vfail("bad-free", "thread %u releases %p which is not a block (pc 0x%x)", S.cur->tid, p, pc);
  }
  size_t n = blksize[g] - 1;
  size_t cs;
  int c = size_class(n, cs);
  if (S.on && !S.cur->off && !S.fast) {
    // releasing is a write to the whole block
    for (size_t i = 0; i < (n + 7) / 8; ++i)
      race_cell(g + i, 0xff, true, false, pc, a + 8 * i);
  }
  for (size_t i = 0; i < cs / 8; ++i)
    if (gflag[g + i])
      sync_purge(a + 8 * i);
  memset(bstate + off, 2, cs);
  if (n == 0)
    bstate[off] = 2;
  blksize[g] = (u32)n + 1;
  memset((void *)a, 0xDD, cs);
  --S.live_blocks;
  S.live_bytes -= n;
  fl_push(S.fl[c], (u32)g);
}

bool alloc_should_fail() {
  if (!S.alloc_armed || S.cur->off)
    return false;
  if (S.alloc_left > 1) {
    --S.alloc_left;
    return false;
  }
  if (S.alloc_left == 1 || S.alloc_persist) {
    if (S.alloc_left == 1)
      S.alloc_left = 0;
    else if (!S.alloc_persist)
      return false;
    ++S.alloc_fired;
    ++S.res->faults[FI_ALLOC_FAIL];
    hash_ev(0xA110C, S.alloc_fired);
    return true;
  }
  return false;
}

void *sim_new(size_t n, u32 pc) {
  if (!S.on) {
    void *p = malloc(n ? n : 1);
    return p;
  }
  if (alloc_should_fail())
    return nullptr;
  void *p = heap_alloc(n ? n : 1);
  if (!p && n < (1u << 20))
    die(3, "runtime", "simulated heap exhausted");
  (void)pc;
  return p;
}
void sim_delete(void *p, u32 pc) {
  if (!p)
    return;
  if ((uintptr_t)p - ARENA < ARENA_SZ) {
    if (!S.on)
      return;
    heap_free(p, pc);
    return;
  }
  free(p);
}

// ------------------------------------------------------------------ threads
char altstacks[SLOTS][16384] __attribute__((aligned(16)));

void setup_altstack(u32 slot) {
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = altstacks[slot];
  ss.ss_size = sizeof altstacks[slot];
  sigaltstack(&ss, nullptr);
}

void run_tls_dtors(Thread *t) {
  while (t->ndtors) {
    TlsDtor d = t->dtors[--t->ndtors];
    d.fn(d.obj);
  }
}

void thread_gone(Thread *t, int state) {
  t->state = state;
  --S.nlive;
  ++t->vc.c[t->slot];
  bump_version();
  wake_addr(t, 1000);
}

void *thread_main(void *arg) {
  Thread *t = (Thread *)arg;
  setup_altstack(t->slot);
  wait_baton(t);
  t->ret = t->fn(t->arg);
  run_tls_dtors(t);
  hash_ev(0xE41, t->tid);
  S.slot_last[t->slot] = t->vc;
  thread_gone(t, T_FINISHED);
  ++S.step;
  Thread *n = choose(2, nullptr);
  ++S.res->switches;
  S.shash = mix64(S.shash ^ (((u64)t->tid << 40) + ((u64)n->tid << 32) + 1));
  S.cur = n;
  give_baton(n);
  return t->ret;
}

Thread *new_thread() {
  u32 slot = SLOTS;
  for (u32 i = 0; i < SLOTS; ++i)
    if (!S.slot_owner[i]) {
      slot = i;
      break;
    }
  for (u32 i = 0; slot == SLOTS && i < SLOTS; ++i) // nobody will join those detached
    if (Thread *o = S.slot_owner[i]; o->detached && o->state == T_FINISHED) {
      r_join(o->real, nullptr);
      o->joined = 1;
      S.slot_owner[i] = nullptr;
      slot = i;
    }
  if (slot == SLOTS || S.nthreads >= MAXTHREADS)
    return nullptr;
  Thread *t = &threads_mem[S.nthreads];
  memset(t, 0, sizeof *t);
  t->tid = S.nthreads;
  t->slot = slot;
  S.all[S.nthreads++] = t;
  prune_live();
  S.live[S.nlist++] = t;
  S.slot_owner[slot] = t;
  t->state = T_RUNNABLE;
  t->prio = (int64_t)(next_rng(S.rng_s) >> 8) + 1000;
  ++S.nlive;
  return t;
}

int start_real(Thread *t) {
  pthread_attr_t at;
  pthread_attr_init(&at);
  void *stk = (void *)(ARENA + HEAP_SZ + (size_t)t->slot * STACK_SZ);
  pthread_attr_setstack(&at, stk, STACK_SZ);
  int r = r_create(&t->real, &at, thread_main, t);
  pthread_attr_destroy(&at);
  return r;
}

Thread *find_thread(pthread_t p) {
  for (u32 i = S.nthreads; i-- > 0;) {
    Thread *t = S.all[i];
    if (!t->joined && pthread_equal(t->real, p))
      return t;
  }
  return nullptr;
}

void on_signal(int sig, siginfo_t *si, void *uc) {
  u32 pc = (u32)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
  if (sig == SIGPROF) {
    // only a period of processor time without any simulated step is a hang
    static volatile u64 last = ~0ull;
    u64 now = S.step;
    if (last != now) {
      last = now;
      return;
    }
  }
  if (S.res && S.res->status == 0) {
    S.on = 0;
    S.res->pcs[0] = pc;
    if (sig == SIGPROF) {
      snprintf(S.res->kind, sizeof S.res->kind, "hang");
      snprintf(S.res->msg, sizeof S.res->msg, "processor time limit exceeded without progress");
    } else {
      snprintf(S.res->kind, sizeof S.res->kind, "crash");
      const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "signal";
      snprintf(S.res->msg, sizeof S.res->msg, "%s in thread %u", n, S.cur ? S.cur->tid : 0);
      (void)si;
    }
    finish_result(2);
  }
  _exit(3);
}

void on_terminate() {
  char b[512] = "std::terminate called";
  std::type_info *ti = abi::__cxa_current_exception_type();
  if (ti) {
    const char *w = "";
    try {
      throw;
    } catch (const std::exception &e) {
      w = e.what();
      snprintf(b, sizeof b, "std::terminate called in thread %u after exception %s: %s",
               S.cur ? S.cur->tid : 0, ti->name(), w);
    } catch (...) {
      snprintf(b, sizeof b, "std::terminate called in thread %u after exception %s",
               S.cur ? S.cur->tid : 0, ti->name());
    }
  }
  S.on = 0;
  die(2, "terminate", b);
}
} // namespace

// ====================================================================== API
extern "C" {
void sim_init(SimResult *r, SimDev *d) {
  S.res = r;
  S.devs = d;
  load_sym(r_create, "pthread_create");
  load_sym(r_join, "pthread_join");
  load_sym(r_detach, "pthread_detach");
  load_sym(r_mlock, "pthread_mutex_lock");
  load_sym(r_mtrylock, "pthread_mutex_trylock");
  load_sym(r_munlock, "pthread_mutex_unlock");
  load_sym(r_mdestroy, "pthread_mutex_destroy");
  load_sym(r_cwait, "pthread_cond_wait");
  load_sym(r_csignal, "pthread_cond_signal");
  load_sym(r_cbcast, "pthread_cond_broadcast");
  load_sym(r_once, "pthread_once");
  load_sym(r_rdlock, "pthread_rwlock_rdlock");
  load_sym(r_wrlock, "pthread_rwlock_wrlock");
  load_sym(r_rwunlock, "pthread_rwlock_unlock");
  load_sym(r_yield, "sched_yield");
  load_sym(r_nanosleep, "nanosleep");
  load_sym(r_clock_gettime, "clock_gettime");
  load_sym(r_time, "time");
  load_sym(r_gettimeofday, "gettimeofday");
  load_sym(r_rand, "rand");
  load_sym(r_syscall, "syscall");
  load_sym(r_read, "read");
  load_sym(r_write, "write");
  load_sym(r_writev, "writev");
  load_sym(r_fopen, "fopen");
  load_sym(r_fclose, "fclose");
  load_sym(r_open, "open");
  load_sym(r_close, "close");
  auto map = [](void *at, size_t n) {
    void *p = mmap(at, n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED || (at && p != at)) {
      perror("mmap");
      _exit(9);
    }
    return p;
  };
  map((void *)ARENA, ARENA_SZ);
  GLO = (uintptr_t)&__data_start & ~7ull;
  GLO_SZ = (uintptr_t)&_end - GLO;
  cells = (Cell *)map(nullptr, (ARENA_G + GLO_SZ / 8 + 8) * sizeof(Cell));
  bstate = (u8 *)map(nullptr, HEAP_SZ + 64);
  gflag = (u8 *)map(nullptr, ARENA_G + 64);
  blksize = (u32 *)map(nullptr, (HEAP_SZ / 8 + 64) * sizeof(u32));
  syncs = (SyncObj *)map(nullptr, sizeof(SyncObj) * SYNC_N);
  threads_mem = (Thread *)map(nullptr, sizeof(Thread) * MAXTHREADS);
}

static void (*g_root)(void *);
static void *g_root_arg;
static void *root_main(void *) {
  g_root(g_root_arg);
  return nullptr;
}
static void *root_wrapper(void *arg) {
  Thread *t = (Thread *)arg;
  setup_altstack(t->slot);
  wait_baton(t);
  root_main(nullptr);
  run_tls_dtors(t);
  for (u32 i = 1; i < S.nthreads; ++i)
    if (S.all[i]->state == T_RUNNABLE || S.all[i]->state == T_BLOCKED) {
      char b[1500];
      describe_threads(b, sizeof b);
      vfail("leaked-thread", "threads are still alive after everything was destroyed:%s", b);
    }
  S.on = 0;
  finish_result(1);
  _exit(0);
}

void sim_start(const SimCfg *cfg, const SimDev *replay, uint32_t nreplay, int is_replay,
               void (*root)(void *), void *arg) {
  S.cfg = *cfg;
  S.replay = replay;
  S.nreplay = nreplay;
  S.is_replay = is_replay;
  S.rng_s = mix64(cfg->sched_seed ^ 0x51);
  S.rng_e = mix64(cfg->env_seed ^ 0x52);
  S.rng_h = mix64(cfg->heap_seed ^ 0x53);
  S.hash = 0x1;
  S.shash = 0x2;
  S.version = 1;
  S.pct_low = 500;
  S.starve_left = cfg->strat == ST_STARVE ? cfg->starve_len : 0;
  if (cfg->strat == ST_PCT) {
    S.pct_n = cfg->pct_depth > 16 ? 16 : cfg->pct_depth;
    for (u32 i = 0; i < S.pct_n; ++i)
      S.pct_points[i] = 1 + next_rng(S.rng_s) % (cfg->pct_len ? cfg->pct_len : 1);
    for (u32 i = 0; i < S.pct_n; ++i)
      for (u32 j = i + 1; j < S.pct_n; ++j)
        if (S.pct_points[j] < S.pct_points[i]) {
          u64 x = S.pct_points[i];
          S.pct_points[i] = S.pct_points[j];
          S.pct_points[j] = x;
        }
  }
  plan_next_plain();
  if (cfg->heap_shuffle)
    ++S.res->faults[FI_HEAP_SHUFFLE];
  __libc_single_threaded = 0;
  setup_altstack(SLOTS - 1);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF, SIGTRAP})
    sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = it.it_interval.tv_sec = 8;
  setitimer(ITIMER_PROF, &it, nullptr);

  Thread *t = new_thread();
  t->vc.c[t->slot] = 1;
  g_root = root;
  g_root_arg = arg;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void *)(ARENA + HEAP_SZ + (size_t)t->slot * STACK_SZ), STACK_SZ);
  if (r_create(&t->real, &at, root_wrapper, t) != 0)
    die(3, "runtime", "cannot create root thread");
  __libc_single_threaded = 0;
  S.cur = t;
  S.on = 1;
  give_baton(t);
  r_join(t->real, nullptr);
  _exit(7);
}

void sim_fail(const char *kind, const char *fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  S.on = 0;
  die(2, kind, buf);
}
void sim_off_enter() {
  if (S.on)
    ++S.cur->off;
}
void sim_off_leave() {
  if (S.on)
    --S.cur->off;
}
void sim_fast(int on) { S.fast = on; }
int sim_is_on() { return S.on; }
void sim_eval(uint64_t n) { S.res->evals += n; }
void sim_probe(int id) {
  if (id >= 0 && id < PROBES)
    ++S.res->probes[id];
}
void sim_nontrivial() { S.res->nontrivial = 1; }
void sim_hash(uint64_t v) {
  hash_ev(0x77, v);
  S.res->content_hash = mix64(S.res->content_hash ^ (v + 0x9e37));
}
void sim_count_fault(int fi) { ++S.res->faults[fi]; }
uint32_t sim_tid() { return S.cur ? S.cur->tid : 0; }
void sim_point() {
  if (S.on && !S.cur->off)
    sync_point(1, 0x01, nullptr, RET_PC);
}
void sim_arm_alloc(uint64_t nth, int persistent) {
  S.alloc_armed = 1;
  S.alloc_left = nth;
  S.alloc_persist = persistent;
  S.alloc_fired = 0;
}
int sim_disarm_alloc() {
  S.alloc_armed = 0;
  return S.alloc_fired;
}
void sim_arm_thread(uint64_t nth, int persistent) {
  S.thr_armed = 1;
  S.thr_left = nth;
  S.thr_persist = persistent;
  S.thr_fired = 0;
}
int sim_disarm_thread() {
  S.thr_armed = 0;
  return S.thr_fired;
}
void sim_io_root(const char *dir) {
  snprintf(S.io_root, sizeof S.io_root, "%s", dir);
  S.io_root_len = strlen(S.io_root);
}
void sim_io_fault(int op, uint64_t nth, int act, int64_t arg, int persistent) {
  for (auto &f : S.iof)
    if (!f.used) {
      f.used = 1;
      f.op = op;
      f.nth = nth;
      f.act = act;
      f.arg = arg;
      f.persistent = persistent;
      return;
    }
}
void sim_io_chunk(uint32_t m) { S.io_chunk = m; }
int sim_io_clear() {
  memset(S.iof, 0, sizeof S.iof);
  memset(S.io_count, 0, sizeof S.io_count);
  S.io_chunk = 0;
  int r = S.io_fired;
  S.io_fired = 0;
  return r;
}
int sim_crashed(uint32_t tid) { return tid < S.nthreads && S.all[tid]->state == T_CRASHED; }
void sim_rand_force(int mode, int64_t v) {
  S.rand_mode = mode;
  S.rand_left = 64; // a source that never changes would not be random
  S.rand_v = v;
}
uint64_t sim_live_threads() { return S.nlive; }
uint64_t sim_live_blocks() { return S.live_blocks; }
uint64_t sim_live_bytes() { return S.live_bytes; }
uint64_t sim_allocs() { return S.res->allocs; }
}

// ====================================================================== memory
void *operator new(size_t n) {
  void *p = sim_new(n, RET_PC);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) {
  void *p = sim_new(n, RET_PC);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_new(n, RET_PC); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_new(n, RET_PC); }
void operator delete(void *p) noexcept { sim_delete(p, RET_PC); }
void operator delete[](void *p) noexcept { sim_delete(p, RET_PC); }
void operator delete(void *p, size_t) noexcept { sim_delete(p, RET_PC); }
void operator delete[](void *p, size_t) noexcept { sim_delete(p, RET_PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_delete(p, RET_PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_delete(p, RET_PC); }

// ====================================================================== tsan
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define ACC(n)                                                                                     \
  void __tsan_read##n(void *a) { plain_access((uintptr_t)a, n, false, RET_PC); }                   \
  void __tsan_write##n(void *a) { plain_access((uintptr_t)a, n, true, RET_PC); }                   \
  void __tsan_unaligned_read##n(void *a) { plain_access((uintptr_t)a, n, false, RET_PC); }         \
  void __tsan_unaligned_write##n(void *a) { plain_access((uintptr_t)a, n, true, RET_PC); }         \
  void __tsan_volatile_read##n(void *a) { plain_access((uintptr_t)a, n, false, RET_PC); }          \
  void __tsan_volatile_write##n(void *a) { plain_access((uintptr_t)a, n, true, RET_PC); }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
void __tsan_vptr_update(void **a, void *) { plain_access((uintptr_t)a, 8, true, RET_PC); }
void __tsan_vptr_read(void **a) { plain_access((uintptr_t)a, 8, false, RET_PC); }
void __tsan_read_range(void *a, size_t n) { plain_access((uintptr_t)a, n, false, RET_PC); }
void __tsan_write_range(void *a, size_t n) { plain_access((uintptr_t)a, n, true, RET_PC); }

void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (S.on && n) {
    plain_access((uintptr_t)s, n, false, RET_PC);
    plain_access((uintptr_t)d, n, true, RET_PC);
  }
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (S.on && n) {
    plain_access((uintptr_t)s, n, false, RET_PC);
    plain_access((uintptr_t)d, n, true, RET_PC);
  }
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  if (S.on && n)
    plain_access((uintptr_t)d, n, true, RET_PC);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void *a, const void *b, size_t n) {
  if (S.on && n) {
    plain_access((uintptr_t)a, n, false, RET_PC);
    plain_access((uintptr_t)b, n, false, RET_PC);
  }
  return __real_memcmp(a, b, n);
}
}

namespace {
enum { MO_RELAXED = 0, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQREL, MO_SEQ };
inline bool is_acq(int m) { return m == MO_CONSUME || m == MO_ACQUIRE || m == MO_ACQREL || m == MO_SEQ; }
inline bool is_rel(int m) { return m == MO_RELEASE || m == MO_ACQREL || m == MO_SEQ; }

inline bool at_active() { return S.on && !S.cur->off; }

void at_acquire(SyncObj *o, int mo) {
  Thread *t = S.cur;
  if (is_acq(mo))
    vc_join(t->vc, o->vc);
  else
    vc_join(t->fence_acq, o->vc);
}
void at_release_store(SyncObj *o, int mo) {
  Thread *t = S.cur;
  if (is_rel(mo)) {
    o->vc = t->vc;
    tick(t);
  } else if (t->has_fence_rel)
    o->vc = t->fence_rel;
  else
    memset(&o->vc, 0, sizeof o->vc);
}
void at_release_rmw(SyncObj *o, int mo) {
  Thread *t = S.cur;
  if (is_rel(mo)) {
    vc_join(o->vc, t->vc);
    tick(t);
  } else if (t->has_fence_rel)
    vc_join(o->vc, t->fence_rel);
}
template <typename T> T a_load(volatile T *p, int mo, u32 pc) {
  if (!at_active())
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);
  sync_point(1, 0x10, (void *)p, pc);
  spin_note(pc);
  check_range((uintptr_t)p, sizeof(T), false, true, pc);
  SyncObj *o = sync_get((uintptr_t)p, 1);
  T v = *p;
  at_acquire(o, mo);
  return v;
}
template <typename T> void a_store(volatile T *p, T v, int mo, u32 pc) {
  if (!at_active()) {
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
    return;
  }
  sync_point(1, 0x11, (void *)p, pc);
  check_range((uintptr_t)p, sizeof(T), true, true, pc);
  SyncObj *o = sync_get((uintptr_t)p, 1);
  if (*p != v)
    bump_version();
  *p = v;
  at_release_store(o, mo);
  sync_point(1, 0x12, (void *)p, pc);
}
template <typename T, typename F> T a_rmw(volatile T *p, int mo, u32 pc, F f) {
  if (!at_active()) {
    T old = __atomic_load_n(p, __ATOMIC_SEQ_CST);
    while (!__atomic_compare_exchange_n(p, &old, f(old), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
    }
    return old;
  }
  sync_point(1, 0x13, (void *)p, pc);
  check_range((uintptr_t)p, sizeof(T), false, true, pc);
  check_range((uintptr_t)p, sizeof(T), true, true, pc);
  SyncObj *o = sync_get((uintptr_t)p, 1);
  at_acquire(o, mo);
  T old = *p;
  T nv = f(old);
  *p = nv;
  at_release_rmw(o, mo);
  if (nv != old)
    bump_version();
  else
    spin_note(pc);
  return old;
}
template <typename T> bool a_cas(volatile T *p, T *exp, T des, int mo, int fmo, u32 pc) {
  if (!at_active())
    return __atomic_compare_exchange_n(p, exp, des, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  sync_point(1, 0x14, (void *)p, pc);
  check_range((uintptr_t)p, sizeof(T), false, true, pc);
  SyncObj *o = sync_get((uintptr_t)p, 1);
  T old = *p;
  if (old == *exp) {
    check_range((uintptr_t)p, sizeof(T), true, true, pc);
    at_acquire(o, mo);
    *p = des;
    at_release_rmw(o, mo);
    if (old != des)
      bump_version();
    return true;
  }
  at_acquire(o, fmo);
  *exp = old;
  spin_note(pc);
  return false;
}
} // namespace

extern "C" {
#define ATOMICS(N, T)                                                                              \
  T __tsan_atomic##N##_load(const volatile T *a, int mo) { return a_load<T>((volatile T *)a, mo, RET_PC); } \
  void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { a_store<T>(a, v, mo, RET_PC); }      \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) {                                      \
    return a_rmw<T>(a, mo, RET_PC, [v](T) { return v; });                                          \
  }                                                                                                \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) {                                     \
    return a_rmw<T>(a, mo, RET_PC, [v](T o) { return (T)(o + v); });                               \
  }                                                                                                \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) {                                     \
    return a_rmw<T>(a, mo, RET_PC, [v](T o) { return (T)(o - v); });                               \
  }                                                                                                \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) {                                     \
    return a_rmw<T>(a, mo, RET_PC, [v](T o) { return (T)(o & v); });                               \
  }                                                                                                \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) {                                      \
    return a_rmw<T>(a, mo, RET_PC, [v](T o) { return (T)(o | v); });                               \
  }                                                                                                \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) {                                     \
    return a_rmw<T>(a, mo, RET_PC, [v](T o) { return (T)(o ^ v); });                               \
  }                                                                                                \
  T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) {                                    \
    return a_rmw<T>(a, mo, RET_PC, [v](T o) { return (T) ~(o & v); });                             \
  }                                                                                                \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *e, T d, int mo, int fmo) {      \
    return a_cas<T>(a, e, d, mo, fmo, RET_PC);                                                     \
  }                                                                                                \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *e, T d, int mo, int fmo) {        \
    return a_cas<T>(a, e, d, mo, fmo, RET_PC);                                                     \
  }                                                                                                \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T e, T d, int mo, int fmo) {            \
    a_cas<T>(a, &e, d, mo, fmo, RET_PC);                                                           \
    return e;                                                                                      \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!at_active())
    return;
  sync_point(1, 0x15, nullptr, RET_PC);
  Thread *t = S.cur;
  if (is_acq(mo))
    vc_join(t->vc, t->fence_acq);
  if (is_rel(mo)) {
    t->fence_rel = t->vc;
    t->has_fence_rel = 1;
    tick(t);
  }
}
void __tsan_atomic_signal_fence(int) {}

// ====================================================================== pthread
int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!S.on) {
    if (!r_create)
      load_sym(r_create, "pthread_create");
    return r_create(out, at, fn, arg);
  }
  u32 pc = RET_PC;
  if (S.thr_armed && !S.cur->off) {
    bool f = false;
    if (S.thr_left > 1)
      --S.thr_left;
    else if (S.thr_left == 1) {
      S.thr_left = 0;
      f = true;
    } else if (S.thr_persist)
      f = true;
    if (f) {
      ++S.thr_fired;
      ++S.res->faults[FI_THREAD_FAIL];
      hash_ev(0x7F, S.thr_fired);
      return EAGAIN;
    }
  }
  Thread *t = new_thread();
  if (!t)
    return EAGAIN;
  t->fn = fn;
  t->arg = arg;
  Thread *me = S.cur;
  t->vc = me->vc;
  vc_join(t->vc, S.slot_last[t->slot]);
  t->vc.c[t->slot] = S.slot_last[t->slot].c[t->slot] + 1;
  tick(me);
  int r = start_real(t);
  if (r != 0)
    die(3, "runtime", "real thread creation failed");
  *out = t->real;
  bump_version();
  sync_point(3, 0x20, (void *)(uintptr_t)t->tid, pc, t);
  return 0;
}
int pthread_join(pthread_t p, void **ret) {
  if (!S.on) {
    if (!r_join)
      load_sym(r_join, "pthread_join");
    return r_join(p, ret);
  }
  Thread *t = find_thread(p);
  if (!t)
    return ESRCH;
  if (t == S.cur)
    return EDEADLK;
  sync_point(1, 0x21, (void *)(uintptr_t)t->tid, RET_PC);
  while (t->state != T_FINISHED && t->state != T_CRASHED)
    block_on(t, 0, RET_PC);
  t->joined = 1;
  if (t->state == T_CRASHED) {
    vc_join(S.cur->vc, t->vc); // what a dead process did is in the past
    return 0;
  }
  r_join(p, nullptr);
  vc_join(S.cur->vc, t->vc);
  S.slot_owner[t->slot] = nullptr;
  if (ret)
    *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  if (!S.on) {
    if (!r_detach)
      load_sym(r_detach, "pthread_detach");
    return r_detach(p);
  }
  Thread *t = find_thread(p);
  if (!t)
    return ESRCH;
  t->detached = 1;
  sync_point(1, 0x22, (void *)(uintptr_t)t->tid, RET_PC);
  return 0;
}

static int mtx_lock(void *m, u32 pc, u64 deadline = 0) {
  sync_point(1, 0x23, m, pc);
  SyncObj *o = sync_get((uintptr_t)m, 2);
  o->kind = 2;
  while (o->owner) {
    int type = ((pthread_mutex_t *)m)->__data.__kind & 3;
    if (o->owner == (int)S.cur->tid + 1 && type == PTHREAD_MUTEX_RECURSIVE_NP) {
      ++o->rec;
      return 0;
    }
    block_on(m, deadline, pc);
    if (deadline && S.cur->timed_out && o->owner)
      return ETIMEDOUT;
  }
  o->owner = S.cur->tid + 1;
  o->rec = 1;
  vc_join(S.cur->vc, o->vc);
  return 0;
}
static int mtx_unlock(void *m, u32 pc, bool point) {
  SyncObj *o = sync_get((uintptr_t)m, 2);
  if (o->owner != (int)S.cur->tid + 1)
    vfail("bad-unlock", "thread %u unlocks a mutex it does not hold", S.cur->tid);
  if (--o->rec > 0)
    return 0;
  o->owner = 0;
  vc_join(o->vc, S.cur->vc);
  tick(S.cur);
  wake_addr(m, 1000);
  if (point)
    sync_point(1, 0x24, m, pc);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!S.on) {
    if (!r_mlock)
      load_sym(r_mlock, "pthread_mutex_lock");
    return r_mlock(m);
  }
  return mtx_lock(m, RET_PC);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!S.on) {
    if (!r_mtrylock)
      load_sym(r_mtrylock, "pthread_mutex_trylock");
    return r_mtrylock(m);
  }
  sync_point(1, 0x25, m, RET_PC);
  SyncObj *o = sync_get((uintptr_t)m, 2);
  o->kind = 2;
  if (o->owner) {
    spin_note(RET_PC);
    return EBUSY;
  }
  o->owner = S.cur->tid + 1;
  o->rec = 1;
  vc_join(S.cur->vc, o->vc);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!S.on) {
    if (!r_munlock)
      load_sym(r_munlock, "pthread_mutex_unlock");
    return r_munlock(m);
  }
  return mtx_unlock(m, RET_PC, true);
}
static u64 abs_to_deadline(const timespec *ts, clockid_t) {
  // deadlines are expressed on the simulated clock
  int64_t base = S.cfg.time0 * 1000000000ll + S.clock_off;
  int64_t d = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec - base;
  if (d < 1)
    d = 1;
  return (u64)d;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *ts) {
  if (!S.on)
    return r_mlock(m);
  return mtx_lock(m, RET_PC, abs_to_deadline(ts, CLOCK_REALTIME));
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *ts) {
  if (!S.on)
    return r_mlock(m);
  return mtx_lock(m, RET_PC, abs_to_deadline(ts, c));
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  if (!S.on)
    return 0;
  SyncObj *o = sync_find((uintptr_t)m);
  if (o && o->owner)
    vfail("locked-mutex-freed", "a locked mutex was destroyed");
  return 0;
}

static int cond_wait(void *c, void *m, u64 deadline, u32 pc) {
  sync_point(1, 0x26, c, pc); // others may notify before this thread waits
  mtx_unlock(m, pc, false);
  // seeded spurious wake-up, which the standard allows
  if ((next_rng(S.rng_e) & 255) == 0) {
    ++S.res->faults[FI_SPURIOUS_WAKE];
    sync_point(1, 0x26, c, pc);
    mtx_lock(m, pc);
    return 0;
  }
  S.cur->cond_seq = ++S.cond_seq;
  block_on(c, deadline, pc);
  int to = S.cur->timed_out && deadline;
  mtx_lock(m, pc);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!S.on)
    return r_cwait(c, m);
  return cond_wait(c, m, 0, RET_PC);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts) {
  return cond_wait(c, m, abs_to_deadline(ts, CLOCK_REALTIME), RET_PC);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *ts) {
  return cond_wait(c, m, abs_to_deadline(ts, k), RET_PC);
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (!S.on)
    return r_csignal ? r_csignal(c) : 0;
  sync_point(1, 0x27, c, RET_PC);
  Thread *w[SLOTS];
  u32 n = 0;
  for (u32 i = 0; i < S.nlist; ++i)
    if (S.live[i]->state == T_BLOCKED && S.live[i]->wait_addr == c && n < SLOTS)
      w[n++] = S.live[i];
  if (n)
    wake_thread(w[next_rng(S.rng_e) % n]);
  bump_version();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!S.on)
    return r_cbcast ? r_cbcast(c) : 0;
  sync_point(1, 0x28, c, RET_PC);
  wake_addr(c, 1000);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *) { return 0; }

static int rw_lock(void *m, bool w, bool try_, u32 pc) {
  sync_point(1, 0x29, m, pc);
  SyncObj *o = sync_get((uintptr_t)m, 3);
  o->kind = 3;
  while (o->owner || (w && o->readers)) {
    if (try_) {
      spin_note(pc);
      return EBUSY;
    }
    block_on(m, 0, pc);
  }
  if (w)
    o->owner = S.cur->tid + 1;
  else
    ++o->readers;
  vc_join(S.cur->vc, o->vc);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  if (!S.on) {
    if (!r_rdlock)
      load_sym(r_rdlock, "pthread_rwlock_rdlock");
    return r_rdlock(l);
  }
  return rw_lock(l, false, false, RET_PC);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  if (!S.on) {
    if (!r_wrlock)
      load_sym(r_wrlock, "pthread_rwlock_wrlock");
    return r_wrlock(l);
  }
  return rw_lock(l, true, false, RET_PC);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return S.on ? rw_lock(l, false, true, RET_PC) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return S.on ? rw_lock(l, true, true, RET_PC) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!S.on) {
    if (!r_rwunlock)
      load_sym(r_rwunlock, "pthread_rwlock_unlock");
    return r_rwunlock(l);
  }
  SyncObj *o = sync_get((uintptr_t)l, 3);
  if (o->owner == (int)S.cur->tid + 1)
    o->owner = 0;
  else if (o->readers > 0)
    --o->readers;
  else
    vfail("bad-unlock", "thread %u unlocks a rwlock it does not hold", S.cur->tid);
  vc_join(o->vc, S.cur->vc);
  tick(S.cur);
  wake_addr(l, 1000);
  sync_point(1, 0x2a, l, RET_PC);
  return 0;
}

int pthread_once(pthread_once_t *c, void (*f)()) {
  if (!S.on) {
    if (!r_once)
      load_sym(r_once, "pthread_once");
    return r_once(c, f);
  }
  sync_point(1, 0x2b, c, RET_PC);
  SyncObj *o = sync_get((uintptr_t)c, 4);
  for (;;) {
    if (*(volatile int *)c == 2) {
      vc_join(S.cur->vc, o->vc);
      return 0;
    }
    if (o->owner == 0) {
      o->owner = S.cur->tid + 1;
      try {
        f();
      } catch (...) {
        o->owner = 0;
        wake_addr(c, 1000);
        throw;
      }
      *(volatile int *)c = 2;
      o->vc = S.cur->vc;
      tick(S.cur);
      o->owner = 0;
      wake_addr(c, 1000);
      return 0;
    }
    block_on(c, 0, RET_PC);
  }
}

int __cxa_guard_acquire(uint64_t *g) {
  volatile u8 *b = (volatile u8 *)g;
  if (!S.on)
    return *b == 0;
  sync_point(1, 0x2c, g, RET_PC);
  SyncObj *o = sync_get((uintptr_t)g, 4);
  for (;;) {
    if (*b) {
      vc_join(S.cur->vc, o->vc);
      return 0;
    }
    if (o->owner == 0) {
      o->owner = S.cur->tid + 1;
      return 1;
    }
    block_on(g, 0, RET_PC);
  }
}
void __cxa_guard_release(uint64_t *g) {
  *(volatile u8 *)g = 1;
  if (!S.on)
    return;
  SyncObj *o = sync_get((uintptr_t)g, 4);
  o->owner = 0;
  o->vc = S.cur->vc;
  tick(S.cur);
  wake_addr(g, 1000);
}
void __cxa_guard_abort(uint64_t *g) {
  if (!S.on)
    return;
  SyncObj *o = sync_get((uintptr_t)g, 4);
  o->owner = 0;
  wake_addr(g, 1000);
}
int __cxa_thread_atexit_impl(void (*fn)(void *), void *obj, void *dso);
int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *dso) {
  if (!S.on)
    return __cxa_thread_atexit_impl(fn, obj, dso);
  Thread *t = S.cur;
  if (t->ndtors < 64) {
    t->dtors[t->ndtors].fn = fn;
    t->dtors[t->ndtors].obj = obj;
    ++t->ndtors;
  }
  return 0;
}

// ====================================================================== time
int sched_yield() {
  if (!S.on)
    return r_yield ? r_yield() : 0;
  sync_point(1, 0x2d, nullptr, RET_PC);
  spin_note(RET_PC);
  return 0;
}
static void sim_sleep(u64 ns, u32 pc) {
  if (ns == 0)
    ns = 1;
  block_on(&S.now_ns, vnow() + ns, pc);
}
int nanosleep(const timespec *ts, timespec *rem) {
  if (!S.on) {
    if (!r_nanosleep)
      load_sym(r_nanosleep, "nanosleep");
    return r_nanosleep(ts, rem);
  }
  sim_sleep((u64)ts->tv_sec * 1000000000ull + ts->tv_nsec, RET_PC);
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec *ts, timespec *) {
  if (!S.on)
    return 0;
  u64 ns = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
  if (flags & TIMER_ABSTIME) {
    u64 d = abs_to_deadline(ts, c);
    u64 v = vnow();
    ns = d > v ? d - v : 1;
  }
  sim_sleep(ns, RET_PC);
  return 0;
}
int usleep(useconds_t us) {
  if (!S.on)
    return 0;
  sim_sleep((u64)us * 1000, RET_PC);
  return 0;
}
static int64_t sim_clock() {
  if (S.cfg.clock_jump && (next_rng(S.rng_e) & 1023) < S.cfg.clock_jump) {
    int64_t j = (int64_t)(next_rng(S.rng_e) % 7200) - 3600;
    S.clock_off += j * 1000000000ll;
    ++S.res->faults[FI_CLOCK_JUMP];
  }
  return S.cfg.time0 * 1000000000ll + (int64_t)vnow() + S.clock_off;
}
int clock_gettime(clockid_t c, timespec *ts) {
  if (!S.on) {
    if (!r_clock_gettime)
      load_sym(r_clock_gettime, "clock_gettime");
    return r_clock_gettime(c, ts);
  }
  int64_t v;
  S.now_ns += 1000;
  if (c == CLOCK_REALTIME)
    v = sim_clock();
  else
    v = S.cfg.time0 * 1000000000ll + S.clock_off + (int64_t)vnow();
  ts->tv_sec = v / 1000000000ll;
  ts->tv_nsec = v % 1000000000ll;
  return 0;
}
time_t time(time_t *t) {
  if (!S.on) {
    if (!r_time)
      load_sym(r_time, "time");
    return r_time(t);
  }
  time_t v = (time_t)(sim_clock() / 1000000000ll);
  if (t)
    *t = v;
  return v;
}
int gettimeofday(timeval *tv, void *z) {
  if (!S.on) {
    if (!r_gettimeofday)
      load_sym(r_gettimeofday, "gettimeofday");
    return r_gettimeofday(tv, z);
  }
  int64_t v = sim_clock();
  tv->tv_sec = v / 1000000000ll;
  tv->tv_usec = (v % 1000000000ll) / 1000;
  return 0;
}
int get_nprocs() { return 4; }

// ====================================================================== random
int rand() {
  if (!S.on) {
    if (!r_rand)
      load_sym(r_rand, "rand");
    return r_rand();
  }
  switch (S.rand_mode && S.rand_left-- > 0 ? S.rand_mode : 0) {
  case 1:
    ++S.res->faults[FI_RAND_FORCED];
    return (int)S.rand_v;
  case 2:
    ++S.res->faults[FI_RAND_FORCED];
    return RAND_MAX;
  case 3:
    ++S.res->faults[FI_RAND_FORCED];
    return 0;
  default:
    return (int)(next_rng(S.rng_e) & 0x7fffffff);
  }
}
void srand(unsigned) {}
long random() { return rand(); }
uint32_t arc4random() { return S.on ? (uint32_t)next_rng(S.rng_e) : 4; }
int getentropy(void *b, size_t n) {
  for (size_t i = 0; i < n; ++i)
    ((u8 *)b)[i] = S.on ? (u8)next_rng(S.rng_e) : (u8)i;
  return 0;
}
unsigned sim_rd_getval(void *) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned sim_rd_getval(void *) { return S.on ? (unsigned)next_rng(S.rng_e) : 4u; }
void sim_rd_init(void *, const void *) __asm__(
    "_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
void sim_rd_init(void *, const void *) {}
void sim_rd_fini(void *) __asm__("_ZNSt13random_device7_M_finiEv");
void sim_rd_fini(void *) {}

// ====================================================================== futex
long syscall(long nr, ...) {
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (int i = 0; i < 6; ++i)
    a[i] = va_arg(ap, long);
  va_end(ap);
  if (!r_syscall)
    load_sym(r_syscall, "syscall");
  if (S.on && nr == SYS_futex) {
    int op = (int)a[1] & FUTEX_CMD_MASK;
    u32 *addr = (u32 *)a[0];
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sync_point(1, 0x2e, addr, RET_PC);
      if (*(volatile u32 *)addr != (u32)a[2]) {
        errno = EAGAIN;
        return -1;
      }
      u64 dl = 0;
      if (a[3]) {
        const timespec *ts = (const timespec *)a[3];
        if (op == FUTEX_WAIT)
          dl = vnow() + (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
        else
          dl = abs_to_deadline(ts, CLOCK_MONOTONIC);
        if (!dl)
          dl = 1;
      }
      block_on(addr, dl, RET_PC);
      if (S.cur->timed_out) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      u32 k = wake_addr(addr, (u32)a[2]);
      sync_point(1, 0x2f, addr, RET_PC);
      return k;
    }
  }
  return r_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}

// ====================================================================== files
static bool io_path(const char *p) {
  return S.on && S.io_root_len && !strncmp(p, S.io_root, S.io_root_len);
}
// returns action for this call, or IA_NONE
static int io_action(int op, int64_t *arg) {
  if (S.cur->off)
    return IA_NONE;
  u64 n = ++S.io_count[op];
  for (auto &f : S.iof) {
    if (!f.used || f.op != op)
      continue;
    if (f.nth == n || (f.persistent && n > f.nth)) {
      ++S.io_fired;
      *arg = f.arg;
      hash_ev(0x10F, ((u64)op << 8) + f.act);
      return f.act;
    }
  }
  return IA_NONE;
}
static void io_crash() {
  ++S.res->faults[FI_CRASH];
  Thread *t = S.cur;
  thread_gone(t, T_CRASHED);
  ++S.step;
  Thread *n = choose(2, nullptr);
  S.cur = n;
  give_baton(n);
  for (;;)
    pause(); // this thread never runs again
}
// data accepted before that the system could not store after all
static bool close_fault(int fd) {
  int64_t arg = 0;
  if (io_action(IO_CLOSE, &arg) != IA_ERRNO)
    return false;
  ++S.res->faults[FI_IO_CLOSE_ERR];
  struct stat st;
  if (!fstat(fd, &st) && st.st_size > 0 && ftruncate(fd, st.st_size / 2)) {
  }
  return true;
}
FILE *fopen(const char *path, const char *mode) {
  if (!r_fopen)
    load_sym(r_fopen, "fopen");
  if (!io_path(path))
    return r_fopen(path, mode);
  sync_point(1, 0x40, nullptr, RET_PC);
  int64_t arg = 0;
  int act = io_action(IO_OPEN, &arg);
  if (act == IA_ERRNO) {
    ++S.res->faults[FI_IO_OPEN_FAIL];
    errno = (int)arg;
    return nullptr;
  }
  if (act == IA_CRASH)
    io_crash();
  FILE *f = r_fopen(path, mode);
  if (f && fileno(f) < 1024)
    S.fd_tracked[fileno(f)] = 1;
  return f;
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
int fclose(FILE *f) {
  if (!r_fclose)
    load_sym(r_fclose, "fclose");
  if (S.on && fileno(f) >= 0 && fileno(f) < 1024) {
    if (S.fd_tracked[fileno(f)])
      fflush(f);
    bool lost = S.fd_tracked[fileno(f)] && close_fault(fileno(f));
    S.fd_tracked[fileno(f)] = 0;
    if (lost) {
      r_fclose(f);
      errno = EIO;
      return EOF;
    }
  }
  return r_fclose(f);
}
int open(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = va_arg(ap, int);
  va_end(ap);
  if (!r_open)
    load_sym(r_open, "open");
  if (!io_path(path))
    return r_open(path, flags, mode);
  sync_point(1, 0x41, nullptr, RET_PC);
  int64_t arg = 0;
  int act = io_action(IO_OPEN, &arg);
  if (act == IA_ERRNO) {
    ++S.res->faults[FI_IO_OPEN_FAIL];
    errno = (int)arg;
    return -1;
  }
  if (act == IA_CRASH)
    io_crash();
  int fd = r_open(path, flags, mode);
  if (fd >= 0 && fd < 1024)
    S.fd_tracked[fd] = 1;
  return fd;
}
int close(int fd) {
  if (!r_close)
    load_sym(r_close, "close");
  if (S.on && fd >= 0 && fd < 1024) {
    bool lost = S.fd_tracked[fd] && close_fault(fd);
    S.fd_tracked[fd] = 0;
    if (lost) {
      r_close(fd);
      errno = EIO;
      return -1;
    }
  }
  return r_close(fd);
}
static bool tracked(int fd) { return S.on && fd >= 0 && fd < 1024 && S.fd_tracked[fd]; }

ssize_t read(int fd, void *b, size_t n) {
  if (!r_read)
    load_sym(r_read, "read");
  if (!tracked(fd))
    return r_read(fd, b, n);
  sync_point(1, 0x42, nullptr, RET_PC);
  int64_t arg = 0;
  int act = io_action(IO_READ, &arg);
  switch (act) {
  case IA_ERRNO:
    ++S.res->faults[FI_IO_READ_ERR];
    errno = (int)arg;
    return -1;
  case IA_EINTR:
    ++S.res->faults[FI_IO_EINTR];
    errno = EINTR;
    return -1;
  case IA_SHORT:
    if ((size_t)arg < n && arg > 0) {
      n = (size_t)arg;
      ++S.res->faults[FI_IO_SHORT_READ];
    }
    break;
  case IA_CRASH:
    io_crash();
  }
  if (S.io_chunk && n > S.io_chunk && !S.cur->off) {
    n = S.io_chunk;
    ++S.res->faults[FI_IO_SHORT_READ];
  }
  return r_read(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!r_write)
    load_sym(r_write, "write");
  if (!tracked(fd))
    return r_write(fd, b, n);
  sync_point(1, 0x43, nullptr, RET_PC);
  int64_t arg = 0;
  int act = io_action(IO_WRITE, &arg);
  switch (act) {
  case IA_ERRNO:
    ++S.res->faults[FI_IO_WRITE_ERR];
    errno = (int)arg;
    return -1;
  case IA_EINTR:
    ++S.res->faults[FI_IO_EINTR];
    errno = EINTR;
    return -1;
  case IA_SHORT:
    if ((size_t)arg < n && arg > 0) {
      n = (size_t)arg;
      ++S.res->faults[FI_IO_SHORT_WRITE];
    }
    break;
  case IA_CRASH:
    if (arg > 0 && n) {
      size_t k = (size_t)arg < n ? (size_t)arg : n;
      ssize_t r = r_write(fd, b, k);
      (void)r;
    }
    io_crash();
  }
  return r_write(fd, b, n);
}
ssize_t writev(int fd, const iovec *v, int c) {
  if (!r_writev)
    load_sym(r_writev, "writev");
  if (!tracked(fd))
    return r_writev(fd, v, c);
  // one simulated write per vector, like a kernel that accepts the first part
  for (int i = 0; i < c; ++i)
    if (v[i].iov_len)
      return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
}
