// Deterministic simulation runtime: public interface for driver and scenarios.
#pragma once
#include <stddef.h>
#include <stdint.h>

enum SimStrategy {
  ST_DEFAULT = 0, // run until blocked, then round robin
  ST_RANDOM = 1,  // random walk
  ST_PCT = 2,     // random priorities with change points
  ST_RR = 3,      // round robin with random quanta
  ST_STARVE = 4,  // one thread starved as long as others can run
  ST_NUM = 5
};

enum SimFault { // counters of faults that actually fired
  FI_PREEMPT_SYNC = 0,
  FI_PREEMPT_PLAIN,
  FI_STALL_THREAD,
  FI_CHILD_FIRST,
  FI_ALLOC_FAIL,
  FI_THREAD_FAIL,
  FI_TASK_THROW,
  FI_IO_OPEN_FAIL,
  FI_IO_WRITE_ERR,
  FI_IO_SHORT_WRITE,
  FI_IO_READ_ERR,
  FI_IO_SHORT_READ,
  FI_IO_EINTR,
  FI_CRASH,
  FI_FILE_TRUNC,
  FI_FILE_FLIP,
  FI_CLOCK_JUMP,
  FI_RAND_FORCED,
  FI_REJECT,
  FI_HEAP_SHUFFLE,
  FI_SPURIOUS_WAKE,
  FI_TRAINER_THROW,
  FI_IO_CLOSE_ERR,
  FI_FILE_DAMAGE,
  FI_NUM
};

enum { PROBES = 64 };

struct SimDev {
  uint64_t step;
  uint32_t tid;
};

struct SimCfg {
  uint64_t sched_seed, env_seed, heap_seed;
  uint32_t strat;
  uint32_t p_sync;    // switch probability at synchronisation points, /1024
  uint32_t plain_gap; // mean gap of preemptions at plain accesses, 0: none
  uint32_t child_first; // probability /1024 that a new thread runs at once
  uint32_t pct_depth;
  uint32_t pct_len;
  uint32_t starve_tid, starve_len;
  uint32_t heap_reuse;   // 1: LIFO reuse of freed blocks, 0: quarantine
  uint32_t heap_shuffle; // 1: addresses handed out in random order
  uint32_t poison;       // fill byte of fresh memory
  int64_t time0;         // wall clock at start, seconds
  uint32_t clock_jump;   // probability /1024 of a clock jump per reading
  uint64_t step_cap;
};

struct SimResult {
  volatile int status; // 0 running/died silently, 1 ok, 2 violation, 3 runtime error
  char kind[64];
  char msg[3072];
  uint64_t trace_hash, sched_hash;
  uint64_t steps, sync_events, switches, vtime_ns;
  uint64_t evals; // oracle comparisons made
  uint64_t allocs;
  uint32_t threads;
  uint32_t nontrivial; // set by scenario
  uint64_t content_hash; // of the workload as executed
  uint64_t faults[FI_NUM];
  uint64_t probes[PROBES];
  uint32_t ndev, dev_overflow;
  uint32_t pcs[4];
};
enum { MAX_DEVS = 1 << 20 };

extern "C" {
// driver side
void sim_init(SimResult *shm_result, SimDev *shm_devs);
void sim_start(const SimCfg *cfg, const SimDev *replay, uint32_t nreplay,
               int is_replay, void (*root)(void *), void *arg) __attribute__((noreturn));
// scenario side
void sim_fail(const char *kind, const char *fmt, ...)
    __attribute__((noreturn, format(printf, 2, 3)));
void sim_off_enter();
void sim_off_leave();
// 1: no preemption, race detection and memory checks at plain accesses
void sim_fast(int on);
int sim_is_on();
void sim_eval(uint64_t n);
void sim_probe(int id);
void sim_nontrivial();
void sim_hash(uint64_t v); // contribution to trace hash and content hash
void sim_count_fault(int fi);
uint32_t sim_tid(); // creation index of the running thread
void sim_point();   // explicit scheduling point
// fault injection
void sim_arm_alloc(uint64_t nth, int persistent);
int sim_disarm_alloc();          // number of failures delivered
void sim_arm_thread(uint64_t nth, int persistent);
int sim_disarm_thread();
enum SimIoOp { IO_OPEN = 0, IO_READ, IO_WRITE, IO_CLOSE, IO_OPS };
enum SimIoAct { IA_NONE = 0, IA_ERRNO, IA_SHORT, IA_EINTR, IA_CRASH };
void sim_io_root(const char *dir);                   // files below dir are simulated
void sim_io_fault(int op, uint64_t nth, int act, int64_t arg, int persistent);
void sim_io_chunk(uint32_t max_read);                // 0: unlimited
int sim_io_clear();                                  // returns number of faults fired
int sim_crashed(uint32_t tid);
void sim_rand_force(int mode, int64_t v); // outcomes of rand(): 0 seeded, 1 constant v, 2 maximum, 3 zero
uint64_t sim_live_threads();
uint64_t sim_live_blocks();
uint64_t sim_live_bytes();
uint64_t sim_allocs(); // simulated allocations so far
}

struct SimOff {
  SimOff() { sim_off_enter(); }
  ~SimOff() { sim_off_leave(); }
};
