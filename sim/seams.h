// Every source of nondeterminism of the code under test, under the simulator's control.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace seam {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { return mix(s += 0x9e3779b97f4a7c15ULL); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
};

// ---- random draws: rand(), random() ...
enum RandPolicy { kUniform, kConst, kRoundRobin, kSubset, kSticky, kZero, kMax, kAlternate };
struct RandState {
    RandPolicy policy = kUniform;
    Rng rng{1};
    long n = 1;      // number of documents the draws choose from
    long p = 0;      // parameter of the policy
    long count = 0;  // draws made
    long last = 0;
};
extern thread_local RandState *rand_cur;
extern RandState rand_env;  // draws outside of a fit: seeded by the environment, must not matter

// ---- environment: time, entropy, memory contents; must not matter
struct Env {
    uint64_t entropy = 1;
    int64_t clock_ns = 1500000000LL * 1000000000LL;
    int64_t tick_ns = 1000;
    int fill = -1;      // pattern of fresh memory
    int pid = 4242;
    int cpus = 4;       // processors the process sees
    uint64_t sched = 1; // schedules of threads that the code under test starts by itself
};
extern Env env;

// ---- memory
struct AllocPlan {
    long fail_at = 0;     // 1-based number of the eligible allocation that fails; 0: none
    long fail_n = 1;      // how many consecutive eligible allocations fail
    size_t min_size = 0;  // only allocations of at least this size are eligible
    long seen = 0;
    long fired = 0;
};
extern thread_local AllocPlan *alloc_cur;
extern size_t live_bytes, live_limit;

// ---- files (relative paths only: all in the scratch directory of the run)
struct IoPlan {
    int open_err = 0;          // errno of the n-th open
    int open_nth = 1;
    long w_err_at = -1;        // after this many bytes written ...
    int w_err = 0;             // ... fail with this errno
    int w_err_n = 1 << 30;     // this many times
    long w_chunk = 0;          // at most this many bytes per write call
    int w_eintr = 0;           // every n-th write call is interrupted first
    long w_dead_at = -1;       // after this many bytes the disk is gone: writes seem to work, nothing arrives
    int close_err = 0;
    int ren_err = 0;           // rename fails
    long r_err_at = -1;
    int r_err = 0;
    int r_open = 0;            // only on the n-th opened file (0: all)
    long r_chunk = 0;
    int r_eintr = 0;
    uint64_t seed = 1;
    // state
    int opens = 0;
    long w_bytes = 0, r_bytes = 0, w_calls = 0, r_calls = 0;
    bool eintr_pending = false;
    int close_failed = 0;      // closes of the file that failed
    int hard_fired = 0;        // faults after which success would be a lie
    int soft_fired = 0;        // faults that must be absorbed
    std::vector<std::pair<long, long>> journal;  // offset, length of each write
};
extern thread_local IoPlan *io_cur;

// ---- interruption by the host
struct Interrupt {
    long at = 0;  // 1-based number of the check that reports a signal; 0: none
    long seen = 0;
    long fired = 0;
};
extern thread_local Interrupt *intr_cur;

// ---- steps and threads
extern thread_local uint64_t steps;
extern uint64_t step_budget;
extern thread_local uint64_t op_steps;
extern void (*on_hang)(const char *what);
extern unsigned char *cover_map;  // 64K shared
struct SwitchPlan {
    uint64_t seed = 1;
    double mean = 100;   // mean basic blocks between switches
    double mean2 = 0;    // half of the gaps have this mean instead
    uint64_t stall = 0;  // the thread that runs at this step waits until no other can run
    bool is_explicit = false;
    std::vector<std::pair<uint64_t, int>> list;  // step, thread
};
struct SchedResult {
    std::vector<std::pair<uint64_t, int>> taken;
    uint64_t steps = 0;
    uint64_t forced = 0;
};
SchedResult run_threads(const std::vector<std::function<void()>> &bodies, const SwitchPlan &plan);

// ---- counters of what actually happened, by kind
enum Fault { F_OOM, F_OPEN, F_WERR, F_WSHORT, F_WEINTR, F_DEAD, F_CLOSE, F_RERR, F_RSHORT, F_REINTR, F_INTR, F_SWITCH,
             F_STARVE, F_CONSOLE, F_TORN, F_LOSTBLOCK, F_CRASH, F_ENV, F_RELOAD, F_TARGET, F_RENAME, F_N };
extern const char *fault_names[F_N];
extern uint64_t fault_count[F_N];
}
