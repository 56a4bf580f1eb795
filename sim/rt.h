// Public interface of the deterministic simulation runtime (libsimrt.so).
#pragma once
#include <cstdint>
#include <cstddef>

extern "C" {

enum SimDecisionKind : uint8_t {
    SIM_D_SCHED = 0,   // switch to another thread at a synchronisation point
    SIM_D_MEM,         // switch to another thread in front of a plain memory access
    SIM_D_FORCED,      // which thread continues after the current one blocked or yielded
    SIM_D_STALE,       // an atomic load returns an older value the memory model permits
    SIM_D_SPURIOUS,    // spurious wakeup of a condition variable or futex wait
    SIM_D_NOTIFY,      // which waiter a notification wakes
    SIM_D_CASFAIL,     // spurious failure of a weak compare exchange
    SIM_D_ALLOC,       // failing allocation
    SIM_D_CREATE,      // failing thread creation
    SIM_D_USER,        // fault of user supplied code (thrown exception)
    SIM_D_RNG,         // raw random generator output replaced
    SIM_D_TIMEOUT,     // a timed wait times out
    SIM_D_KINDS
};

enum SimStrategy : uint32_t { SIM_S_DEFAULT = 0, SIM_S_RANDOM, SIM_S_PCT, SIM_S_STARVE, SIM_S_ROUNDROBIN, SIM_S_BURST, SIM_S_COUNT };

struct SimDecision { uint32_t tid; uint32_t kind; uint64_t idx; uint64_t value; };

enum SimOutcome : uint32_t { SIM_RUNNING = 0, SIM_OK, SIM_VIOLATION, SIM_SKIP, SIM_ERROR };

struct SimConfig {
    uint64_t seed;
    uint32_t strategy;
    double   p_switch;        // SIM_S_RANDOM: chance of a switch at a sync point
    uint32_t pct_depth;       // SIM_S_PCT: number of priority change points
    uint64_t pct_len;         // SIM_S_PCT: change points are drawn in [0, pct_len)
    uint32_t quantum;         // SIM_S_ROUNDROBIN / SIM_S_BURST
    uint64_t mem_period;      // mean distance of plain-access preemption points, 0: none
    double   p_stale, p_spurious, p_casfail;
    double   p_alloc; uint64_t alloc_at; uint64_t alloc_burst;   // alloc_at: 1-based index of the failing allocation, 0: none
    double   p_create; uint64_t create_at;
    double   p_rng;
    uint32_t race;            // data race detection
    uint32_t nprocs;          // reported hardware concurrency
    uint64_t env;             // what differs between executions of a program: addresses, contents of new memory, time of day, process id, random devices
    uint64_t soft_steps;      // after this many steps faults stop and scheduling is fair
    uint64_t hard_steps;      // no progress if still running after that many more
    const SimDecision* replay; uint64_t replay_len; uint32_t replay_mode;
};

#define SIM_MAX_DECISIONS (1u << 17)
#define SIM_PROBES 64

struct SimResult {
    uint32_t outcome;
    char     cls[96];         // class of the violation
    char     msg[3072];
    uint64_t hash;            // hash of the event log
    uint64_t sched_hash;      // hash of the interleaving of synchronisation events only
    uint64_t steps, switches, accesses, allocs, vtime;
    uint64_t fired[SIM_D_KINDS];
    uint64_t probes[SIM_PROBES];
    uint64_t threads, locs, rng_draws;
    uint64_t ndecisions;
    uint64_t digest;          // result digest, filled in by the scenario
    char     digest_text[4096];
    SimDecision decisions[SIM_MAX_DECISIONS];
};

void sim_init_shared(SimResult* r);                         // before the run, in the child
int  sim_run(const SimConfig* cfg, void (*fn)(void*), void* arg); // runs fn as simulated thread 0; returns when it is done
void sim_fail(const char* cls, const char* msg);            // report a violation and end the process
void sim_skip(const char* msg);
void sim_finish_ok(void);                                   // ends the process, run was fine
void sim_quiet_enter(void);                                 // monitor code: no preemption, faults or race checks
void sim_quiet_exit(void);
void sim_yield(void);
int  sim_user_fault(double p);                              // decision SIM_D_USER
int  sim_active(void);
int  sim_faults_on(void);
void sim_faults_enable(int on);                             // switch all injected faults off/on (schedule stays chaotic)
int  sim_alloc_faults_enable(int on);                       // returns the old value
void sim_probe(int i);
void sim_event(uint64_t v);                                 // add to the event log hash
uint64_t sim_seq(void);                                     // global event sequence number
int  sim_tid(void);
uint64_t sim_rng_filter(uint64_t raw);                      // generator hook
void sim_set_nprocs(uint32_t n);
uint64_t sim_live_blocks(void);                             // live heap blocks (leak accounting)
uint64_t sim_fired(int kind);
void sim_expect_exit(void);                                 // the scenario will call exit(): static destruction is part of the run
int  sim_blocked_threads(void);
void sim_exclusive_check(const void* p, size_t n, int write);
}

struct NoSim {
    NoSim() { sim_quiet_enter(); }
    ~NoSim() { sim_quiet_exit(); }
    NoSim(const NoSim&) = delete;
};
