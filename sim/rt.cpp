// Deterministic simulation runtime.
//
// The system under test is compiled with -fsanitize=thread, but instead of the real
// ThreadSanitizer runtime it is linked with this library. Every instrumented memory access,
// atomic operation, fence, lock, condition variable, futex, thread creation/exit, allocation
// and clock read of the system ends up here. Threads are real OS threads that are parked and
// released one at a time: which one continues, which store an atomic load sees, what fails and
// when, is decided by one seeded generator (or by a recorded list of decisions).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <sys/random.h>
#include <new>
#include <initializer_list>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef uintptr_t uptr;
typedef unsigned __int128 u128;

namespace {

// ---------------------------------------------------------------- raw system calls
inline long raw6(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
inline void rep_copy(void* d, const void* s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); }
inline void rep_set(void* d, int c, size_t n) { __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); }

// ---------------------------------------------------------------- constants, vector clocks
const int MAXT = 48;
struct VC { u32 v[MAXT]; };
int g_nthr_total = 0; // number of thread slots in use: bounds loops over clocks
inline void vc_join(VC& a, const VC& b) { for (int i = 0; i < g_nthr_total; i++) if (b.v[i] > a.v[i]) a.v[i] = b.v[i]; }

// ---------------------------------------------------------------- address layout
const uptr HEAP0 = 0x200000000000ull, HEAP_SZ = 8ull << 30;
const uptr STK0 = HEAP0 + HEAP_SZ, STK_SZ = 1024ull << 10, STK_ALL = STK_SZ * MAXT;
const uptr HSH0 = 0x210000000000ull;              // heap state, 1 byte per 16
const uptr CELL0 = 0x220000000000ull;             // race cells of heap and stacks
const uptr GLO0 = 0x400000ull, GLO_SZ = 32ull << 20; // non-PIE executable image
const uptr GCELL0 = 0x2F0000000000ull;

struct Entry { u32 clk; u32 pc; u8 tid, mask, flags, pad; };
const int NENT = 4;
struct Cell { Entry e[NENT]; };
enum { AF_WRITE = 1, AF_ATOMIC = 2 };

bool g_mem_ready = false;
void die(const char* m)
{
    raw6(SYS_write, 2, (long)m, (long)strlen(m), 0, 0, 0); raw6(SYS_write, 2, (long)"\n", 1, 0, 0, 0);
    raw6(SYS_exit_group, 97, 0, 0, 0, 0, 0);
}
void map_fixed(uptr a, size_t n)
{
    long r = raw6(SYS_mmap, (long)a, (long)n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if ((uptr)r != a) die("simrt: cannot map simulation memory");
}
void mem_init()
{
    g_mem_ready = true;
    map_fixed(HEAP0, HEAP_SZ + STK_ALL);
    map_fixed(HSH0, HEAP_SZ / 16);
    map_fixed(CELL0, (HEAP_SZ + STK_ALL) / 8 * sizeof(Cell));
    map_fixed(GCELL0, GLO_SZ / 8 * sizeof(Cell));
}

// ---------------------------------------------------------------- simple PRNG
struct Rng {
    u64 s;
    u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    bool chance(double p) { return p > 0 && (double)(next() >> 11) * 0x1p-53 < p; }
};

// ---------------------------------------------------------------- threads
enum State { ST_RUN = 1, ST_BLOCK, ST_DONE };
enum Wait { W_NONE, W_MUTEX, W_COND, W_JOIN, W_FUTEX, W_RW, W_GUARD, W_ONCE, W_SLEEP };

struct Thr {
    int tid; int state; int wait_kind; const void* wait_obj; bool timed, timed_out;
    volatile int run;
    pthread_t pt; bool joined;
    void* (*start)(void*); void* arg;
    VC vc, frel, facq, scf; bool has_facq, has_scf; u64 scf_ts;
    u32 quiet, noalloc;
    u64 macc, mem_next;
    u64 dcnt[SIM_D_KINDS];
    uptr sp, stk_lo, stk_hi;
    u64 last_loc, last_val; u32 unprod, stale_run;
    u64 prio; bool yielded;
    u64 wait_seq;
    size_t mem_pos; // replay: position in the sorted list of memory preemptions
    u32 depth; u32 stack[256];
};

__thread Thr* self __attribute__((tls_model("initial-exec"))) = nullptr;
Thr g_thr[MAXT];
Thr* g_cur = nullptr;
bool g_on = false;
SimConfig C;
SimResult* R = nullptr;
Rng g_rng, g_env;
u64 g_seq = 0, g_wait_seq = 0;
bool g_fair = false, g_faults = true, g_alloc_faults = true;
u32 g_nprocs = 1;
u64 g_alloc_cnt = 0, g_create_cnt = 0, g_live = 0;
u64 g_next_prio_low = 1u << 20;
u64 g_pct_at[64]; u32 g_pct_n = 0;
int g_victim = -1; u64 g_victim_until = 0;
u64 g_burst_left = 0;
bool g_expect_exit = false;
u64 g_next_loc_id = 1;
int g_alive_sim = 0;

inline void hash_event(u64 v) { R->hash = (R->hash ^ v) * 0x9E3779B97F4A7C15ull; R->hash ^= R->hash >> 29; }
inline void hash_sched(u64 v) { R->sched_hash = (R->sched_hash ^ v) * 0x9E3779B97F4A7C15ull; R->sched_hash ^= R->sched_hash >> 29; }

// ---------------------------------------------------------------- real functions
template<typename F> F real(const char* name, F& cache)
{
    if (!cache) cache = (F)dlsym(RTLD_NEXT, name);
    return cache;
}
#define REAL(name) ({ static decltype(&::name) c_; real<decltype(&::name)>(#name, c_); })

// ---------------------------------------------------------------- ending a run
__attribute__((noreturn)) void end_run(u32 outcome)
{
    R->threads = g_nthr_total; R->locs = g_next_loc_id; R->allocs = g_alloc_cnt;
    u64 acc = 0; for (int i = 0; i < g_nthr_total; i++) acc += g_thr[i].macc;
    R->accesses = acc;
    __atomic_store_n(&R->outcome, outcome, __ATOMIC_SEQ_CST);
    for (;;) raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
}
void append_stack(char* buf, size_t cap, Thr* t)
{
    size_t n = strlen(buf);
    u32 d = t->depth < 256 ? t->depth : 256;
    for (u32 i = 0; i < 14 && i < d && n + 16 < cap; i++) n += snprintf(buf + n, cap - n, " @%x", t->stack[d - 1 - i]);
}
__attribute__((noreturn)) void violation(const char* cls, const char* msg, Thr* t)
{
    Thr* s = self; if (s) s->quiet++;
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    snprintf(R->msg, sizeof R->msg, "%s", msg);
    if (t) { strncat(R->msg, " [T", sizeof R->msg - strlen(R->msg) - 1); char b[16]; snprintf(b, sizeof b, "%d:", t->tid); strncat(R->msg, b, sizeof R->msg - strlen(R->msg) - 1); append_stack(R->msg, sizeof R->msg - 2, t); strncat(R->msg, "]", sizeof R->msg - strlen(R->msg) - 1); }
    end_run(SIM_VIOLATION);
}

// ---------------------------------------------------------------- heap
struct Hdr { u64 size; u32 state; u32 align; };
const int NCLS = 96;
uptr g_bump = HEAP0 + 4096;
void* g_free[NCLS];
const uptr SIMHEAP0 = HEAP0 + (1ull << 30);   // the simulated process allocates from here: addresses do not depend on what the driver did
struct QEnt { void* p; };
const u32 QCAP = 1u << 19;
QEnt g_q[QCAP]; u32 g_qh = 0, g_qt = 0; u64 g_qbytes = 0;
volatile int g_heap_lock = 0;
struct HeapLock { HeapLock() { while (__atomic_exchange_n(&g_heap_lock, 1, __ATOMIC_ACQUIRE)) raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); } ~HeapLock() { __atomic_store_n(&g_heap_lock, 0, __ATOMIC_RELEASE); } };

inline int cls_of(u64 sz, u64& rounded)
{
    if (sz <= 1024) { rounded = (sz + 15) & ~15ull; if (!rounded) rounded = 16; return (int)(rounded / 16) - 1; }
    u64 r = 2048; int c = 64;
    while (r < sz) { r <<= 1; c++; }
    rounded = r; return c;
}
inline void heap_state(uptr p, u64 sz, u8 st) { rep_set((void*)(HSH0 + (p - HEAP0) / 16), st, (sz + 15) / 16); }
inline Cell* cells_of(uptr a);
void clear_cells(uptr p, u64 sz)
{
    if (!C.race) return;
    uptr lo = CELL0 + (p - HEAP0) / 8 * sizeof(Cell);
    u64 n = (sz + 7) / 8 * sizeof(Cell);
    if (n > (1u << 22)) { raw6(SYS_madvise, (long)((lo + 4095) & ~4095ull), (long)((n - 4096) & ~4095ull), MADV_DONTNEED, 0, 0, 0); uptr end = lo + n; rep_set((void*)lo, 0, ((lo + 4095) & ~4095ull) - lo); rep_set((void*)(((lo + 4095) & ~4095ull) + ((n - 4096) & ~4095ull)), 0, end - (((lo + 4095) & ~4095ull) + ((n - 4096) & ~4095ull))); }
    else rep_set((void*)lo, 0, n);
}
void* heap_alloc(size_t sz, size_t align)
{
    if (!g_mem_ready) mem_init();
    if (sz > (1ull << 32)) return nullptr;
    HeapLock l;
    u64 rs; int c = cls_of(sz, rs);
    void* p;
    if (align <= 16 && g_free[c])
    {
        p = g_free[c]; g_free[c] = *(void**)p;
    }
    else
    {
        uptr a = g_bump + 16;
        if (align > 16) a = (a + align - 1) & ~(uptr)(align - 1);
        if (a + rs + 32 > HEAP0 + HEAP_SZ) return nullptr;
        // memory that only ever grows: reported before it could exhaust the machine
        if (g_on && self && a + rs > SIMHEAP0 + (C.race ? 512ull << 20 : 2ull << 30)) { __atomic_store_n(&g_heap_lock, 0, __ATOMIC_RELEASE); violation("memory-exhausted", "the run uses more memory than any workload needs", self); }
        g_bump = a + rs;
        p = (void*)a;
    }
    Hdr* h = (Hdr*)p - 1; h->size = sz; h->state = 0xA110C8ED; h->align = (u32)align;
    heap_state((uptr)p, rs, 2);
    heap_state((uptr)p, sz ? sz : 1, 1);
    clear_cells((uptr)p, rs);
    if (g_on && rs <= 4096) rep_set(p, (u8)(0xA5 + C.env * 37), rs); // uninitialised reads get visible
    g_live++;
    return p;
}
void drop_locs(uptr a, u64 n);
void heap_free(void* p, bool from_delete)
{
    if (!p) return;
    uptr a = (uptr)p;
    if (a < HEAP0 || a >= HEAP0 + HEAP_SZ) return;
    Hdr* h = (Hdr*)p - 1;
    if (h->state != 0xA110C8ED)
    {
        if (g_on && self) { Thr* t = self; violation("double-free", "block is freed that is not allocated", t); }
        return;
    }
    (void)from_delete;
    drop_locs(a, h->size);
    HeapLock l;
    h->state = 0xF4EEF4EE;
    u64 rs; int c = cls_of(h->size, rs);
    heap_state(a, rs, 2);
    g_live--;
    if (h->align > 16 || rs > (1u << 20) || (g_on && a < SIMHEAP0)) return; // not reused
    g_q[g_qh].p = p; g_qh = (g_qh + 1) % QCAP; g_qbytes += rs;
    while (g_qbytes > (24u << 20) || (g_qh + 1) % QCAP == g_qt)
    {
        void* o = g_q[g_qt].p; g_qt = (g_qt + 1) % QCAP;
        u64 ors; int oc = cls_of(((Hdr*)o - 1)->size, ors);
        g_qbytes -= ors;
        *(void**)o = g_free[oc]; g_free[oc] = o;
    }
    (void)c;
}

// ---------------------------------------------------------------- decisions
struct RNode { u32 tid, kind; u64 idx, value; int next; };
RNode* g_rnodes = nullptr; int* g_rhead = nullptr; const u32 RH = 1u << 16;
u64** g_memlist = nullptr; u64* g_memlen = nullptr;   // replay: sorted memory preemption points per thread
inline u32 rhash(u32 tid, u32 kind, u64 idx) { u64 h = (idx * 0x9E3779B97F4A7C15ull) ^ ((u64)tid << 40) ^ ((u64)kind << 50); h *= 0xD6E8FEB86659FD93ull; return (u32)(h >> 40) & (RH - 1); }
void* raw_map(size_t n) { return (void*)raw6(SYS_mmap, 0, (long)n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
void build_replay()
{
    g_rnodes = (RNode*)raw_map((C.replay_len + 1) * sizeof(RNode));
    g_rhead = (int*)raw_map(RH * sizeof(int));
    for (u32 i = 0; i < RH; i++) g_rhead[i] = -1;
    g_memlist = (u64**)raw_map(MAXT * sizeof(u64*)); g_memlen = (u64*)raw_map(MAXT * sizeof(u64));
    u64 cnt[MAXT] = {};
    for (u64 i = 0; i < C.replay_len; i++) if (C.replay[i].kind == SIM_D_MEM && C.replay[i].tid < MAXT) cnt[C.replay[i].tid]++;
    for (int t = 0; t < MAXT; t++) if (cnt[t]) g_memlist[t] = (u64*)raw_map(cnt[t] * 8);
    for (u64 i = 0; i < C.replay_len; i++)
    {
        const SimDecision& d = C.replay[i];
        u32 h = rhash(d.tid, d.kind, d.idx);
        g_rnodes[i] = { d.tid, d.kind, d.idx, d.value, g_rhead[h] }; g_rhead[h] = (int)i;
        if (d.kind == SIM_D_MEM && d.tid < MAXT)
        {
            u64* a = g_memlist[d.tid]; u64 n = g_memlen[d.tid]++;
            while (n && a[n - 1] > d.idx) { a[n] = a[n - 1]; n--; }
            a[n] = d.idx;
        }
    }
}
bool rlookup(u32 tid, u32 kind, u64 idx, u64& v)
{
    for (int i = g_rhead[rhash(tid, kind, idx)]; i >= 0; i = g_rnodes[i].next)
        if (g_rnodes[i].tid == tid && g_rnodes[i].kind == kind && g_rnodes[i].idx == idx) { v = g_rnodes[i].value; return true; }
    return false;
}
void log_decision(Thr* t, u32 kind, u64 idx, u64 v)
{
    R->fired[kind]++;
    hash_event(0x1000 + kind); hash_event(v);
    if (R->ndecisions < SIM_MAX_DECISIONS) R->decisions[R->ndecisions] = { (u32)t->tid, kind, idx, v };
    R->ndecisions++;
}
// returns the decision; gen() is only called when recording
template<typename G> u64 decide(Thr* t, u32 kind, u64 def, G gen)
{
    u64 idx = t->dcnt[kind]++, v = def;
    if (C.replay_mode) { if (!rlookup((u32)t->tid, kind, idx, v)) v = def; }
    else v = gen();
    return v == def ? def : (log_decision(t, kind, idx, v), v);
}

// ---------------------------------------------------------------- scheduler
void futex_wait_raw(volatile int* p, int v) { raw6(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
void futex_wake_raw(volatile int* p) { raw6(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

inline bool runnable(int i) { return g_thr[i].state == ST_RUN; }
int rr_next(int from)
{
    for (int k = 1; k <= g_nthr_total; k++) { int i = (from + k) % g_nthr_total; if (runnable(i)) return i; }
    return -1;
}
int count_runnable(int except) { int n = 0; for (int i = 0; i < g_nthr_total; i++) if (i != except && runnable(i)) n++; return n; }
int nth_runnable(int except, int k) { for (int i = 0; i < g_nthr_total; i++) if (i != except && runnable(i)) { if (k == 0) return i; k--; } return -1; }

const u64 ACC_LIMIT = 200000000ull;
void arm_mem(Thr* t)
{
    const u64 LIMIT = ACC_LIMIT;
    u64 next = LIMIT;
    if (C.replay_mode)
    {
        if (g_memlist && g_memlist[t->tid])
            while (t->mem_pos < g_memlen[t->tid])
            {
                if (g_memlist[t->tid][t->mem_pos] > t->macc) { next = g_memlist[t->tid][t->mem_pos]; break; }
                t->mem_pos++;
            }
    }
    else if (C.mem_period && !g_fair)
        next = t->macc + 1 + g_rng.below(2 * C.mem_period);
    t->mem_next = next < LIMIT ? next : LIMIT;
    if (t->macc >= LIMIT) violation("no-progress", "a thread executed more memory accesses than any run needs", t);
}

void switch_to(Thr* t, int n)
{
    Thr* o = &g_thr[n];
    if (o == t) return;
    R->switches++;
    hash_sched(((u64)t->tid << 8) | (u64)n); hash_event(0x2000 + n);
    g_cur = o;
    __atomic_store_n(&o->run, 1, __ATOMIC_RELEASE);
    futex_wake_raw(&o->run);
    if (t->state == ST_DONE) return;
    while (!__atomic_load_n(&t->run, __ATOMIC_ACQUIRE)) futex_wait_raw(&t->run, 0);
    t->run = 0;
}

void count_step(Thr* t)
{
    R->steps++; R->vtime += 1000;
    if (UNLIKELY(R->steps >= C.soft_steps))
    {
        if (!g_fair) { g_fair = true; hash_event(0xFA1); for (int i = 0; i < g_nthr_total; i++) if (&g_thr[i] != t) { g_thr[i].mem_next = ACC_LIMIT; } }
        if (R->steps >= C.soft_steps + C.hard_steps)
        {
            char b[2048]; int n = snprintf(b, sizeof b, "no progress: still running %llu fair steps after faults stopped; threads:", (unsigned long long)C.hard_steps);
            for (int i = 0; i < g_nthr_total && n < 1500; i++) n += snprintf(b + n, sizeof b - n, " T%d=%s", i, g_thr[i].state == ST_RUN ? "running" : g_thr[i].state == ST_BLOCK ? "blocked" : "done");
            violation("no-progress", b, t);
        }
    }
}

// strategy: which thread should run at a voluntary scheduling point; returns tid
int choose(Thr* t, bool must_leave)
{
    int others = count_runnable(t->tid);
    bool self_ok = t->state == ST_RUN && !must_leave;
    if (!others) return t->state == ST_RUN ? t->tid : -1;
    if (g_fair)
    {
        if (self_ok && (R->steps & 15)) return t->tid;
        return rr_next(t->tid);
    }
    switch (C.strategy)
    {
    case SIM_S_RANDOM:
        if (self_ok && !g_rng.chance(C.p_switch)) return t->tid;
        return nth_runnable(t->tid, (int)g_rng.below(others));
    case SIM_S_PCT:
    {
        for (u32 i = 0; i < g_pct_n; i++) if (g_pct_at[i] == R->steps) { t->prio = g_next_prio_low--; }
        if (must_leave && t->state == ST_RUN) t->prio = g_next_prio_low--;
        int best = -1;
        for (int i = 0; i < g_nthr_total; i++)
            if (runnable(i) && (i != t->tid || self_ok) && (best < 0 || g_thr[i].prio > g_thr[best].prio)) best = i;
        return best;
    }
    case SIM_S_STARVE:
    {
        if (R->steps >= g_victim_until) { g_victim = (int)g_rng.below(g_nthr_total); g_victim_until = R->steps + 1 + g_rng.below(1ull << (3 + g_rng.below(10))); }
        if (self_ok && t->tid != g_victim && !g_rng.chance(C.p_switch)) return t->tid;
        int cand = nth_runnable(t->tid, (int)g_rng.below(others));
        if (cand == g_victim && (others > 1 || self_ok) && !g_rng.chance(1.0 / 512))
        {
            if (self_ok) return t->tid;
            for (int k = 0; k < 8 && cand == g_victim; k++) cand = nth_runnable(t->tid, (int)g_rng.below(others));
        }
        return cand;
    }
    case SIM_S_ROUNDROBIN:
        if (self_ok && ++g_burst_left < C.quantum) return t->tid;
        g_burst_left = 0;
        return rr_next(t->tid);
    case SIM_S_BURST:
        if (self_ok && g_burst_left) { g_burst_left--; return t->tid; }
        g_burst_left = g_rng.below(2ull * C.quantum + 1);
        return nth_runnable(t->tid, (int)g_rng.below(others));
    default:
        return self_ok ? t->tid : rr_next(t->tid);
    }
}

bool resolve_timed()
{
    // nothing is runnable: time passes until the first timed wait expires
    int best = -1;
    for (int i = 0; i < g_nthr_total; i++)
        if (g_thr[i].state == ST_BLOCK && g_thr[i].timed && (best < 0 || g_thr[i].wait_seq < g_thr[best].wait_seq)) best = i;
    if (best < 0) return false;
    g_thr[best].timed_out = true; g_thr[best].state = ST_RUN; g_thr[best].wait_kind = W_NONE; R->vtime += 1000000000ull;
    return true;
}

__attribute__((noreturn)) void report_deadlock(Thr* t)
{
    static const char* names[] = { "-", "mutex", "condition", "join", "futex", "rwlock", "static-init", "once", "sleep" };
    char b[2048]; int n = snprintf(b, sizeof b, "deadlock: no thread can run;");
    for (int i = 0; i < g_nthr_total && n < 1400; i++) if (g_thr[i].state == ST_BLOCK) { n += snprintf(b + n, sizeof b - n, " T%d waits for %s", i, names[g_thr[i].wait_kind]); u32 d = g_thr[i].depth < 256 ? g_thr[i].depth : 256; for (u32 k = 0; k < 5 && k < d; k++) n += snprintf(b + n, sizeof b - n, " @%x", g_thr[i].stack[d - 1 - k]); n += snprintf(b + n, sizeof b - n, ";"); }
    violation("deadlock", b, t);
}

// current thread cannot continue (blocked) or gives up its turn (yield)
void reschedule(Thr* t, bool yielding)
{
    count_step(t);
    int n;
    while (true)
    {
        int def = rr_next(t->tid);
        if (def < 0) { if (!resolve_timed()) report_deadlock(t); continue; }
        if (t->state == ST_RUN && def != t->tid && t->quiet) { }
        u64 v = decide(t, SIM_D_FORCED, (u64)def, [&] { int c = choose(t, true); return (u64)(c < 0 ? def : c); });
        if (v >= (u64)g_nthr_total || !runnable((int)v)) v = (u64)def;
        n = (int)v;
        break;
    }
    (void)yielding;
    switch_to(t, n);
}

void make_runnable(Thr* o) { o->state = ST_RUN; o->wait_kind = W_NONE; o->wait_obj = nullptr; o->timed = false; }

void maybe_spurious(Thr* t)
{
    if (C.p_spurious <= 0 && !C.replay_mode) return;
    u64 v = decide(t, SIM_D_SPURIOUS, 0, [&]() -> u64 {
        if (g_fair || !g_faults || !g_rng.chance(C.p_spurious)) return 0;
        int cand[MAXT], n = 0;
        for (int i = 0; i < g_nthr_total; i++) if (g_thr[i].state == ST_BLOCK && (g_thr[i].wait_kind == W_COND || g_thr[i].wait_kind == W_FUTEX)) cand[n++] = i;
        return n ? (u64)cand[g_rng.below(n)] + 1 : 0;
    });
    if (v && v <= (u64)g_nthr_total)
    {
        Thr* o = &g_thr[v - 1];
        if (o->state == ST_BLOCK && (o->wait_kind == W_COND || o->wait_kind == W_FUTEX)) make_runnable(o);
    }
}

// scheduling point in front of a synchronisation operation
void sched_point(Thr* t, u64 what)
{
    if (t->quiet) return;
    count_step(t);
    hash_event(what ^ ((u64)t->tid << 56));
    maybe_spurious(t);
    if (g_nthr_total < 2) return;
    u64 v = decide(t, SIM_D_SCHED, (u64)t->tid, [&] { int c = choose(t, false); return (u64)(c < 0 ? t->tid : c); });
    if (v != (u64)t->tid && v < (u64)g_nthr_total && runnable((int)v)) switch_to(t, (int)v);
}

void spin_yield(Thr* t) { if (count_runnable(t->tid)) reschedule(t, true); else if (C.soft_steps) count_step(t); }

void block(Thr* t, int kind, const void* obj)
{
    t->state = ST_BLOCK; t->wait_kind = kind; t->wait_obj = obj; t->wait_seq = ++g_wait_seq; t->unprod = 0;
    reschedule(t, false);
}
void wake_all(int kind, const void* obj)
{
    for (int i = 0; i < g_nthr_total; i++) if (g_thr[i].state == ST_BLOCK && g_thr[i].wait_kind == kind && g_thr[i].wait_obj == obj) make_runnable(&g_thr[i]);
}

void mem_preempt(Thr* t)
{
    if (C.replay_mode)
    {
        u64 v;
        if (rlookup((u32)t->tid, SIM_D_MEM, t->macc, v))
        {
            t->mem_pos++;
            if (v < (u64)g_nthr_total && runnable((int)v) && v != (u64)t->tid) { log_decision(t, SIM_D_MEM, t->macc, v); count_step(t); arm_mem(t); switch_to(t, (int)v); return; }
        }
        arm_mem(t);
        return;
    }
    u64 at = t->macc;
    arm_mem(t);
    if (g_fair) return;
    int others = count_runnable(t->tid);
    if (!others) return;
    int n = nth_runnable(t->tid, (int)g_rng.below(others));
    log_decision(t, SIM_D_MEM, at, (u64)n);
    count_step(t);
    switch_to(t, n);
}

// ---------------------------------------------------------------- atomic locations
struct Store { u64 val; u32 tid, clk; u64 scts; int rel; }; // rel: index of a release clock or -1
const int HK = 8, RK = 3;
struct Rd { u32 clk, idx; };
struct Hist { Store st[HK]; u32 base, n; Rd rd[MAXT][RK]; u8 nrd[MAXT]; };
struct Loc { uptr addr; u64 id; u64 val; int rel; u8 size; bool dirty, live; u32 last_sc; bool has_sc; Hist* h; int next; };

const u32 NLOC = 1u << 19, LH = 1u << 18;
Loc* g_loc = nullptr; int* g_lh = nullptr; u32 g_nloc = 0;
u8 g_filter[1 << 16];
u64 g_scts = 0; VC g_sc_fence; // clock of all seq_cst fences so far
u32 g_nhist = 0;

VC* g_vcs = nullptr; u32 g_nvc = 0; int g_vcfree = -1; const u32 NVC = 1u << 21;
int vc_new(const VC& v) { int i; if (g_vcfree >= 0) { i = g_vcfree; g_vcfree = (int)g_vcs[i].v[0]; } else { if (g_nvc >= NVC) die("simrt: too many clocks"); i = (int)g_nvc++; } for (int k = 0; k < MAXT; k++) g_vcs[i].v[k] = v.v[k]; return i; }
void vc_del(int i) { if (i < 0) return; g_vcs[i].v[0] = (u32)g_vcfree; g_vcfree = i; }

inline u32 lhash(uptr a) { return (u32)((a * 0x9E3779B97F4A7C15ull) >> 46) & (LH - 1); }
Loc* find_loc(uptr a) { for (int i = g_lh[lhash(a)]; i >= 0; i = g_loc[i].next) if (g_loc[i].addr == a && g_loc[i].live) return &g_loc[i]; return nullptr; }

u64 mem_read(uptr a, int sz) { switch (sz) { case 1: return *(volatile u8*)a; case 2: return *(volatile u16*)a; case 4: return *(volatile u32*)a; default: return *(volatile u64*)a; } }
void mem_write(uptr a, int sz, u64 v) { switch (sz) { case 1: *(volatile u8*)a = (u8)v; break; case 2: *(volatile u16*)a = (u16)v; break; case 4: *(volatile u32*)a = (u32)v; break; default: *(volatile u64*)a = v; } }

void loc_reset(Loc* l, int sz)
{
    if (l->h) for (u32 i = 0; i < l->h->n; i++) vc_del(l->h->st[i].rel);
    vc_del(l->rel); l->rel = -1;
    l->size = (u8)sz; l->dirty = false; l->has_sc = false; l->last_sc = 0;
    l->val = mem_read(l->addr, sz);
    if (l->h)
    {
        Hist* h = l->h; h->base = 0; h->n = 1; h->st[0] = { l->val, 0, 0, 0, -1 };
        for (int i = 0; i < MAXT; i++) h->nrd[i] = 0;
    }
}
Loc* get_loc(uptr a, int sz)
{
    Loc* l = find_loc(a);
    if (!l)
    {
        if (g_nloc >= NLOC) { snprintf(R->msg, sizeof R->msg, "too many atomic locations"); end_run(SIM_ERROR); }
        l = &g_loc[g_nloc]; u32 h = lhash(a);
        l->addr = a; l->next = g_lh[h]; g_lh[h] = (int)g_nloc++; l->live = true; l->id = g_next_loc_id++; l->rel = -1; l->h = nullptr;
        if (g_nhist < 6000) { g_nhist++; l->h = (Hist*)((char*)g_loc + sizeof(Loc) * NLOC + (u64)(g_nhist - 1) * sizeof(Hist)); }
        if (g_filter[(a >> 3) & 0xffff] < 255) g_filter[(a >> 3) & 0xffff]++;
        if (l->h) l->h->n = 0;
        loc_reset(l, sz);
    }
    else if (l->dirty || l->size != sz || l->val != mem_read(a, sz)) loc_reset(l, sz);
    return l;
}
void dirty_locs(uptr a, u64 n)
{
    for (uptr g = a >> 3; g <= (a + n - 1) >> 3; g++)
        if (g_filter[g & 0xffff])
            for (uptr b = g << 3; b < (g << 3) + 8; b++) if (b + 8 > a && b < a + n) { Loc* l = find_loc(b); if (l && b + l->size > a) l->dirty = true; }
}
void drop_locs(uptr a, u64 n)
{
    if (!g_on || !g_nloc || !n) return;
    if (n > (1u << 20)) n = 1u << 20;
    for (uptr g = a >> 3; g <= (a + n - 1) >> 3; g++)
        if (g_filter[g & 0xffff])
            for (uptr b = g << 3; b < (g << 3) + 8; b++) { Loc* l = find_loc(b); if (l) l->dirty = true; }
}

inline bool is_acq(int mo) { mo &= 7; return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool is_rel(int mo) { mo &= 7; return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool is_sc(int mo) { return (mo & 7) == __ATOMIC_SEQ_CST; }

inline void tick(Thr* t) { t->vc.v[t->tid]++; }

void acquire_from(Thr* t, int rel, int mo)
{
    if (rel < 0) return;
    if (is_acq(mo)) vc_join(t->vc, g_vcs[rel]);
    else { vc_join(t->facq, g_vcs[rel]); t->has_facq = true; }
}
int release_clock(Thr* t, int mo, int prev) // clock carried by a store; prev: continued release sequence
{
    VC v; bool any = false;
    for (int i = 0; i < MAXT; i++) v.v[i] = 0;
    if (is_rel(mo)) { v = t->vc; any = true; }
    else { v = t->frel; for (int i = 0; i < g_nthr_total; i++) if (v.v[i]) any = true; }
    if (prev >= 0) { vc_join(v, g_vcs[prev]); any = true; }
    return any ? vc_new(v) : -1;
}

void push_store(Thr* t, Loc* l, u64 val, int mo, int prev)
{
    int rel = release_clock(t, mo, prev);
    l->val = val;
    if (l->h)
    {
        Hist* h = l->h;
        if (h->n == HK) { vc_del(h->st[0].rel); for (int i = 1; i < HK; i++) h->st[i - 1] = h->st[i]; h->n--; h->base++; }
        h->st[h->n++] = { val, (u32)t->tid, t->vc.v[t->tid], is_sc(mo) ? ++g_scts : 0, rel };
    }
    else { vc_del(l->rel); l->rel = rel; }
    if (is_rel(mo)) tick(t);
}
inline int newest_rel(Loc* l) { return l->h ? l->h->st[l->h->n - 1].rel : l->rel; }

void note_read(Thr* t, Loc* l, u32 absidx)
{
    Hist* h = l->h; if (!h) return;
    Rd* r = h->rd[t->tid]; u8& n = h->nrd[t->tid]; u32 clk = t->vc.v[t->tid];
    if (n && r[n - 1].clk == clk) { if (absidx > r[n - 1].idx) r[n - 1].idx = absidx; return; }
    if (n == RK) { r[0].idx = r[1].idx > r[0].idx ? r[1].idx : r[0].idx; for (int i = 2; i < RK; i++) r[i - 1] = r[i]; n--; }
    r[n].clk = clk; r[n].idx = absidx; n++;
}
u32 read_floor(Thr* t, Loc* l, int mo)
{
    Hist* h = l->h; u32 lo = h->base;
    for (int i = (int)h->n - 1; i >= 0; i--)
    {
        Store& s = h->st[i];
        bool must = s.clk <= t->vc.v[s.tid];
        if (!must && t->has_scf && (s.clk <= t->scf.v[s.tid] || (s.scts && s.scts <= t->scf_ts))) must = true;
        if (!must && is_sc(mo) && (s.scts || s.clk <= g_sc_fence.v[s.tid])) must = true;
        if (must) { u32 a = h->base + (u32)i; if (a > lo) lo = a; break; }
    }
    for (int u = 0; u < g_nthr_total; u++)
        for (int k = 0; k < h->nrd[u]; k++) if (h->rd[u][k].clk <= t->vc.v[u] && h->rd[u][k].idx > lo) lo = h->rd[u][k].idx;
    return lo;
}

void unproductive(Thr* t, Loc* l, u64 v)
{
    if (t->quiet) return;
    if (t->last_loc == l->id && t->last_val == v)
    {
        if (++t->unprod >= 6) { t->unprod = 0; spin_yield(t); }
    }
    else { t->last_loc = l->id; t->last_val = v; t->unprod = 0; }
}

// -------- race detection and lifetime checks
inline Cell* cells_of(uptr a)
{
    if (a - HEAP0 < HEAP_SZ + STK_ALL) return (Cell*)(CELL0 + (a - HEAP0) / 8 * sizeof(Cell));
    if (a - GLO0 < GLO_SZ) return (Cell*)(GCELL0 + (a - GLO0) / 8 * sizeof(Cell));
    return nullptr;
}

__attribute__((noinline, noreturn)) void report_race(Thr* t, uptr a, u32 pc, u8 flags, const Entry& e)
{
    char b[1024]; const char* where = a - HEAP0 < HEAP_SZ ? "heap" : a - STK0 < STK_ALL ? "stack or thread-local" : "global";
    snprintf(b, sizeof b, "data race on %s memory: %s%s by T%d @%x is not ordered with %s%s by T%d @%x;", where,
        flags & AF_ATOMIC ? "atomic " : "", flags & AF_WRITE ? "write" : "read", t->tid, pc,
        e.flags & AF_ATOMIC ? "atomic " : "", e.flags & AF_WRITE ? "write" : "read", e.tid, e.pc);
    violation("data-race", b, t);
}

inline void race_granule(Thr* t, uptr g, u8 mask, u8 flags, u32 pc)
{
    Cell* c = cells_of(g);
    if (!c) return;
    u32 clk = t->vc.v[t->tid];
    int slot = -1; bool same = false;
    for (int i = 0; i < NENT; i++)
    {
        Entry& e = c->e[i];
        if (!e.mask) { if (slot < 0) slot = i; continue; }
        if (e.tid == t->tid)
        {
            if (e.mask == mask && e.flags == flags) { if (e.clk == clk) return; slot = i; same = true; }
            else if (!same && (e.mask & ~mask) == 0 && !(e.flags & AF_ATOMIC) && (flags & AF_WRITE)) { slot = i; same = true; }
            continue;
        }
        if (!(e.mask & mask)) continue;
        if (!((e.flags | flags) & AF_WRITE)) continue;
        if ((e.flags & flags) & AF_ATOMIC) continue;
        if (e.clk > t->vc.v[e.tid]) report_race(t, g, pc, flags, e);
        // ordered before us and completely covered by this write: superseded
        if ((flags & AF_WRITE) && !(flags & AF_ATOMIC) && (e.mask & ~mask) == 0 && slot < 0) slot = i;
    }
    if (slot < 0)
    {
        // prefer to drop an entry that is ordered before us
        for (int i = 0; i < NENT && slot < 0; i++) if (c->e[i].clk <= t->vc.v[c->e[i].tid] && !(c->e[i].flags & AF_WRITE)) slot = i;
        for (int i = 0; i < NENT && slot < 0; i++) if (c->e[i].clk <= t->vc.v[c->e[i].tid]) slot = i;
        if (slot < 0) slot = (int)((t->macc ^ pc) % NENT);
    }
    c->e[slot] = { clk, pc, (u8)t->tid, mask, flags, 0 };
}
void race_range(Thr* t, uptr a, u64 n, u8 flags, u32 pc)
{
    while (n)
    {
        uptr g = a & ~7ull; u32 off = (u32)(a - g); u32 k = 8 - off; if (k > n) k = (u32)n;
        race_granule(t, g, (u8)(((1u << k) - 1) << off), flags, pc);
        a += k; n -= k;
    }
}

__attribute__((noinline, noreturn)) void report_dead(Thr* t, const char* what, bool write, u32 pc)
{
    char b[256]; snprintf(b, sizeof b, "%s %s by T%d @%x;", write ? "write to" : "read of", what, t->tid, pc);
    violation("dead-memory", b, t);
}
inline void life_check(Thr* t, uptr a, bool write, u32 pc)
{
    uptr o = a - HEAP0;
    if (o < HEAP_SZ)
    {
        u8 s = *(u8*)(HSH0 + o / 16);
        if (UNLIKELY(s != 1)) report_dead(t, s == 2 ? "freed heap memory" : "heap memory outside any block", write, pc);
        return;
    }
    o -= HEAP_SZ;
    if (o < STK_ALL)
    {
        u32 i = (u32)(o / STK_SZ);
        if (LIKELY(i == (u32)t->tid)) return;
        Thr* u = &g_thr[i];
        if (UNLIKELY(u->state == ST_DONE || u->state == 0)) report_dead(t, "memory of a thread that has exited", write, pc);
        if (UNLIKELY(u->sp && a < u->sp)) report_dead(t, "a stack frame that is no longer active", write, pc);
    }
}

inline void access(uptr a, u32 n, bool write, void* ra, uptr sp)
{
    Thr* t = self;
    if (!t || t->quiet) return;
    u32 pc = (u32)(uptr)ra;
    if (UNLIKELY(++t->macc >= t->mem_next)) { t->sp = sp; mem_preempt(t); }
    life_check(t, a, write, pc);
    if (C.race)
    {
        u32 off = (u32)(a & 7);
        if (LIKELY(off + n <= 8)) race_granule(t, a & ~7ull, (u8)(((1u << n) - 1) << off), write ? AF_WRITE : 0, pc);
        else race_range(t, a, n, write ? AF_WRITE : 0, pc);
    }
    if (write && UNLIKELY(g_filter[(a >> 3) & 0xffff])) dirty_locs(a, n);
    if (write) t->unprod = 0;
}
void access_range(uptr a, u64 n, bool write, void* ra, uptr sp)
{
    Thr* t = self;
    if (!t || t->quiet || !n) return;
    u32 pc = (u32)(uptr)ra;
    if (UNLIKELY(++t->macc >= t->mem_next)) { t->sp = sp; mem_preempt(t); }
    life_check(t, a, write, pc); life_check(t, a + n - 1, write, pc);
    if (a - HEAP0 < HEAP_SZ) for (u64 k = 16; k < n; k += 16) life_check(t, a + k, write, pc);
    if (C.race) race_range(t, a, n, write ? AF_WRITE : 0, pc);
    if (write) { if (g_nloc) dirty_locs(a, n); t->unprod = 0; }
}

// -------- atomic operations
#define FRAME ((uptr)__builtin_frame_address(0))
#define RA (__builtin_return_address(0))

inline void atomic_pre(Thr* t, uptr a, int sz, u8 flags, void* ra, uptr sp, u64 op)
{
    t->sp = sp;
    sched_point(t, 0xA000 + op);
    if (t->quiet) return;
    life_check(t, a, flags & AF_WRITE, (u32)(uptr)ra);
    if (C.race) race_range(t, a, (u64)sz, flags, (u32)(uptr)ra);
}

u64 at_load(uptr a, int sz, int mo, void* ra, uptr sp)
{
    Thr* t = self;
    if (!t) return mem_read(a, sz);
    atomic_pre(t, a, sz, AF_ATOMIC, ra, sp, 1);
    Loc* l = get_loc(a, sz);
    u64 v = l->val; int rel = newest_rel(l);
    if (l->h)
    {
        Hist* h = l->h; u32 newest = h->base + h->n - 1, lo = newest;
        u64 dist = 0;
        if (h->n > 1 && !t->quiet)
        {
            lo = read_floor(t, l, mo);
            if (lo < newest)
            {
                u64 maxd = newest - lo;
                dist = decide(t, SIM_D_STALE, 0, [&]() -> u64 {
                    if (g_fair || !g_faults || t->stale_run >= 4) return 0;
                    return g_rng.chance(C.p_stale) ? 1 + g_rng.below(maxd) : 0;
                });
                if (dist > maxd) dist = maxd;
            }
        }
        t->stale_run = dist ? t->stale_run + 1 : 0;
        u32 idx = newest - (u32)dist;
        Store& s = h->st[idx - h->base];
        v = s.val; rel = s.rel;
        note_read(t, l, idx);
    }
    acquire_from(t, rel, mo);
    hash_event(l->id * 31 + v * (sz == 8 && v - HEAP0 < HEAP_SZ + STK_ALL ? 0 : 1));
    hash_sched(l->id);
    unproductive(t, l, v);
    return v;
}
void at_store(uptr a, int sz, u64 v, int mo, void* ra, uptr sp)
{
    Thr* t = self;
    if (!t) { mem_write(a, sz, v); return; }
    atomic_pre(t, a, sz, AF_ATOMIC | AF_WRITE, ra, sp, 2);
    Loc* l = get_loc(a, sz);
    mem_write(a, sz, v);
    v = mem_read(a, sz);
    push_store(t, l, v, mo, -1);
    if (l->h) note_read(t, l, l->h->base + l->h->n - 1);
    hash_event(l->id * 37); hash_sched(l->id);
    t->unprod = 0; t->last_loc = 0;
}
template<typename F> u64 at_rmw(uptr a, int sz, int mo, void* ra, uptr sp, F f)
{
    Thr* t = self;
    if (!t) { u64 o = mem_read(a, sz); mem_write(a, sz, f(o)); return o; }
    atomic_pre(t, a, sz, AF_ATOMIC | AF_WRITE, ra, sp, 3);
    Loc* l = get_loc(a, sz);
    u64 o = l->val; int prev = newest_rel(l);
    acquire_from(t, prev, mo);
    int keep = prev >= 0 ? vc_new(g_vcs[prev]) : -1;
    mem_write(a, sz, f(o));
    u64 nv = mem_read(a, sz);
    push_store(t, l, nv, mo, keep);
    vc_del(keep);
    if (l->h) note_read(t, l, l->h->base + l->h->n - 1);
    hash_event(l->id * 41 + o * (sz == 8 && o - HEAP0 < HEAP_SZ + STK_ALL ? 0 : 1)); hash_sched(l->id);
    if (nv == o) unproductive(t, l, o); else { t->unprod = 0; t->last_loc = 0; }
    return o;
}
bool at_cas(uptr a, int sz, u64* expected, u64 desired, int mo, int fmo, bool weak, void* ra, uptr sp)
{
    Thr* t = self;
    if (!t) { u64 o = mem_read(a, sz); if (o == *expected) { mem_write(a, sz, desired); return true; } *expected = o; return false; }
    atomic_pre(t, a, sz, AF_ATOMIC | AF_WRITE, ra, sp, 4);
    Loc* l = get_loc(a, sz);
    u64 o = l->val; int prev = newest_rel(l);
    bool fail = o != *expected;
    if (!fail && weak && !t->quiet)
        fail = decide(t, SIM_D_CASFAIL, 0, [&]() -> u64 { return !g_fair && g_faults && g_rng.chance(C.p_casfail); }) != 0;
    if (fail)
    {
        acquire_from(t, prev, fmo);
        if (l->h) note_read(t, l, l->h->base + l->h->n - 1);
        *expected = o;
        hash_event(l->id * 43); hash_sched(l->id);
        unproductive(t, l, o);
        return false;
    }
    acquire_from(t, prev, mo);
    int keep = prev >= 0 ? vc_new(g_vcs[prev]) : -1;
    mem_write(a, sz, desired);
    push_store(t, l, mem_read(a, sz), mo, keep);
    vc_del(keep);
    if (l->h) note_read(t, l, l->h->base + l->h->n - 1);
    hash_event(l->id * 47); hash_sched(l->id);
    t->unprod = 0; t->last_loc = 0;
    return true;
}
void at_fence(int mo, uptr sp)
{
    Thr* t = self;
    if (!t) return;
    t->sp = sp;
    sched_point(t, 0xF000 + (u64)mo);
    if (is_acq(mo) && t->has_facq) { vc_join(t->vc, t->facq); }
    if (is_sc(mo))
    {
        vc_join(g_sc_fence, t->vc);
        t->scf = g_sc_fence; t->has_scf = true; t->scf_ts = ++g_scts;
    }
    if (is_rel(mo)) { t->frel = t->vc; tick(t); }
}

// ---------------------------------------------------------------- sync objects
struct Obj { uptr addr; int kind; int owner; int readers; int cnt; VC vc; bool used; int next; };
const u32 NOBJ = 1u << 15, OH = 1u << 14;
Obj* g_obj = nullptr; int* g_oh = nullptr; u32 g_nobj = 0;
enum { O_MUTEX = 1, O_RW, O_GUARD, O_ONCE };
Obj* get_obj(uptr a, int kind)
{
    u32 h = (u32)((a * 0x9E3779B97F4A7C15ull) >> 40) & (OH - 1);
    for (int i = g_oh[h]; i >= 0; i = g_obj[i].next) if (g_obj[i].addr == a && g_obj[i].kind == kind) return &g_obj[i];
    if (g_nobj >= NOBJ) { snprintf(R->msg, sizeof R->msg, "too many sync objects"); end_run(SIM_ERROR); }
    Obj* o = &g_obj[g_nobj]; o->addr = a; o->kind = kind; o->owner = -1; o->next = g_oh[h]; g_oh[h] = (int)g_nobj++;
    return o;
}
void obj_acquire(Thr* t, Obj* o) { vc_join(t->vc, o->vc); }
void obj_release(Thr* t, Obj* o) { o->vc = t->vc; tick(t); }
void obj_release_join(Thr* t, Obj* o) { vc_join(o->vc, t->vc); tick(t); }

void mutex_lock(Thr* t, Obj* o)
{
    while (o->owner >= 0)
    {
        if (o->owner == t->tid) { violation("deadlock", "a thread locks a mutex it already holds", t); }
        block(t, W_MUTEX, (void*)o->addr);
    }
    o->owner = t->tid; t->unprod = 0;
    obj_acquire(t, o);
}
void mutex_unlock(Thr* t, Obj* o)
{
    if (o->owner != t->tid) { violation("lock-misuse", "a thread unlocks a mutex it does not hold", t); }
    o->owner = -1;
    obj_release(t, o);
    wake_all(W_MUTEX, (void*)o->addr);
}
inline void life_obj(Thr* t, uptr a, void* ra) { if (!t->quiet) life_check(t, a, true, (u32)(uptr)ra); }

// ---------------------------------------------------------------- threads
pthread_key_t g_key; bool g_key_ok = false;

void thread_done(void* p)
{
    Thr* t = (Thr*)p;
    t->quiet++;
    count_step(t);
    t->state = ST_DONE; g_alive_sim--;
    hash_event(0xD07E);
    tick(t);
    wake_all(W_JOIN, t);
    self = nullptr;
    int def = rr_next(t->tid);
    while (def < 0) { if (!resolve_timed()) report_deadlock(t); def = rr_next(t->tid); }
    u64 v = decide(t, SIM_D_FORCED, (u64)def, [&] { int c = choose(t, true); return (u64)(c < 0 ? def : c); });
    if (v >= (u64)g_nthr_total || !runnable((int)v)) v = (u64)def;
    switch_to(t, (int)v);
}
void* trampoline(void* p)
{
    Thr* t = (Thr*)p;
    while (!__atomic_load_n(&t->run, __ATOMIC_ACQUIRE)) futex_wait_raw(&t->run, 0);
    t->run = 0;
    pthread_setspecific(g_key, t);
    self = t;
    return t->start(t->arg);
}
Thr* new_thread(Thr* parent)
{
    if (g_nthr_total >= MAXT) { snprintf(R->msg, sizeof R->msg, "too many threads"); end_run(SIM_ERROR); }
    int tid = g_nthr_total++;
    Thr* t = &g_thr[tid];
    memset((void*)t, 0, sizeof *t);
    t->tid = tid; t->state = ST_RUN;
    if (parent) t->vc = parent->vc;
    t->vc.v[tid] = 1;
    t->stk_lo = STK0 + STK_SZ * (u64)tid; t->stk_hi = t->stk_lo + STK_SZ;
    t->sp = t->stk_lo; // not started: anything goes
    t->prio = (1ull << 30) + (g_rng.next() >> 34);
    arm_mem(t);
    g_alive_sim++;
    return t;
}
int start_thread(Thr* t, pthread_t* out, void* (*f)(void*), void* arg)
{
    t->start = f; t->arg = arg;
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)t->stk_lo, STK_SZ);
    int r = REAL(pthread_create)(&t->pt, &at, trampoline, t);
    pthread_attr_destroy(&at);
    if (r == 0 && out) *out = t->pt;
    return r;
}

const char* signame(int s) { switch (s) { case SIGSEGV: return "crash-SIGSEGV"; case SIGABRT: return "abort"; case SIGFPE: return "crash-SIGFPE"; case SIGBUS: return "crash-SIGBUS"; case SIGILL: return "crash-SIGILL"; case SIGALRM: case SIGPROF: return "hang"; } return "signal"; }
void on_signal(int s, siginfo_t* si, void*)
{
    Thr* t = self; if (!t) t = g_cur;
    char b[256];
    snprintf(b, sizeof b, "signal %d%s", s, s == SIGALRM || s == SIGPROF ? ": a run did not end in the time limit without reaching a scheduling point" : "");
    (void)si;
    if (t) t->quiet++;
    violation(signame(s), b, t);
}

// there is no guard page between the stacks: recursion that does not end is reported while there is still room for it
const uptr STK_GUARD = 96ull << 10;
__attribute__((noinline, noreturn)) void stack_overflow(Thr* t) { t->quiet++; t->depth = t->depth < 256 ? t->depth : 256; violation("stack-overflow", "a thread runs out of stack", t); }

bool fault_alloc(Thr* t)
{
    if (t->quiet || t->noalloc || !g_alloc_faults) return false;
    u64 n = ++g_alloc_cnt;
    if (!C.replay_mode && C.p_alloc <= 0 && !C.alloc_at) { t->dcnt[SIM_D_ALLOC]++; return false; }
    return decide(t, SIM_D_ALLOC, 0, [&]() -> u64 {
        if (!g_faults || g_fair) return 0;
        if (C.alloc_at && n >= C.alloc_at && n < C.alloc_at + C.alloc_burst) return 1;
        return g_rng.chance(C.p_alloc);
    }) != 0;
}
void* op_new(size_t n, size_t al, bool nothrow, uptr sp)
{
    Thr* t = self;
    if (t) { t->sp = sp; if (fault_alloc(t)) { if (nothrow) return nullptr; t->noalloc++; struct G { Thr* t; ~G() { t->noalloc--; } } g{ t }; throw std::bad_alloc(); } }
    void* p = heap_alloc(n ? n : 1, al);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    return p;
}
void op_delete(void* p, void* ra)
{
    Thr* t = self;
    if (p && t && !t->quiet && g_on)
    {
        uptr a = (uptr)p;
        if (a - HEAP0 < HEAP_SZ)
        {
            u64 n = ((Hdr*)p - 1)->size; if (n > 512) n = 512;
            if (C.race && ((Hdr*)p - 1)->state == 0xA110C8ED) race_range(t, a, n, AF_WRITE, (u32)(uptr)ra);
        }
    }
    heap_free(p, true);
}

} // namespace

// ================================================================ exported: memory
EXPORT void* malloc(size_t n) { return heap_alloc(n, 16); }
EXPORT void free(void* p) { heap_free(p, false); }
EXPORT void* calloc(size_t a, size_t b) { size_t n = a * b; void* p = heap_alloc(n, 16); if (p) rep_set(p, 0, n); return p; }
EXPORT void* realloc(void* p, size_t n)
{
    if (!p) return heap_alloc(n, 16);
    void* q = heap_alloc(n, 16); if (!q) return nullptr;
    u64 o = ((Hdr*)p - 1)->size; rep_copy(q, p, o < n ? o : n); heap_free(p, false); return q;
}
EXPORT void* memalign(size_t al, size_t n) { return heap_alloc(n, al); }
EXPORT void* aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al); }
EXPORT int posix_memalign(void** o, size_t al, size_t n) { *o = heap_alloc(n, al); return *o ? 0 : ENOMEM; }
EXPORT size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p - 1)->size : 0; }

__attribute__((visibility("default"))) void* operator new(size_t n) { return op_new(n, 16, false, FRAME); }
__attribute__((visibility("default"))) void* operator new[](size_t n) { return op_new(n, 16, false, FRAME); }
__attribute__((visibility("default"))) void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, true, FRAME); }
__attribute__((visibility("default"))) void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, true, FRAME); }
__attribute__((visibility("default"))) void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false, FRAME); }
__attribute__((visibility("default"))) void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false, FRAME); }
__attribute__((visibility("default"))) void operator delete(void* p) noexcept { op_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete[](void* p) noexcept { op_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete(void* p, size_t) noexcept { op_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete[](void* p, size_t) noexcept { op_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete(void* p, std::align_val_t) noexcept { op_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete[](void* p, std::align_val_t) noexcept { op_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete(void* p, size_t, std::align_val_t) noexcept { op_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete(void* p, const std::nothrow_t&) noexcept { op_delete(p, RA); }
__attribute__((visibility("default"))) void operator delete[](void* p, const std::nothrow_t&) noexcept { op_delete(p, RA); }

EXPORT void* memcpy(void* d, const void* s, size_t n)
{
    if (UNLIKELY(self && n)) { access_range((uptr)s, n, false, RA, FRAME); access_range((uptr)d, n, true, RA, FRAME); }
    rep_copy(d, s, n); return d;
}
EXPORT void* memmove(void* d, const void* s, size_t n)
{
    if (UNLIKELY(self && n)) { access_range((uptr)s, n, false, RA, FRAME); access_range((uptr)d, n, true, RA, FRAME); }
    if ((uptr)d - (uptr)s >= n) rep_copy(d, s, n);
    else { u8* dd = (u8*)d; const u8* ss = (const u8*)s; while (n--) { dd[n] = ss[n]; __asm__ volatile("" ::: "memory"); } }
    return d;
}
EXPORT void* memset(void* d, int c, size_t n)
{
    if (UNLIKELY(self && n)) access_range((uptr)d, n, true, RA, FRAME);
    rep_set(d, c, n); return d;
}

// ================================================================ exported: instrumentation
#define ACC(name, n, w) EXPORT void __tsan_##name(void* a) { access((uptr)a, n, w, RA, FRAME); }
ACC(read1, 1, false) ACC(read2, 2, false) ACC(read4, 4, false) ACC(read8, 8, false) ACC(read16, 16, false)
ACC(write1, 1, true) ACC(write2, 2, true) ACC(write4, 4, true) ACC(write8, 8, true) ACC(write16, 16, true)
ACC(unaligned_read2, 2, false) ACC(unaligned_read4, 4, false) ACC(unaligned_read8, 8, false) ACC(unaligned_read16, 16, false)
ACC(unaligned_write2, 2, true) ACC(unaligned_write4, 4, true) ACC(unaligned_write8, 8, true) ACC(unaligned_write16, 16, true)
ACC(volatile_read1, 1, false) ACC(volatile_read2, 2, false) ACC(volatile_read4, 4, false) ACC(volatile_read8, 8, false) ACC(volatile_read16, 16, false)
ACC(volatile_write1, 1, true) ACC(volatile_write2, 2, true) ACC(volatile_write4, 4, true) ACC(volatile_write8, 8, true) ACC(volatile_write16, 16, true)
ACC(unaligned_volatile_read2, 2, false) ACC(unaligned_volatile_read4, 4, false) ACC(unaligned_volatile_read8, 8, false)
ACC(unaligned_volatile_write2, 2, true) ACC(unaligned_volatile_write4, 4, true) ACC(unaligned_volatile_write8, 8, true)
EXPORT void __tsan_read_range(void* a, size_t n) { access_range((uptr)a, n, false, RA, FRAME); }
EXPORT void __tsan_write_range(void* a, size_t n) { access_range((uptr)a, n, true, RA, FRAME); }
EXPORT void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((uptr)p, 8, true, RA, FRAME); }
EXPORT void __tsan_vptr_read(void** p) { access((uptr)p, 8, false, RA, FRAME); }
EXPORT void __tsan_func_entry(void* pc) { Thr* t = self; if (t) { if (UNLIKELY((uptr)FRAME - t->stk_lo < STK_GUARD)) stack_overflow(t); if (t->depth < 256) t->stack[t->depth] = (u32)(uptr)pc; t->depth++; (void)pc; } }
EXPORT void __tsan_func_exit(void) { Thr* t = self; if (t && t->depth) t->depth--; }
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_acquire(void*) {}
EXPORT void __tsan_release(void*) {}
EXPORT void __tsan_ignore_thread_begin(void) {}
EXPORT void __tsan_ignore_thread_end(void) {}

#define ATOMICS(N, TY) \
EXPORT TY __tsan_atomic##N##_load(const volatile TY* a, int mo) { return (TY)at_load((uptr)a, N / 8, mo, RA, FRAME); } \
EXPORT void __tsan_atomic##N##_store(volatile TY* a, TY v, int mo) { at_store((uptr)a, N / 8, (u64)v, mo, RA, FRAME); } \
EXPORT TY __tsan_atomic##N##_exchange(volatile TY* a, TY v, int mo) { return (TY)at_rmw((uptr)a, N / 8, mo, RA, FRAME, [=](u64) { return (u64)v; }); } \
EXPORT TY __tsan_atomic##N##_fetch_add(volatile TY* a, TY v, int mo) { return (TY)at_rmw((uptr)a, N / 8, mo, RA, FRAME, [=](u64 o) { return o + (u64)v; }); } \
EXPORT TY __tsan_atomic##N##_fetch_sub(volatile TY* a, TY v, int mo) { return (TY)at_rmw((uptr)a, N / 8, mo, RA, FRAME, [=](u64 o) { return o - (u64)v; }); } \
EXPORT TY __tsan_atomic##N##_fetch_and(volatile TY* a, TY v, int mo) { return (TY)at_rmw((uptr)a, N / 8, mo, RA, FRAME, [=](u64 o) { return o & (u64)v; }); } \
EXPORT TY __tsan_atomic##N##_fetch_or(volatile TY* a, TY v, int mo) { return (TY)at_rmw((uptr)a, N / 8, mo, RA, FRAME, [=](u64 o) { return o | (u64)v; }); } \
EXPORT TY __tsan_atomic##N##_fetch_xor(volatile TY* a, TY v, int mo) { return (TY)at_rmw((uptr)a, N / 8, mo, RA, FRAME, [=](u64 o) { return o ^ (u64)v; }); } \
EXPORT TY __tsan_atomic##N##_fetch_nand(volatile TY* a, TY v, int mo) { return (TY)at_rmw((uptr)a, N / 8, mo, RA, FRAME, [=](u64 o) { return ~(o & (u64)v); }); } \
EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile TY* a, TY* c, TY v, int mo, int f) { u64 e = *c; bool ok = at_cas((uptr)a, N / 8, &e, (u64)v, mo, f, false, RA, FRAME); if (!ok) *c = (TY)e; return ok; } \
EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile TY* a, TY* c, TY v, int mo, int f) { u64 e = *c; bool ok = at_cas((uptr)a, N / 8, &e, (u64)v, mo, f, true, RA, FRAME); if (!ok) *c = (TY)e; return ok; } \
EXPORT TY __tsan_atomic##N##_compare_exchange_val(volatile TY* a, TY c, TY v, int mo, int f) { u64 e = c; at_cas((uptr)a, N / 8, &e, (u64)v, mo, f, false, RA, FRAME); return (TY)e; }
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64)
EXPORT void __tsan_atomic_thread_fence(int mo) { at_fence(mo, FRAME); }
EXPORT void __tsan_atomic_signal_fence(int) {}

// ================================================================ exported: pthread
EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*f)(void*), void* arg)
{
    Thr* t = self;
    if (!t) return REAL(pthread_create)(out, attr, f, arg);
    t->sp = FRAME;
    sched_point(t, 0xC001);
    u64 n = ++g_create_cnt;
    u64 fail = decide(t, SIM_D_CREATE, 0, [&]() -> u64 { if (!g_faults || g_fair || t->quiet) return 0; if (C.create_at && n == C.create_at) return 1; return g_rng.chance(C.p_create); });
    if (fail) return EAGAIN;
    t->quiet++;
    Thr* c = new_thread(t);
    int r = start_thread(c, out, f, arg);
    t->quiet--;
    if (r) { snprintf(R->msg, sizeof R->msg, "real pthread_create failed: %d", r); end_run(SIM_ERROR); }
    tick(t);
    sched_point(t, 0xC002);
    return 0;
}
EXPORT int pthread_join(pthread_t p, void** ret)
{
    Thr* t = self;
    if (!t) return REAL(pthread_join)(p, ret);
    t->sp = FRAME;
    sched_point(t, 0xC003);
    Thr* o = nullptr;
    for (int i = 0; i < g_nthr_total; i++) if (g_thr[i].pt == p && !g_thr[i].joined) o = &g_thr[i];
    if (!o) return ESRCH;
    if (o == t) return EDEADLK;
    while (o->state != ST_DONE) block(t, W_JOIN, o);
    o->joined = true;
    vc_join(t->vc, o->vc);
    t->quiet++;
    int r = REAL(pthread_join)(p, ret);
    t->quiet--;
    return r;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m)
{
    Thr* t = self; if (!t) return REAL(pthread_mutex_lock)(m);
    t->sp = FRAME; sched_point(t, 0xB001); life_obj(t, (uptr)m, RA);
    Obj* o = get_obj((uptr)m, O_MUTEX); mutex_lock(t, o); hash_sched(0x51); return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m)
{
    Thr* t = self; if (!t) return REAL(pthread_mutex_trylock)(m);
    t->sp = FRAME; sched_point(t, 0xB002); life_obj(t, (uptr)m, RA);
    Obj* o = get_obj((uptr)m, O_MUTEX);
    if (o->owner >= 0) { if (!t->quiet && ++t->unprod >= 6) { t->unprod = 0; spin_yield(t); } return EBUSY; }
    mutex_lock(t, o); return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m)
{
    Thr* t = self; if (!t) return REAL(pthread_mutex_unlock)(m);
    t->sp = FRAME; life_obj(t, (uptr)m, RA);
    mutex_unlock(t, get_obj((uptr)m, O_MUTEX));
    sched_point(t, 0xB003);
    return 0;
}
static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uptr sp, void* ra)
{
    Thr* t = self;
    t->sp = sp; sched_point(t, 0xB004); life_obj(t, (uptr)c, ra);
    Obj* o = get_obj((uptr)m, O_MUTEX);
    mutex_unlock(t, o);
    t->timed = timed; t->timed_out = false;
    hash_sched(0x52);
    block(t, W_COND, c);
    t->timed = false;
    bool to = t->timed_out; t->timed_out = false;
    mutex_lock(t, o);
    return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!self) return REAL(pthread_cond_wait)(c, m); return cond_wait_impl(c, m, false, FRAME, RA); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!self) return REAL(pthread_cond_timedwait)(c, m, ts); return cond_wait_impl(c, m, true, FRAME, RA); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (!self) return REAL(pthread_cond_clockwait)(c, m, k, ts); return cond_wait_impl(c, m, true, FRAME, RA); }
static void cond_wake(Thr* t, const void* c, int kind, u64 n)
{
    while (n)
    {
        int w[MAXT], k = 0;
        for (int i = 0; i < g_nthr_total; i++) if (g_thr[i].state == ST_BLOCK && g_thr[i].wait_kind == kind && g_thr[i].wait_obj == c)
        { int j = k++; while (j > 0 && g_thr[w[j - 1]].wait_seq > g_thr[i].wait_seq) { w[j] = w[j - 1]; j--; } w[j] = i; }
        if (!k) return;
        u64 pick = k > 1 && n < (u64)k ? decide(t, SIM_D_NOTIFY, 0, [&]() -> u64 { return g_fair || t->quiet ? 0 : g_rng.below((u64)k); }) : 0;
        if (pick >= (u64)k) pick = 0;
        make_runnable(&g_thr[w[pick]]);
        n--;
    }
}
EXPORT int pthread_cond_signal(pthread_cond_t* c)
{
    Thr* t = self; if (!t) return REAL(pthread_cond_signal)(c);
    t->sp = FRAME; sched_point(t, 0xB005); life_obj(t, (uptr)c, RA); cond_wake(t, c, W_COND, 1); hash_sched(0x53); return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c)
{
    Thr* t = self; if (!t) return REAL(pthread_cond_broadcast)(c);
    t->sp = FRAME; sched_point(t, 0xB006); life_obj(t, (uptr)c, RA); cond_wake(t, c, W_COND, ~0ull); hash_sched(0x54); return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c) { if (!self) return REAL(pthread_cond_destroy)(c); return 0; }
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) { if (!self) return REAL(pthread_mutex_destroy)(m); return 0; }

static void rw_wake(uptr a) { wake_all(W_RW, (void*)a); }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    Thr* t = self; if (!t) return REAL(pthread_rwlock_rdlock)(m);
    t->sp = FRAME; sched_point(t, 0xB010); Obj* o = get_obj((uptr)m, O_RW);
    while (o->owner >= 0) block(t, W_RW, m);
    o->readers++; obj_acquire(t, o); return 0;
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    Thr* t = self; if (!t) return REAL(pthread_rwlock_tryrdlock)(m);
    t->sp = FRAME; sched_point(t, 0xB011); Obj* o = get_obj((uptr)m, O_RW);
    if (o->owner >= 0) { spin_yield(t); return EBUSY; }
    o->readers++; obj_acquire(t, o); return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    Thr* t = self; if (!t) return REAL(pthread_rwlock_wrlock)(m);
    t->sp = FRAME; sched_point(t, 0xB012); Obj* o = get_obj((uptr)m, O_RW);
    while (o->owner >= 0 || o->readers) block(t, W_RW, m);
    o->owner = t->tid; obj_acquire(t, o); return 0;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    Thr* t = self; if (!t) return REAL(pthread_rwlock_trywrlock)(m);
    t->sp = FRAME; sched_point(t, 0xB013); Obj* o = get_obj((uptr)m, O_RW);
    if (o->owner >= 0 || o->readers) { spin_yield(t); return EBUSY; }
    o->owner = t->tid; obj_acquire(t, o); return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    Thr* t = self; if (!t) return REAL(pthread_rwlock_unlock)(m);
    t->sp = FRAME; Obj* o = get_obj((uptr)m, O_RW);
    if (o->owner == t->tid) { o->owner = -1; obj_release(t, o); } else { o->readers--; obj_release_join(t, o); }
    rw_wake((uptr)m); sched_point(t, 0xB014); return 0;
}
EXPORT int pthread_once(pthread_once_t* c, void (*f)(void))
{
    Thr* t = self; if (!t) return REAL(pthread_once)(c, f);
    t->sp = FRAME; sched_point(t, 0xB020); Obj* o = get_obj((uptr)c, O_ONCE);
    if (*(volatile int*)c == 2 && o->cnt == 0) o->cnt = 2;
    while (o->cnt == 1) block(t, W_ONCE, c);
    if (o->cnt == 2) { obj_acquire(t, o); return 0; }
    o->cnt = 1;
    struct G { Obj* o; Thr* t; pthread_once_t* c; bool ok = false; ~G() { o->cnt = ok ? 2 : 0; if (ok) obj_release(t, o); wake_all(W_ONCE, c); } } g{ o, t, c };
    f();
    g.ok = true;
    return 0;
}

// function-local statics
EXPORT int __cxa_guard_acquire(u64* g)
{
    u8* b = (u8*)g; Thr* t = self;
    if (!t) { if (b[0]) return 0; b[1] = 1; return 1; }
    t->sp = FRAME;
    sched_point(t, 0xB030);
    Obj* o = get_obj((uptr)g, O_GUARD);
    while (!b[0] && b[1]) block(t, W_GUARD, g);
    if (b[0]) { obj_acquire(t, o); return 0; }
    b[1] = 1; return 1;
}
EXPORT void __cxa_guard_release(u64* g)
{
    u8* b = (u8*)g; Thr* t = self;
    b[1] = 0;
    if (!t) { b[0] = 1; return; }
    t->sp = FRAME;
    Obj* o = get_obj((uptr)g, O_GUARD);
    t->quiet++; at_store((uptr)b, 1, 1, __ATOMIC_RELEASE, RA, FRAME); t->quiet--;
    obj_release(t, o); wake_all(W_GUARD, g);
}
EXPORT void __cxa_guard_abort(u64* g)
{
    u8* b = (u8*)g; b[1] = 0; Thr* t = self;
    if (t) { obj_release(t, get_obj((uptr)g, O_GUARD)); wake_all(W_GUARD, g); }
}

// ================================================================ exported: misc system seams
EXPORT int sched_yield(void)
{
    Thr* t = self; if (!t) return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    t->sp = FRAME;
    if (t->quiet) return 0;
    hash_event(0xE1E1D ^ ((u64)t->tid << 56));
    maybe_spurious(t);
    t->unprod = 0;
    spin_yield(t);
    return 0;
}
EXPORT long syscall(long n, ...)
{
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    Thr* t = self;
    if (t && n == SYS_futex)
    {
        int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        t->sp = FRAME;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            sched_point(t, 0xB040);
            if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
            t->timed = d != 0; t->timed_out = false;
            block(t, W_FUTEX, (void*)a);
            t->timed = false;
            if (t->timed_out) { t->timed_out = false; errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { sched_point(t, 0xB041); cond_wake(t, (void*)a, W_FUTEX, (u64)(c < 0 ? 0 : c)); return 0; }
    }
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
EXPORT int get_nprocs(void) { return (int)g_nprocs; }
static int sim_sleep() { Thr* t = self; t->sp = FRAME; R->vtime += 1000000; t->unprod = 0; spin_yield(t); return 0; }
EXPORT int nanosleep(const struct timespec* a, struct timespec* b) { if (!self) return (int)raw6(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0); return sim_sleep(); }
EXPORT int clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b) { if (!self) return (int)raw6(SYS_clock_nanosleep, k, f, (long)a, (long)b, 0, 0); return sim_sleep(); }
EXPORT int clock_gettime(clockid_t k, struct timespec* ts)
{
    if (!self) { long r = raw6(SYS_clock_gettime, k, (long)ts, 0, 0, 0, 0); return (int)r; }
    u64 v = R->vtime; ts->tv_sec = 1000000 + (long)(C.env % 100000007) + (long)(v / 1000000000ull); ts->tv_nsec = (long)(v % 1000000000ull); return 0;
}

// what another execution of the same program would get other values from
static u64 env_next() { return g_env.next(); }
EXPORT unsigned _ZNSt13random_device9_M_getvalEv(void*) { return (unsigned)env_next(); }
EXPORT ssize_t getrandom(void* p, size_t n, unsigned f)
{
    if (!self) { long r = raw6(SYS_getrandom, (long)p, (long)n, f, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return r; }
    for (size_t i = 0; i < n; i++) ((volatile u8*)p)[i] = (u8)env_next();
    return (ssize_t)n;
}
EXPORT int getentropy(void* p, size_t n) { return getrandom(p, n, 0) < 0 ? -1 : 0; }
EXPORT pid_t getpid(void) { return self ? (pid_t)(2 + C.env % 30011) : (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0); }
EXPORT time_t time(time_t* t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
EXPORT int gettimeofday(struct timeval* __restrict tv, void* __restrict) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }

// ================================================================ exported: simulation control
EXPORT void sim_init_shared(SimResult* r) { R = r; }

struct RunArg { void (*fn)(void*); void* arg; };
static void* run_main(void* p)
{
    RunArg* a = (RunArg*)p;
    a->fn(a->arg);
    Thr* t = self; t->quiet++;
    end_run(SIM_OK);
}
EXPORT int sim_run(const SimConfig* cfg, void (*fn)(void*), void* arg)
{
    C = *cfg;
    if (!C.soft_steps) C.soft_steps = 200000;
    if (!C.hard_steps) C.hard_steps = 400000;
    if (!C.alloc_burst) C.alloc_burst = 1;
    if (!g_mem_ready) mem_init();
    R->hash = 0x1234; R->sched_hash = 0x4321;
    g_rng.s = C.seed;
    g_nprocs = C.nprocs;
    g_loc = (Loc*)raw_map(sizeof(Loc) * NLOC + sizeof(Hist) * 6001);
    g_lh = (int*)raw_map(LH * sizeof(int)); for (u32 i = 0; i < LH; i++) g_lh[i] = -1;
    g_vcs = (VC*)raw_map(sizeof(VC) * NVC);
    g_obj = (Obj*)raw_map(sizeof(Obj) * NOBJ); g_oh = (int*)raw_map(OH * sizeof(int)); for (u32 i = 0; i < OH; i++) g_oh[i] = -1;
    if (C.replay_mode) build_replay();
    if (!C.quantum) C.quantum = 1;
    if (C.strategy == SIM_S_PCT) { g_pct_n = C.pct_depth > 64 ? 64 : C.pct_depth; for (u32 i = 0; i < g_pct_n; i++) g_pct_at[i] = g_rng.below(C.pct_len ? C.pct_len : 1000); }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGPROF }) sigaction(s, &sa, nullptr);
    if (!g_key_ok) { pthread_key_create(&g_key, thread_done); g_key_ok = true; }
    if (g_bump >= SIMHEAP0) { fprintf(stderr, "driver used too much memory\n"); _exit(97); }
    g_bump = SIMHEAP0 + (C.env % 1009) * 4112; g_env.s = C.env; memset(g_free, 0, sizeof g_free); g_qh = g_qt = 0; g_qbytes = 0; g_live = 0;
    g_on = true;
    static RunArg ra; ra = { fn, arg };
    Thr* t = new_thread(nullptr);
    g_cur = t;
    t->run = 1;
    pthread_t p;
    int r = start_thread(t, &p, run_main, &ra);
    if (r) return r;
    REAL(pthread_join)(p, nullptr);
    return 0;
}
EXPORT void sim_fail(const char* cls, const char* msg) { violation(cls, msg, self); }
EXPORT void sim_skip(const char* msg) { Thr* t = self; if (t) t->quiet++; snprintf(R->msg, sizeof R->msg, "%s", msg); end_run(SIM_SKIP); }
EXPORT void sim_finish_ok(void) { Thr* t = self; if (t) t->quiet++; end_run(SIM_OK); }
EXPORT void sim_quiet_enter(void) { Thr* t = self; if (t) t->quiet++; }
EXPORT void sim_quiet_exit(void) { Thr* t = self; if (t) t->quiet--; }
EXPORT void sim_yield(void) { sched_yield(); }
EXPORT int sim_user_fault(double p)
{
    Thr* t = self; if (!t) return 0;
    return (int)decide(t, SIM_D_USER, 0, [&]() -> u64 { return g_faults && !g_fair && g_rng.chance(p); });
}
EXPORT int sim_active(void) { return self != nullptr; }
EXPORT int sim_faults_on(void) { return g_faults && !g_fair; }
EXPORT void sim_faults_enable(int on) { g_faults = on; }
EXPORT int sim_alloc_faults_enable(int on) { int o = g_alloc_faults; g_alloc_faults = on; return o; }
EXPORT void sim_probe(int i) { if (R && i >= 0 && i < SIM_PROBES) R->probes[i]++; }
EXPORT void sim_event(uint64_t v) { if (self) hash_event(v ^ 0x5A5A); }
EXPORT uint64_t sim_seq(void) { return ++g_seq; }
EXPORT int sim_tid(void) { return self ? self->tid : -1; }
EXPORT uint64_t sim_rng_filter(uint64_t raw)
{
    Thr* t = self; if (!t || t->quiet) return raw;
    R->rng_draws++;
    if (C.p_rng <= 0 && !C.replay_mode) { t->dcnt[SIM_D_RNG]++; return raw; }
    u64 v = decide(t, SIM_D_RNG, 0, [&]() -> u64 { return g_faults && !g_fair && g_rng.chance(C.p_rng) ? 1 + g_rng.below(6) : 0; });
    switch (v)
    {
    case 0: return raw;
    case 1: return 0;
    case 2: return ~0ull;
    case 3: return raw >> 52;            // tiny
    case 4: return ~(raw >> 52);         // huge
    case 5: return 1ull << 63;
    default: return (1ull << 63) - 1;
    }
}
EXPORT void sim_set_nprocs(uint32_t n) { g_nprocs = n; }
EXPORT uint64_t sim_live_blocks(void) { return g_live; }
EXPORT uint64_t sim_fired(int kind) { return R->fired[kind]; }
EXPORT void sim_expect_exit(void) { g_expect_exit = true; }
EXPORT int sim_blocked_threads(void) { int n = 0; for (int i = 0; i < g_nthr_total; i++) n += g_thr[i].state == ST_BLOCK; return n; }
EXPORT void sim_exclusive_check(const void*, size_t, int) {}

static void at_exit_hook(void)
{
    if (!g_on || !self) return;
    self->quiet++;
    if (g_expect_exit) end_run(SIM_OK);
    violation("unexpected-exit", "the program called exit()", self);
}
__attribute__((constructor)) static void rt_ctor() { atexit(at_exit_hook); }
