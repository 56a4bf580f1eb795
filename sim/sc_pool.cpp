// C01-C04: the thread pool and its parallel loops.
#include "harness.hpp"
#include <utility/thread_pool.hpp>
#include <thread>
#include <memory>
#include <algorithm>

using namespace gapp;
using gapp::detail::thread_pool;

namespace {

struct UserError { int loop; long elem; };

struct LoopRec {
    int id; size_t n;
    std::vector<long> count, data;      // written by the bodies without synchronisation
    int active = 0; bool ended = false; int calls = 0; int thrown = 0;
    std::vector<char> threw, busy;
};

struct World {
    Ctx& ctx;
    thread_pool* pool;                  // nullptr: the library's global pool
    std::vector<std::unique_ptr<LoopRec>> loops;
    int next_id = 0;
    double p_throw = 0, p_yield = 0;
    long budget = 600;                  // bounds the total number of body calls
    bool may_alloc_fail = false;
    World(Ctx& c) : ctx(c), pool(nullptr) {}

    // loops draw their parameters from a per-loop generator: independent of the schedule
    LoopRec* make(Prng& p, int depth)
    {
        NoSim _;
        loops.push_back(std::make_unique<LoopRec>());
        LoopRec* r = loops.back().get();
        r->id = next_id++;
        static const int sizes[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 24, 31, 40, 63, 70 };
        r->n = (size_t)sizes[p.below(depth ? 9 : 19)];
        r->count.assign(r->n, 0); r->data.assign(r->n, 0); r->threw.assign(r->n, 0); r->busy.assign(r->n, 0);
        return r;
    }

    void body(LoopRec* r, long i, uint64_t seed, int depth)
    {
        {
            NoSim _;
            r->calls++; r->active++;
            if (r->ended) failf("body-after-return", "loop %d: body called for element %ld after the loop had already returned", r->id, i);
            if (i < 0 || (size_t)i >= r->n) failf("bad-element", "loop %d: body called with element %ld outside of [0, %zu)", r->id, i, r->n);
            if (r->busy[(size_t)i]++) failf("processed-twice", "loop %d: element %ld processed more than once", r->id, i);
        }
        struct Leave { LoopRec* r; ~Leave() { NoSim _; r->active--; if (r->ended) failf("body-after-return", "loop %d: a body call was still running when the loop returned", r->id); } } leave{ r };
        Prng p(seed + (uint64_t)i * 7919);
        if (p.chance(p_yield)) sim_yield();
        r->count[(size_t)i]++;
        if (depth > 0 && p.chance(0.25)) nested(p.next(), depth - 1);
        if (sim_user_fault(p_throw)) { { NoSim _; r->threw[(size_t)i] = 1; r->thrown++; } throw UserError{ r->id, i }; }
        if (p.chance(p_yield)) sim_yield();
        r->data[(size_t)i] = i * 3 + 1;
    }

    void nested(uint64_t seed, int depth) { NoSim* none = nullptr; (void)none; PROBE("nested loop"); loop(seed, depth); }

    template<typename It, typename F> void exec(It a, It b, size_t bs, bool dflt, F&& f)
    {
        if (pool) pool->execute_loop(a, b, bs, std::forward<F>(f));
        else if (dflt) detail::parallel_for(a, b, std::forward<F>(f));
        else detail::parallel_for(a, b, bs, std::forward<F>(f));
    }

    // one complete loop with all of its checks; rethrows what the loop threw
    void loop(uint64_t seed, int depth)
    {
        Prng p(seed);
        LoopRec* r = make(p, depth < 2 ? 1 : 0);
        { NoSim _; if (loops.size() > 400) sim_skip("workload too large"); }
        static const size_t bss[] = { 1, 1, 1, 2, 3, 5, 8, 20, 64, 80 };
        size_t bs = bss[p.below(10)]; int style = (int)p.below(3); bool dflt = bs == 1 && p.chance(0.5);
        uint64_t bseed = p.next();
        try
        {
            if (style == 0)
            {
                exec(detail::iota_iterator(0_sz), detail::iota_iterator(r->n), bs, dflt, [&](size_t i) { body(r, (long)i, bseed, depth); });
            }
            else if (style == 1)
            {
                long* base = r->count.data();
                exec(r->count.begin(), r->count.end(), bs, dflt, [&](long& e) { body(r, &e - base, bseed, depth); });
            }
            else
            {
                long* base = r->data.data();
                auto fn = [&](long& e) { body(r, &e - base, bseed, depth); };
                exec(base, base + r->n, bs, dflt, fn);
            }
        }
        catch (const UserError& e) { after(r, 1, e.loop, e.elem); throw; }
        catch (const std::bad_alloc&) { after(r, 2, 0, 0); throw; }
        after(r, 0, 0, 0);
        // everything the bodies wrote is visible now (the race detector watches these reads)
        for (size_t i = 0; i < r->n; i++)
        {
            long c = r->count[i], d = r->data[i];
            CHECK(c == 1, "not-exactly-once", "loop %d (n=%zu, block %zu): element %zu was processed %ld times", r->id, r->n, bs, i, c);
            CHECK(d == (long)i * 3 + 1, "effect-missing", "loop %d: the write of element %zu is missing after the loop returned", r->id, i);
        }
        NoSim _;
        if (r->thrown) failf("exception-lost", "loop %d: %d body calls threw but the loop returned normally", r->id, r->thrown);
    }

    void after(LoopRec* r, int kind, int loop, long elem)
    {
        NoSim _;
        r->ended = true;
        if (r->active) failf("body-after-return", "loop %d returned%s while %d body calls were still running", r->id, kind ? " (exception)" : "", r->active);
        if (kind == 0) { if (r->calls != (int)r->n) failf("not-exactly-once", "loop %d: %d body calls for %zu elements", r->id, r->calls, r->n); }
        if (kind == 1)
        {
            // the exception must stem from a body of this loop: one it threw itself or one a nested loop let through
            if (loop == r->id) { if (elem < 0 || (size_t)elem >= r->n || !r->threw[(size_t)elem]) failf("wrong-exception", "loop %d reports an exception for element %ld that never threw", r->id, elem); }
            else if (loop < r->id) failf("wrong-exception", "loop %d threw an exception that belongs to the unrelated loop %d", r->id, loop);
            PROBE("loop threw user exception");
            if (r->thrown > 1) PROBE("several bodies threw");
        }
        if (kind == 2)
        {
            if (!may_alloc_fail || !sim_fired(SIM_D_ALLOC)) failf("wrong-exception", "loop %d threw bad_alloc without an allocation failure", r->id);
            PROBE("loop failed to dispatch");
        }
    }
};

void setup_plain(Ctx& c) { c.cfg.race = 1; }

void set_threads(World& w, std::unique_ptr<thread_pool>& local, Prng& p)
{
    size_t n = (size_t)p.range(1, 6);
    if (p.chance(0.5))
    {
        if (p.chance(0.4)) { sim_set_nprocs((uint32_t)n); local = std::make_unique<thread_pool>(); }
        else { local = std::make_unique<thread_pool>(); local->thread_count(n); }
        w.pool = local.get();
    }
    else execution_threads(n);
    size_t got = w.pool ? w.pool->thread_count() : execution_threads();
    CHECK(got == n, "wrong-thread-count", "%zu execution threads were requested, %zu are reported", n, got);
}

void run_loops(Ctx& ctx, double p_throw, bool alloc)
{
    Prng& p = ctx.rng;
    World w(ctx);
    w.p_yield = p.chance(0.5) ? 0.3 : 0;
    std::unique_ptr<thread_pool> local;
    sim_alloc_faults_enable(0);
    set_threads(w, local, p);
    w.p_throw = p_throw; w.may_alloc_fail = alloc;
    int nloops = p.range(1, 3), callers = p.chance(0.35) ? p.range(1, 2) : 0, depth = p.chance(0.4) ? p.range(1, 2) : 0;
    sim_alloc_faults_enable(alloc);
    auto work = [&](uint64_t seed)
    {
        Prng q(seed);
        for (int i = 0; i < nloops; i++)
        {
            uint64_t s = q.next();
            try { w.loop(s, depth); } catch (const UserError&) {} catch (const std::bad_alloc&) {}
        }
    };
    {
        std::vector<std::thread> ts;
        { int o = sim_alloc_faults_enable(0); ts.reserve(4); for (int i = 0; i < callers; i++) { uint64_t s = p.next(); ts.emplace_back([&work, s] { work(s); }); } sim_alloc_faults_enable(o && alloc); }
        if (callers) PROBE("concurrent callers");
        work(p.next());
        for (auto& t : ts) t.join();
    }
    // faults stop: the pool must still work
    sim_alloc_faults_enable(0);
    sim_faults_enable(0);
    w.p_throw = 0; w.may_alloc_fail = false;
    w.loop(p.next(), 0);
    if (w.pool && p.chance(0.7)) { local.reset(); }
}

SCENARIO(C01, loops, 3, false, setup_plain, "loops with random ranges, block sizes, iterators, nesting and concurrent callers; every element counted")
{
    run_loops(ctx, 0, false);
}

void setup_throw(Ctx& c) { c.cfg.race = c.rng.chance(0.5); c.cfg.soft_steps = 100000; }
SCENARIO(C02, throwing, 3, false, setup_throw, "bodies throw at points chosen by the fault injector")
{
    static const double ps[] = { 0.01, 0.05, 0.2, 1.0 };
    run_loops(ctx, ps[ctx.rng.below(4)], false);
}
void setup_dispatch(Ctx& c) { c.cfg.alloc_at = 1 + c.rng.below(1ull << (1 + c.rng.below(6))); c.cfg.alloc_burst = 1 + c.rng.below(3); c.cfg.p_alloc = c.rng.chance(0.3) ? 0.1 : 0; c.cfg.race = c.rng.chance(0.5); }
SCENARIO(C02, dispatch_fails, 2, false, setup_dispatch, "allocation failures while blocks are handed to workers, with and without throwing bodies")
{
    run_loops(ctx, ctx.rng.chance(0.5) ? 0 : 0.05, true);
}

// ---------------------------------------------------------------- C03
void setup_live(Ctx& c) { c.cfg.p_spurious = c.rng.chance(0.6) ? 0.05 : 0; c.cfg.soft_steps = 30000; c.cfg.hard_steps = 300000; }
SCENARIO(C03, loops, 2, false, setup_live, "nested loops and concurrent callers with stalled threads and spurious wakeups must end")
{
    Prng& p = ctx.rng;
    World w(ctx);
    w.p_yield = p.chance(0.5) ? 0.5 : 0.1;
    std::unique_ptr<thread_pool> local;
    set_threads(w, local, p);
    int callers = p.range(0, 2), depth = p.range(0, 2);
    {
        std::vector<std::thread> ts;
        for (int i = 0; i < callers; i++) { uint64_t s = p.next(); ts.emplace_back([&w, s, depth] { w.loop(s, depth); }); }
        w.loop(p.next(), depth);
        for (auto& t : ts) t.join();
    }
    local.reset();
}
SCENARIO(C03, lifecycle, 2, false, setup_live, "pools created, resized, used and destroyed at once; workers that never got to start")
{
    Prng& p = ctx.rng;
    World w(ctx);
    int rounds = p.range(1, 4);
    for (int k = 0; k < rounds; k++)
    {
        sim_set_nprocs((uint32_t)p.range(0, 5));
        thread_pool pool;
        if (p.chance(0.6)) pool.thread_count((size_t)p.range(1, 5));
        w.pool = &pool;
        if (p.chance(0.6)) w.loop(p.next(), p.chance(0.3) ? 1 : 0);
        if (p.chance(0.3)) pool.thread_count((size_t)p.range(1, 5));
        if (p.chance(0.4)) w.loop(p.next(), 0);
    }
}
SCENARIO(C03, exit, 1, false, setup_live, "the process exits while the global workers exist: static destruction must end")
{
    Prng& p = ctx.rng;
    static World* w; w = new World(ctx);
    execution_threads((size_t)p.range(1, 6));
    if (p.chance(0.8)) w->loop(p.next(), p.chance(0.3) ? 1 : 0);
    sim_expect_exit();
    exit(0);
}

// ---------------------------------------------------------------- C04
// how many different threads execute the bodies of a loop
size_t threads_used(thread_pool* pool, size_t n)
{
    std::vector<int> who(n, -1);
    auto f = [&](size_t i) { who[i] = sim_tid(); };
    if (pool) pool->execute_loop(detail::iota_iterator(0_sz), detail::iota_iterator(n), 1, f);
    else detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(n), f);
    NoSim _;
    for (size_t i = 0; i < n; i++) if (who[i] < 0) failf("not-exactly-once", "element %zu was not processed", i);
    std::sort(who.begin(), who.end());
    return (size_t)(std::unique(who.begin(), who.end()) - who.begin());
}
void setup_cfg(Ctx& c) { c.cfg.race = c.rng.chance(0.3); c.cfg.soft_steps = 60000; }
void setup_create(Ctx& c) { setup_cfg(c); c.cfg.create_at = 1 + c.rng.below(c.rng.chance(0.5) ? 5 : 16); c.cfg.p_create = c.rng.chance(0.4) ? 0.15 : 0; }
void reconfigure(Ctx& ctx)
{
    Prng& p = ctx.rng;
    World w(ctx);
    std::unique_ptr<thread_pool> local;
    bool global = p.chance(0.5);
    if (!global)
    {
        uint32_t np = (uint32_t)p.range(0, 4); sim_set_nprocs(np);
        try { local = std::make_unique<thread_pool>(); }
        catch (const std::system_error&) { CHECK(sim_fired(SIM_D_CREATE), "wrong-exception", "creating the pool failed without a fault"); PROBE("pool construction failed"); sim_set_nprocs(1); local = std::make_unique<thread_pool>(); np = 1; }
        w.pool = local.get();
        CHECK(local->thread_count() == std::max(np, 1u), "wrong-thread-count", "hardware concurrency %u, but %zu execution threads by default", np, local->thread_count());
    }
    size_t cur = w.pool ? w.pool->thread_count() : execution_threads();
    int steps = p.range(1, 8), total = 0;
    for (int i = 0; i < steps; i++)
    {
        size_t n = (size_t)p.range(global ? 0 : 1, 7);
        total += (int)n; if (total > 34) break;
        uint64_t before = sim_fired(SIM_D_CREATE);
        try
        {
            if (w.pool) w.pool->thread_count(n); else execution_threads(n);
            cur = std::max<size_t>(n, 1);
            size_t got = w.pool ? w.pool->thread_count() : execution_threads();
            CHECK(got == cur, "wrong-thread-count", "%zu execution threads were requested, %zu are reported", n, got);
        }
        catch (const std::system_error&)
        {
            CHECK(sim_fired(SIM_D_CREATE) > before, "wrong-exception", "setting the thread count failed although no thread creation failed");
            PROBE("reconfiguration failed");
            cur = w.pool ? w.pool->thread_count() : execution_threads();
            // whatever the count is now, it has to be a working configuration
        }
        if (p.chance(0.7)) w.loop(p.next(), p.chance(0.2) ? 1 : 0);
        if (p.chance(0.5))
        {
            size_t used = threads_used(w.pool, 24);
            CHECK(used <= cur, "too-many-threads", "%zu threads executed a loop although %zu execution threads are set", used, cur);
            if (cur <= 24 && used < std::min<size_t>(cur, 2)) { /* the caller may take part as well: fewer is allowed */ }
        }
    }
    sim_faults_enable(0);
    // the library is still fully usable and reconfigurable
    w.loop(p.next(), 0);
    size_t n = (size_t)p.range(1, 4);
    if (w.pool) w.pool->thread_count(n); else execution_threads(n);
    CHECK((w.pool ? w.pool->thread_count() : execution_threads()) == n, "wrong-thread-count", "final reconfiguration to %zu threads not effective", n);
    w.loop(p.next(), 0);
    local.reset();
}
SCENARIO(C04, histories, 2, false, setup_cfg, "sequences of thread count changes interleaved with loops") { reconfigure(ctx); }
SCENARIO(C04, create_fails, 3, false, setup_create, "as histories, with thread creation failing at chosen points") { reconfigure(ctx); }

} // namespace
