// Simulated runs of whole GAs: C05-C07, C09-C11, C13-C16, C19, C20.
#include "ga.hpp"
#include <utility/rng.hpp>
#include <utility/thread_pool.hpp>
#include <thread>
#include <algorithm>

using namespace gapp;
using namespace sim;

namespace {

void seed_rng(uint64_t s) { gapp::rng::prng.seed(s); }

struct Job {
    Config c; std::vector<Problem> q; Obs obs; std::unique_ptr<Box> box; int nobj = 1;
    void make() { box = make_box(c, &obs); }
};

void say(const Job& j, size_t threads)
{
    NoSim _;
    std::string s = j.c.describe();
    for (auto& q : j.q) s += " " + sim::describe(q);
    workload("threads=" + std::to_string(threads) + " " + s);
}

struct Opt { uint32_t flags = 0; int solves = 2; bool dynamic = false; double nested = 0; bool user_throw = false; void (*tweak)(Prng&, Config&, int nobj) = nullptr; bool same_nobj = true; bool close = false; double proto = 0; };

void fill(Prng& p, Job& j, const Opt& o)
{
    NoSim _;
    j.nobj = random_nobj(p);
    j.c = random_config(p, j.nobj);
    if (o.tweak) o.tweak(p, j.c, j.nobj);
    if (o.nested > 0 && p.chance(o.nested)) { j.c.nested = true; j.c.mut = 7; j.c.default_ops = j.c.var = false; }
    // user defined algorithms, selection and replacement methods
    if (o.proto > 0 && j.c.algo != A_DEFAULT && p.chance(o.proto)) j.c.proto = j.c.algo == A_SOGA ? p.range(1, 2) : 1;
    int n = p.range(1, o.solves);
    for (int i = 0; i < n; i++) j.q.push_back(random_problem(p, j.c, j.nobj, o.dynamic));
    // fitness values that differ by less than the tolerance of the floating-point comparisons
    if (o.close && j.nobj == 1 && p.chance(0.25)) { PROBE("fitness values closer than the tolerance"); for (auto& q : j.q) q.scale = p.chance(0.5) ? 3e-13 : 1e-14; }
    j.obs.flags = o.flags;
}

// sometimes another GA that is run by another thread in the meantime, with the same oracles
struct Beside {
    std::unique_ptr<Job> job; std::thread t;
    Beside(Ctx& ctx, Opt o, size_t threads, double chance, double p_throw = 0)
    {
        Prng& p = ctx.rng;
        if (!p.chance(chance)) return;
        PROBE("another GA at the same time");
        job = std::make_unique<Job>();
        o.solves = 2;
        fill(p, *job, o);
        { NoSim _; job->c.pop = std::min<size_t>(job->c.pop, 8); for (auto& q : job->q) q.gens = std::min<size_t>(q.gens, 3); if (job->c.max_gen > 4) job->c.max_gen = 4; }
        job->obs.p_throw = p_throw;
        say(*job, threads);
        t = std::thread([j = job.get()] { j->make(); for (auto& q : j->q) j->box->solve(q); j->box.reset(); });
    }
    void join() { if (t.joinable()) t.join(); }
    ~Beside() { join(); }
};

// a sequence of solve calls on one GA object with the given oracles switched on
void check_runs(Ctx& ctx, const Opt& o)
{
    Prng& p = ctx.rng;
    size_t n = random_threads(p);
    set_threads(n);
    Job j;
    fill(p, j, o);
    say(j, n);
    seed_rng(p.next());
    Beside other(ctx, o, n, 0.2);
    j.make();
    for (auto& q : j.q) j.box->solve(q);
}

void setup_plain(Ctx& c) { c.cfg.soft_steps = 600000; c.cfg.hard_steps = 3000000; }

// ---------------------------------------------------------------- C05
void setup_race(Ctx& c) { setup_plain(c); c.cfg.race = 1; }
void concurrent(Ctx& ctx, int maxgas)
{
    Prng& p = ctx.rng;
    size_t n = random_threads(p);
    set_threads(n);
    int gas = p.range(1, maxgas);
    std::vector<std::unique_ptr<Job>> jobs;
    for (int i = 0; i < gas; i++)
    {
        auto j = std::make_unique<Job>();
        Opt o; o.solves = 2; o.dynamic = true; o.nested = 0.1;
        fill(p, *j, o);
        if (gas > 1) { NoSim _; j->c.pop = std::min<size_t>(j->c.pop, 7); for (auto& q : j->q) q.gens = std::min<size_t>(q.gens, 3); if (j->q.size() > 1) j->q.pop_back(); }
        if (p.chance(0.3)) j->c.user_rng = true;
        say(*j, n);
        jobs.push_back(std::move(j));
    }
    if (p.chance(0.5)) seed_rng(p.next());
    auto work = [](Job* j) { j->make(); for (auto& q : j->q) j->box->solve(q); j->box.reset(); };
    std::vector<std::thread> ts;
    for (int i = 1; i < gas; i++) ts.emplace_back([j = jobs[(size_t)i].get(), work] { work(j); });
    if (gas > 1) PROBE("several GAs at once");
    work(jobs[0].get());
    for (auto& t : ts) t.join();
    for (auto& j : jobs) j.reset();
}
SCENARIO(C05, single, 3, false, setup_race, "one GA; every access of library code checked for races and dead memory") { concurrent(ctx, 1); }
SCENARIO(C05, several, 2, false, setup_race, "up to three GAs run by different threads at the same time") { concurrent(ctx, 3); }

// ---------------------------------------------------------------- C06
void setup_same(Ctx& c) { setup_plain(c); }
SCENARIO(C06, schedules, 3, true, setup_same, "the same seeded workload under the reference schedule and under a chaotic one, in separate processes")
{
    Prng& p = ctx.rng;
    size_t n = random_threads(p);
    Opt o; o.solves = 2; o.dynamic = true; o.nested = 0;
    Job j; fill(p, j, o);
    bool reuse = p.chance(0.5), twice = p.chance(0.5), user_first = p.chance(0.5), loop_first = p.chance(0.3), resize = p.chance(0.3);
    uint64_t seed = p.next();
    say(j, n);
    if (user_first) (void)rng::randomInt(0, 5);
    set_threads(n);
    if (loop_first) { std::vector<int> v(7); detail::parallel_for(v.begin(), v.end(), [](int& x) { x = rng::randomInt(0, 9); }); }
    seed_rng(seed);
    j.make();
    for (auto& q : j.q) j.box->solve(q);
    Digest first = j.obs.digest;
    Digest all = first;
    if (twice)
    {
        // the same again in this process
        if (resize) { set_threads(1 + n % 4); if (p.chance(0.5)) (void)rng::randomInt(0, 5); set_threads(n); }
        Digest& d = j.obs.digest; d = Digest{};
        if (!reuse) j.make();
        seed_rng(seed);
        for (auto& q : j.q) { j.box->solve(q); }
        all.add(j.obs.digest.h);
        if (!(reuse && j.q.size() > 1)) PROBE("repeated in one process");
        CHECK(j.obs.digest.h == first.h, "repeat-differs", "the same seeded run gave another result in the same process: %.300s | first: %.300s", j.obs.digest.text.c_str(), first.text.c_str());
    }
    compare_digest(ctx, all, "schedule-dependent");
}

// ---------------------------------------------------------------- C07
SCENARIO(C07, history, 3, true, setup_same, "a GA with a history of finished, stopped and failed runs against a new one, and against a process without any history")
{
    Prng& p = ctx.rng;
    size_t n = random_threads(p);
    set_threads(n);
    warm_up();
    Opt o; o.solves = 3; o.dynamic = true;
    Job j; fill(p, j, o);
    Problem target;
    {
        NoSim _;
        // problems of the history may have another length and, with the default algorithm, another number of objectives
        if (j.c.algo == A_DEFAULT && j.c.stop.kind == 0) for (auto& q : j.q) if (p.chance(0.4)) q = random_problem(p, j.c, p.range(1, 3), true);
        if (p.chance(0.3) && !j.c.var) j.c.default_ops = j.c.algo != A_SOGA;
        target = random_problem(p, j.c, j.nobj, true);
        j.q.push_back(target);
    }
    if (j.c.algo == A_DEFAULT && j.c.pop < 2) { NoSim _; j.c.pop = 2; }
    say(j, n);
    uint64_t seed = p.next();
    double pt = p.chance(0.4) ? 0.02 : 0;
    bool draws = p.chance(0.5);
    if (!ctx.reference)
    {
        j.make();
        for (size_t i = 0; i + 1 < j.q.size(); i++)
        {
            j.obs.p_throw = pt;
            Result r = j.box->solve(j.q[i]);
            if (r.threw) PROBE("history with a failed run");
            j.obs.p_throw = 0;
        }
        if (draws) (void)rng::randomNormal(0.0, 1.0);
        j.obs.digest = Digest{};
        seed_rng(seed);
        j.box->solve(target);
    }
    Job f; f.c = j.c; f.nobj = j.nobj;
    f.make();
    seed_rng(seed);
    f.box->solve(target);
    if (!ctx.reference) CHECK(f.obs.digest.h == j.obs.digest.h, "history-dependent", "a GA that was used before gives another result than a new one: used: %.300s | new: %.300s", j.obs.digest.text.c_str(), f.obs.digest.text.c_str());
    compare_digest(ctx, f.obs.digest, "history-dependent-process");
}

// ---------------------------------------------------------------- C27
void setup_settings(Ctx& c) { setup_plain(c); c.cfg.alloc_at = c.rng.chance(0.5) ? 0 : 1 + c.rng.below(100); c.cfg.p_alloc = c.cfg.alloc_at && c.rng.chance(0.5) ? 0.02 : 0; }
SCENARIO(C27, settings, 3, false, setup_settings, "a GA that reached its settings over a history of setters, runs and moves against one constructed with them")
{
    Prng& p = ctx.rng;
    sim_alloc_faults_enable(0);
    size_t n = random_threads(p);
    set_threads(n);
    warm_up();
    Opt o; o.dynamic = true;
    Job j, f; fill(p, f, o);
    Config to = f.c; std::vector<std::pair<Config, Problem>> history; Problem target; std::string s;
    int moves = 0;
    auto variant = [&](Config& c)
    {
        if (p.chance(0.25)) c.default_ops = true;
        if (c.var) c.default_ops = false;
        if (c.default_ops && c.algo == A_SOGA) c.algo = A_DEFAULT;
        if (!c.var && p.chance(0.3)) c.cx = c.mut = 8;
        if (c.default_ops) { c.explicit_pm = p.chance(0.3); c.cx = c.mut = 8; }
        else if (c.mut == 7) c.default_pm = p.chance(0.5);
        c.path = p.range(1, 5);
        if (c.algo == A_DEFAULT && c.pop < 2) c.pop = 2;
    };
    {
        NoSim _;
        variant(to);
        if (to.algo == A_DEFAULT && to.stop.kind == 0) f.nobj = p.range(1, 3);
        target = random_problem(p, to, f.nobj, true);
        int k = p.range(0, 3);
        for (int i = 0; i < k; i++)
        {
            int nobj = random_nobj(p); Config c = random_config(p, nobj);
            c.enc = to.enc; c.var = to.var; variant(c);
            if (c.var) { c.cx = c.cx == 7 ? 0 : c.cx; c.mut = c.mut == 7 ? 0 : c.mut; c.default_pm = false; }
            if (to.default_ops) { c.default_ops = true; c.cx = c.mut = 8; c.default_pm = false; if (c.algo == A_SOGA) c.algo = A_DEFAULT; c.explicit_pm = c.explicit_pm && to.explicit_pm; if (c.algo == A_DEFAULT && c.pop < 2) c.pop = 2; }
            else if (i && !history.back().first.default_ops && c.default_ops) { c.default_ops = c.explicit_pm = false; }
            if (i && c.default_ops && history.back().first.explicit_pm) c.explicit_pm = true;
            if (c.cx == 8 && c.var) c.cx = c.mut = 0;
            history.push_back({ c, random_problem(p, c, nobj, true) });
        }
        if (to.default_ops && k && history.back().first.explicit_pm) to.explicit_pm = true;
        f.c = to; f.c.path = p.range(1, 5);
        for (auto& h : history) s += h.first.describe() + " " + sim::describe(h.second) + " ";
        workload("threads=" + std::to_string(n) + " history: " + s + " target: " + to.describe() + " " + sim::describe(target));
    }
    uint64_t seed = p.next(); bool fail = ctx.cfg.alloc_at != 0; double pt = p.chance(0.3) ? 0.02 : 0;
    j.c = history.empty() ? to : history[0].first;
    j.make();
    for (size_t i = 0; i < history.size(); i++)
    {
        if (i) j.box->reconfigure(history[i].first, Prng(p.next()), fail);
        if (p.chance(0.3)) { j.box->move_object(p.range(0, 2)); moves++; }
        if (p.chance(0.2)) continue;
        j.obs.p_throw = pt;
        Result r = j.box->solve(history[i].second);
        j.obs.p_throw = 0;
        if (!r.threw) j.box->check_settings(&history[i].second);
    }
    if (!history.empty() || p.chance(0.5)) j.box->reconfigure(to, Prng(p.next()), fail);
    if (p.chance(0.3)) { j.box->move_object(p.range(0, 2)); moves++; }
    if (moves) PROBE("moved");
    j.box->check_settings(nullptr);
    j.obs.digest = Digest{};
    seed_rng(seed);
    j.box->solve(target);
    j.box->check_settings(&target);
    f.make();
    f.box->check_settings(nullptr);
    seed_rng(seed);
    f.box->solve(target);
    f.box->check_settings(&target);
    CHECK(f.obs.digest.h == j.obs.digest.h, "settings-history", "a GA with a history of settings gives another result than one constructed with the same settings: used: %.300s | new: %.300s", j.obs.digest.text.c_str(), f.obs.digest.text.c_str());
}

// ---------------------------------------------------------------- single oracles
SCENARIO(C09, fitness, 3, false, setup_plain, "every candidate, fitness matrix row, evaluation count and cache hit compared with the fitness function")
{
    Opt o; o.flags = F_FITNESS; o.dynamic = true; o.nested = 0.15;
    o.tweak = [](Prng& p, Config& c, int) { if (p.chance(0.35)) { c.pc = p.chance(0.5) ? 0 : c.pc; c.pm = 0; } if (p.chance(0.4)) c.cache = (size_t)p.range(1, 6); };
    check_runs(ctx, o);
}

void setup_rng(Ctx& c) { setup_plain(c); static const double ps[] = { 0, 0.01, 0.1, 0.5 }; c.cfg.p_rng = ps[c.rng.below(4)]; }
SCENARIO(C10, operators, 3, false, setup_rng, "every chromosome handed to user code or visible to it checked, with extreme generator outputs injected")
{
    Opt o; o.flags = F_WELLFORMED; o.dynamic = true;
    o.tweak = [](Prng& p, Config& c, int) { if (p.chance(0.7)) { c.pc = p.chance(0.5) ? 1 : 0.8; c.pm = p.chance(0.5) ? 1 : 0.5; c.default_ops = false; if (c.cx == 7 && p.chance(0.7)) c.cx = (int)p.below(7); } };
    check_runs(ctx, o);
}

SCENARIO(C11, solutions, 3, false, setup_plain, "the returned solutions compared with the optimal members of the last or of all populations")
{
    Opt o; o.flags = F_OPTIMAL; o.proto = 0.3;
    o.tweak = [](Prng& p, Config& c, int) { c.keep_all = p.chance(0.5); };
    check_runs(ctx, o);
}

SCENARIO(C15, lifecycle, 3, false, setup_plain, "order, number, thread and concurrency of all calls of user code, generations and stop decisions")
{
    Opt o; o.flags = F_LIFECYCLE; o.dynamic = true; o.nested = 0.05; o.solves = 3; o.proto = 0.5;
    check_runs(ctx, o);
}

SCENARIO(C16, replacement, 3, false, setup_plain, "every population compared with the previous one and its children")
{
    Opt o; o.flags = F_REPLACEMENT; o.close = true; o.proto = 0.15;
    o.tweak = [](Prng& p, Config& c, int nobj) { if (nobj == 1 && p.chance(0.6)) { c.algo = A_SOGA; c.default_ops = false; if (c.pop < 2) c.sel = S_ROULETTE; } if (p.chance(0.5)) c.repair = p.chance(0.5) ? REP_IDENTITY : REP_CHANGE; };
    check_runs(ctx, o);
}

SCENARIO(C20, metrics, 3, false, setup_plain, "all recorded values of all metrics recomputed from the populations after every generation")
{
    Opt o; o.flags = F_METRICS; o.dynamic = true;
    o.tweak = [](Prng& p, Config& c, int nobj) { static const uint32_t m[] = { 31, M_BASIC | M_STATS, M_NADIR | M_HV, M_HV, M_AUTOHV }; c.metrics = nobj > 4 ? m[1] : m[p.below(5)]; };
    check_runs(ctx, o);
}

// ---------------------------------------------------------------- C13, C14
void setup_throw(Ctx& c) { setup_plain(c); c.cfg.race = c.rng.chance(0.2); }
void setup_alloc(Ctx& c)
{
    setup_plain(c);
    c.cfg.alloc_at = 1 + c.rng.below(1ull << (1 + c.rng.below(12)));
    c.cfg.alloc_burst = c.rng.chance(0.7) ? 1 : 1 + c.rng.below(8);
    c.cfg.p_alloc = c.rng.chance(0.2) ? 0.01 : 0;
}
// failing runs, then a run that must not be affected by them
void fail_then_run(Ctx& ctx, bool alloc)
{
    Prng& p = ctx.rng;
    sim_alloc_faults_enable(0);
    size_t n = random_threads(p);
    set_threads(n);
    warm_up();
    Opt o; o.flags = F_EXCEPTION; o.dynamic = true; o.solves = 2; o.nested = alloc ? 0 : 0.05; o.proto = 0.2;
    Job j; fill(p, j, o);
    static const double pt[] = { 0.005, 0.02, 0.1, 0.5 };
    if (!alloc) { j.obs.p_throw = pt[p.below(4)]; if (p.chance(0.5)) j.obs.throw_mask = 1u << p.below(FN_COUNT); }
    say(j, n);
    uint64_t seed = p.next(); bool fail_ctor = p.chance(0.3);
    Problem target; { NoSim _; target = random_problem(p, j.c, j.nobj, true); }
    if (alloc && fail_ctor)
    {
        sim_alloc_faults_enable(1);
        for (int tries = 0; tries < 3 && !j.box; tries++) { try { j.make(); } catch (const std::bad_alloc&) { PROBE("construction failed"); } }
        sim_alloc_faults_enable(0);
    }
    if (!j.box) j.make();
    if (alloc) sim_alloc_faults_enable(1);
    Opt o2; o2.flags = F_EXCEPTION | F_FITNESS | F_OPTIMAL;
    Beside other(ctx, o2, n, alloc ? 0 : 0.3, alloc || p.chance(0.6) ? 0 : j.obs.p_throw);
    for (auto& q : j.q)
    {
        Result r = j.box->solve(q);
        if (r.threw) { PROBE("solve failed"); if (r.oom && !sim_fired(SIM_D_ALLOC)) failf("wrong-exception", "bad_alloc without an allocation failure"); }
    }
    other.join();
    sim_alloc_faults_enable(0);
    sim_faults_enable(0);
    j.obs.p_throw = 0;
    j.obs.digest = Digest{};
    seed_rng(seed);
    Result r = j.box->solve(target);
    CHECK(!r.threw, "not-reusable", "the run after a failed one failed as well");
    Job f; f.c = j.c; f.nobj = j.nobj;
    f.make();
    seed_rng(seed);
    f.box->solve(target);
    if (!j.c.nested) CHECK(f.obs.digest.h == j.obs.digest.h, "affected-by-failure", "a GA whose earlier run failed gives another result than a new one: %.300s | new: %.300s", j.obs.digest.text.c_str(), f.obs.digest.text.c_str());
}
SCENARIO(C13, exceptions, 3, false, setup_throw, "user functions throw at points chosen by the fault injector; afterwards the GA behaves like a new one") { fail_then_run(ctx, false); }
SCENARIO(C14, runs, 3, false, setup_alloc, "allocations fail during construction and solve; afterwards the GA behaves like a new one") { fail_then_run(ctx, true); }

// ---------------------------------------------------------------- C19
StopSpec deep_stop(Prng& p, int nobj, int depth)
{
    Config c;
    do { c = random_config(p, nobj); } while (c.stop.kind == 0 || (depth > 0 && c.stop.kind < 5 && p.chance(0.5)));
    return c.stop;
}
SCENARIO(C19, stops, 3, false, setup_plain, "the decision of random compositions of stop conditions compared with a model that looks at the whole history")
{
    Opt o; o.flags = F_STOP; o.dynamic = true; o.solves = 3;
    o.tweak = [](Prng& p, Config& c, int nobj) { c.stop = deep_stop(p, nobj, 1); c.user_stop_lambda = false; c.max_gen = (size_t)p.range(3, 8); };
    check_runs(ctx, o);
}

} // namespace
