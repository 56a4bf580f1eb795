// Simulated use of the global floating-point tolerances: C29.
#include "ga.hpp"
#include <core/ga_base.hpp>
#include <encoding/binary.hpp>
#include <encoding/real.hpp>
#include <algorithm/algorithm.hpp>
#include <crossover/binary.hpp>
#include <crossover/real.hpp>
#include <mutation/binary.hpp>
#include <mutation/real.hpp>
#include <utility/math.hpp>
#include <utility/rng.hpp>
#include <utility/thread_pool.hpp>
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <thread>

using namespace gapp;
using namespace sim;

namespace {

struct Tol { double abs, rel; };

// The tolerance in effect for a comparison of a and b; values within a factor of two of it are not judged.
double tolerance(Tol t, double a, double b) { return std::max(t.abs, t.rel * std::max(std::abs(a), std::abs(b))); }

struct Pair { double a, b; int order; };    // order: -1 a < b, 0 equal, 1 a > b
Pair random_pair(Prng& p, Tol t)
{
    static const double mags[] = { 0, 1e-300, 1e-6, 0.3, 1, 7, 1e6, 1e150 };
    for (;;)
    {
        double a = mags[p.below(8)] * (1 + p.real()) * (p.chance(0.5) ? -1 : 1), b = a;
        switch (p.below(6))
        {
        case 0: break;
        case 1: b = a + (p.chance(0.5) ? 1 : -1) * tolerance(t, a, a) * p.real(0, 0.4); break;
        case 2: b = a + (p.chance(0.5) ? 1 : -1) * tolerance(t, a, a) * p.real(2.5, 10); break;
        case 3: b = std::nextafter(a, p.chance(0.5) ? HUGE_VAL : -HUGE_VAL); break;
        case 4: b = p.chance(0.5) ? HUGE_VAL : -HUGE_VAL; if (p.chance(0.3)) a = p.chance(0.5) ? HUGE_VAL : -HUGE_VAL; break;
        default: b = mags[p.below(8)] * (1 + p.real()); break;
        }
        if (!std::isfinite(a) || !std::isfinite(b)) return { a, b, a < b ? -1 : a > b ? 1 : 0 };
        double d = std::abs(a - b), tol = std::max(t.abs, t.rel * std::max(std::abs(a), std::abs(b)));
        if (d == 0) return { a, b, 0 };
        if (!std::isfinite(d) || (d > 0.5 * tol && d < 2 * tol)) continue;
        return { a, b, d <= 0.5 * tol ? 0 : a < b ? -1 : 1 };
    }
}

void check_pair(const Pair& x, Tol t)
{
    const double a = x.a, b = x.b;
    const bool eq = math::floatIsEqual(a, b), lt = math::floatIsLess(a, b), gt = math::floatIsGreater(a, b), le = math::floatIsLessEq(a, b), ge = math::floatIsGreaterEq(a, b);
    const auto cmp = math::floatCompare(a, b);
    const double va[] = { a }, vb[] = { b };
    const bool veq = math::floatVecIsEqual<double>(va, vb), pl = math::paretoCompareLess(va, vb), pg = math::paretoCompareLess(vb, va);
    const int pc = math::paretoCompare(va, vb);
    const bool assume = x.order <= 0 && a <= b ? math::floatIsLessAssumeNotGreater(a, b) : x.order < 0;
    NoSim _;
    const int o = x.order, c = cmp < 0 ? -1 : cmp > 0 ? 1 : 0;
    if (eq != (o == 0) || lt != (o < 0) || gt != (o > 0) || le != (o <= 0) || ge != (o >= 0) || c != o || veq != (o == 0) || pl != (o < 0) || pg != (o > 0) || pc != o || assume != (o < 0))
        failf("comparison", "with the tolerances %g and %g, %.17g and %.17g are %s: equal %d, less %d, greater %d, not greater %d, not less %d, compare %d, vectors equal %d, dominated %d, dominates %d, pareto compare %d, less if not greater %d", t.abs, t.rel, a, b, o < 0 ? "increasing" : o > 0 ? "decreasing" : "equal", eq, lt, gt, le, ge, c, veq, pl, pg, pc, assume);
}

void check_getters(Tol t, const char* where)
{
    double a = math::Tolerances::abs(), r1 = math::Tolerances::rel(1.0), r7 = math::Tolerances::rel(4.0);
    NoSim _;
    if (a != t.abs || r1 != t.rel || r7 != 4 * t.rel) failf("tolerances", "%s the tolerances are %g and %g (%g at 4), %g and %g were set", where, a, r1, r7, t.abs, t.rel);
}

// comparisons on all execution threads and on user threads
void compare(Prng& p, Tol t, size_t callers)
{
    std::vector<std::vector<Pair>> ps(callers);
    { NoSim _; for (auto& v : ps) for (int i = p.range(1, 60); i > 0; i--) v.push_back(random_pair(p, t)); }
    auto work = [t](const std::vector<Pair>& v)
    {
        check_getters(t, "on a thread that starts a loop");
        detail::parallel_for(v.begin(), v.end(), [t](const Pair& x) { check_getters(t, "on an execution thread"); check_pair(x, t); });
    };
    std::vector<std::thread> ts;
    for (size_t i = 1; i < callers; i++) ts.emplace_back([&, i] { work(ps[i]); });
    work(ps[0]);
    for (auto& x : ts) x.join();
    if (callers > 1) PROBE("comparisons of several user threads");
}

// Pareto fronts of points that form clusters within the tolerance are those of the clusters.
void fronts(Prng& p, Tol t)
{
    std::vector<Fit> base, pts; int d = p.range(1, 4), n = p.range(1, 30), split = 0;
    const double spacing = t.abs > 0 ? t.abs * 10 : 1, jitter = t.abs * 0.2;
    FitnessMatrix m; Candidates<RealGene> l, r;
    {
        NoSim _;
        if (t.rel > 0 && t.abs == 0) return;
        const double limit = t.rel > 0 ? t.abs / t.rel / 4 : 1e9;       // the absolute tolerance is the greater one
        int grid = (int)std::min(6.0, limit / spacing);
        if (grid < 1) return;
        for (int i = 0; i < n; i++)
        {
            Fit x((size_t)d), y; for (auto& v : x) v = (double)p.range(-grid, grid);
            y = x; for (auto& v : y) v = v * spacing + p.real(-jitter, jitter);
            base.push_back(x); pts.push_back(y);
        }
        m.reserve(pts.size(), (size_t)d);
        for (auto& y : pts) m.append_row(FitnessVector(y.begin(), y.end()));
        split = p.range(0, n);
        auto side = [&](int from, int to, Candidates<RealGene>& out)
        {
            std::vector<Fit> b(base.begin() + from, base.begin() + to); auto rk = naive_ranks(b);
            for (int i = from; i < to; i++) if (rk[(size_t)(i - from)] == 0) { Candidate<RealGene> c; c.chromosome = { (double)i }; c.fitness = FitnessVector(pts[(size_t)i].begin(), pts[(size_t)i].end()); out.push_back(c); }
        };
        side(0, split, l); side(split, n, r);
    }
    auto f = detail::findParetoFront(m);
    auto merged = detail::mergeParetoSets(std::move(l), std::move(r));
    NoSim _;
    std::vector<size_t> want, got(f.begin(), f.end()), mg; auto rk = naive_ranks(base);
    for (size_t i = 0; i < base.size(); i++) if (rk[i] == 0) want.push_back(i);
    for (auto& c : merged) mg.push_back((size_t)c.chromosome[0]);
    std::sort(got.begin(), got.end()); std::sort(mg.begin(), mg.end());
    CHECK(got == want, "front", "with the tolerances %g and %g, findParetoFront found %zu of %d points in %d dimensions to be optimal, expected %zu", t.abs, t.rel, got.size(), n, d, want.size());
    CHECK(mg == want, "merge", "with the tolerances %g and %g, mergeParetoSets kept %zu of %d points in %d dimensions, expected %zu", t.abs, t.rel, mg.size(), n, d, want.size());
    PROBE("fronts of clusters");
}

struct Flat : FitnessFunctionBase<RealGene>
{
    Tol t;
    Flat(size_t len, Tol t) : FitnessFunctionBase<RealGene>(len), t(t) {}
    FitnessVector invoke(const Chromosome<RealGene>& c) const override { check_getters(t, "in the fitness function"); double s = 0; for (double x : c) s += x; return { s }; }
};

// Real-encoded candidates that differ by less than the tolerance count as unchanged, others do not.
void unchanged(Prng& p, Tol t)
{
    const size_t len = (size_t)p.range(1, 5), pop = (size_t)p.range(2, 12), gens = (size_t)p.range(2, 5);
    const bool within = t.abs > 0 && p.chance(0.5);
    const double scale = t.rel > 0 ? 1 : 8, tol = std::max(t.abs, t.rel * scale);
    if (!within && tol > 1e-3 * scale) return;
    if (within && t.abs < 1e-15) return;
    if (!within && tol * 4 > 0 && tol < 1e-290) return;
    RCGA ga(pop);
    ga.crossover_method(crossover::real::BLXa{ 0.0 });
    const double step = within ? std::min(t.abs, 1.0) * 0.01 : std::max(4 * tol, 1e-12);
    ga.mutation_method([=](const GA<RealGene>&, const Candidate<RealGene>&, Chromosome<RealGene>& c) { double& g = c.back(); g = g < 0.75 ? g + step : g - step; });
    ga.mutation_rate(1.0);
    Flat f(len, t);
    size_t first = 0, last = 0;
    ga.on_generation_end([&](const GaInfo& g) { NoSim _; if (g.generation_cntr() == 0 && !first) first = g.num_fitness_evals(); last = g.num_fitness_evals(); });
    ga.solve(f, Bounds{ 0.5, 1.0 }, gens);
    NoSim _;
    size_t want = within ? 0 : pop * (gens - 1);
    CHECK(last - first == want, "unchanged", "with the tolerances %g and %g, the fitness function was called %zu times for %zu candidates that a mutation changed by %g", t.abs, t.rel, last - first, pop * (gens - 1), step);
    if (within) PROBE("changes within the tolerance"); else PROBE("changes beyond the tolerance");
}

struct Count : FitnessFunctionBase<BinaryGene>
{
    double unit, jitter; Tol t;
    Count(size_t len, double u, double j, Tol t) : FitnessFunctionBase<BinaryGene>(len), unit(u), jitter(j), t(t) {}
    double level(const Chromosome<BinaryGene>& c) const { return (double)std::count(c.begin(), c.end(), BinaryGene(1)); }
    FitnessVector invoke(const Chromosome<BinaryGene>& c) const override
    {
        check_getters(t, "in the fitness function");
        uint64_t h = 1; for (auto g : c) h = h * 2654435761u + (uint64_t)g + 1;
        return { level(c) * unit + ((double)(h % 1001) / 500 - 1) * jitter };
    }
};

// The solutions of a run, and the early stop, treat fitness values within the tolerance as equal.
void solutions(Prng& p, Tol t)
{
    const size_t len = (size_t)p.range(2, 10), pop = (size_t)p.range(2, 20), gens = (size_t)p.range(1, 5);
    if (t.abs <= 0 || (t.rel > 0 && t.abs / t.rel < (double)len * t.abs * 40)) return;
    Count f(len, t.abs * 10, t.abs * 0.2, t);
    const bool all = p.chance(0.5), stop = p.chance(0.5); const int level = p.range(0, (int)len), above = p.range(0, 1);
    BinaryGA ga(pop);
    ga.keep_all_optimal_solutions(all);
    if (stop) ga.stop_condition(stopping::FitnessValue{ { level * f.unit + (above ? 2 : 0.7) * t.abs } });
    double best = -1; std::vector<std::vector<BinaryGene>> want; size_t ran = 0; bool reached = false;
    ga.on_generation_end([&](const GaInfo&)
    {
        NoSim _;
        if (reached) failf("not-stopped", "with the tolerances %g and %g, the run went on although the threshold %.17g was reached within the tolerance", t.abs, t.rel, level * f.unit + 0.7 * t.abs);
        ran++;
        if (!all) { best = -1; want.clear(); }
        for (auto& c : ga.population()) { double l = f.level(c.chromosome); if (l > best) { best = l; want.clear(); } if (l == best) want.push_back(c.chromosome); reached = reached || (stop && l >= level + (above ? 1 : 0)); }
    });
    // whether a candidate is within the tolerance of the threshold: above 0.5 tolerances no jitter decides it
    auto sols = ga.solve(f, gens);
    NoSim _;
    if (!reached) CHECK(ran == gens, "stopped", "with the tolerances %g and %g, the run ended after %zu of %zu generations", t.abs, t.rel, ran, gens);
    std::sort(want.begin(), want.end()); want.erase(std::unique(want.begin(), want.end()), want.end());
    std::vector<std::vector<BinaryGene>> got; for (auto& s : sols) got.push_back(s.chromosome);
    std::sort(got.begin(), got.end());
    CHECK(got == want, "solutions", "with the tolerances %g and %g, %zu solutions were returned, %zu candidates are optimal within the tolerance", t.abs, t.rel, got.size(), want.size());
    PROBE("solutions within the tolerance");
}

struct Stop {};

void setup_tol(Ctx& c) { c.cfg.soft_steps = 800000; c.cfg.hard_steps = 4000000; }

void use(Prng& p, Tol t)
{
    switch (p.below(4))
    {
    case 0: compare(p, t, p.chance(0.4) ? (size_t)p.range(2, 3) : 1); break;
    case 1: fronts(p, t); break;
    case 2: unchanged(p, t); break;
    default: solutions(p, t); break;
    }
}

void nest(Prng& p, Tol t, int depth)
{
    check_getters(t, depth ? "in a scope" : "at the start");
    int steps = p.range(1, 3);
    for (int i = 0; i < steps; i++)
    {
        if (depth < 3 && p.chance(0.5))
        {
            static const double as[] = { 0, 1e-12, 1e-9, 1e-3, 0.25, 100 }, rs[] = { 0, 2.2e-15, 1e-9, 1e-3 };
            Tol in{ as[p.below(6)], rs[p.below(4)] }; const bool fail = p.chance(0.3), other = depth == 0 && p.chance(0.4);   // scopes of several threads must not overlap
            auto scope = [&]
            {
                try
                {
                    math::ScopedTolerances s(in.abs, in.rel);
                    nest(p, in, depth + 1);
                    if (fail) { std::vector<int> v(8); PROBE("scope left by an exception"); detail::parallel_for(v.begin(), v.end(), [](int&) { throw Stop{}; }); }
                }
                catch (const Stop&) {}
            };
            if (other) { PROBE("scope on another thread"); std::thread(scope).join(); }
            else scope();
            check_getters(t, "after a scope");
        }
        else use(p, t);
    }
}

SCENARIO(C29, tolerances, 1, false, setup_tol, "nested scopes of tolerances on several threads: comparisons, fronts and runs on all execution threads against the tolerances in effect")
{
    Prng& p = ctx.rng;
    size_t n = random_threads(p);
    set_threads(n);
    { NoSim _; workload("threads=" + std::to_string(n)); }
    gapp::rng::prng.seed(p.next());
    nest(p, Tol{ 1e-12, 10 * DBL_EPSILON }, 0);
    check_getters(Tol{ 1e-12, 10 * DBL_EPSILON }, "at the end");
}

SCENARIO(C29, runs, 1, false, setup_tol, "whole runs with any tolerances: they end on time, and replacement and metrics, which compare exactly, aren't affected")
{
    Prng& p = ctx.rng;
    size_t n = random_threads(p);
    set_threads(n);
    static const double as[] = { 0, 1e-12, 1e-3, 0.25, 3, 100 }, rs[] = { 0, 2.2e-15, 1e-3, 0.5 };
    const Tol t{ as[p.below(6)], rs[p.below(4)] };
    const int nobj = random_nobj(p);
    Config c; Problem q; Obs obs; std::unique_ptr<Box> box;
    {
        NoSim _;
        c = random_config(p, nobj); c.stop = StopSpec{}; c.user_stop_lambda = false; c.nested = false;
        static const uint32_t ms[] = { M_BASIC | M_STATS, M_HV, M_AUTOHV, 0 };
        c.metrics = nobj > 4 ? ms[0] : ms[p.below(4)];
        if (nobj == 1 && p.chance(0.5)) { c.algo = A_SOGA; c.default_ops = false; if (c.pop < 2) c.sel = S_ROULETTE; }
        q = random_problem(p, c, nobj, false);
        if (p.chance(0.4)) q.scale = p.chance(0.5) ? 3e-13 : 1e-14;
        obs.flags = F_WELLFORMED | F_LIFECYCLE | F_METRICS | (nobj == 1 && c.enc != REAL ? F_REPLACEMENT : 0);   // unchanged real genes: see the other scenario
        char b[80]; std::snprintf(b, sizeof b, "threads=%zu tolerances %g %g ", n, t.abs, t.rel);
        workload(b + c.describe() + " " + sim::describe(q));
    }
    gapp::rng::prng.seed(p.next());
    {
        math::ScopedTolerances s(t.abs, t.rel);
        box = make_box(c, &obs);
        Result r = box->solve(q);
        NoSim _;
        if (r.sols.empty()) failf("no-solutions", "the run returned no solutions");
    }
    box.reset();
}

} // namespace
