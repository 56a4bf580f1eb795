// Observer and oracles of simulated GA runs (no library templates in here).
#include "ga.hpp"
#include <utility/thread_pool.hpp>
#include <utility/rng.hpp>
#include <algorithm/reference_lines.hpp>
#include <algorithm>
#include <numeric>
#include <cmath>
#include <atomic>

using namespace gapp;

namespace sim {

static uint64_t mix(uint64_t a, uint64_t b) { Prng p(a * 0x9E3779B97F4A7C15ull ^ b); return p.next(); }

std::string str(const Fit& f) { std::string s = "("; char b[40]; for (double x : f) { snprintf(b, sizeof b, "%s%.17g", s.size() > 1 ? ", " : "", x); s += b; } return s + ")"; }

// ---------------------------------------------------------------- problem

Fit Problem::value(const Chrom& c, uint64_t epoch) const
{
    uint64_t s = dynamic ? mix(fseed, epoch + 77) : fseed;
    Fit f((size_t)nobj);
    uint64_t cellhash = mix(s, c.size());
    std::vector<long> cell(c.size());
    for (size_t i = 0; i < c.size(); i++)
    {
        double n = 0;
        if (enc == BIN || enc == PERM || enc == CUST) { cell[i] = (long)c[i]; }
        else
        {
            double l = i < lb.size() ? lb[i] : 0, u = i < ub.size() ? ub[i] : 1;
            if (enc == INT && u - l <= 15) cell[i] = (long)(c[i] - l);
            else { n = u > l ? (c[i] / (u - l)) - (l / (u - l)) : 0; cell[i] = (long)std::floor(n * 14.0 + 0.6180339887498949); }
        }
        cellhash = mix(cellhash, (uint64_t)cell[i] + 31);
    }
    for (int j = 0; j < nobj; j++)
    {
        long v = 0;
        switch (kind)
        {
        case 0: case 3:
            for (size_t i = 0; i < cell.size(); i++)
            {
                if (enc == PERM) v += (long)(mix(mix(s, (uint64_t)j), i * 64 + (uint64_t)cell[i]) % 7);
                else v += ((long)(mix(mix(s, (uint64_t)j), i) % 7) - 3) * cell[i];
            }
            if (kind == 3 && j > 0) { Fit g0; long w = 0; for (size_t i = 0; i < cell.size(); i++) w += cell[i] * (long)(i % 3 + 1); v = (j % 2 ? -w : w) + v / 4; }
            break;
        case 1: v = (long)(mix(cellhash, (uint64_t)j) % 9) - 4; break;
        case 2: v = 3; break;
        }
        f[(size_t)j] = (double)v * scale;
    }
    return f;
}

std::string describe(const Problem& p)
{
    char b[300];
    snprintf(b, sizeof b, "problem{fseed=%llu kind=%d nobj=%d len=%zu%s scale=%g gens=%zu%s initial=%zu%s", (unsigned long long)p.fseed, p.kind, p.nobj, p.len, p.dynamic ? " dynamic" : "", p.scale, p.gens, p.explicit_gens ? "" : "(default)", p.initial.size(), p.resume ? " evaluated" : "");
    std::string s = b;
    if (!p.lb.empty()) { snprintf(b, sizeof b, " bounds[0]=[%.17g,%.17g]", p.lb[0], p.ub[0]); s += b; }
    return s + "}";
}

static std::string describe(const StopSpec& s)
{
    char b[120];
    switch (s.kind)
    {
    case 0: return "none";
    case 1: snprintf(b, sizeof b, "evals(%zu)", s.n); return b;
    case 2: return "value" + str(s.threshold);
    case 3: snprintf(b, sizeof b, "mean-stall(%zu,%g)", s.n, s.delta); return b;
    case 4: snprintf(b, sizeof b, "best-stall(%zu,%g)", s.n, s.delta); return b;
    case 5: return "(" + describe(*s.a) + " && " + describe(*s.b) + ")";
    case 6: return "(" + describe(*s.a) + " || " + describe(*s.b) + ")";
    case 7: return "!" + describe(*s.a);
    default: snprintf(b, sizeof b, "user(%d)", s.which); return b;
    }
}

std::string Config::describe() const
{
    static const char* en[] = { "binary", "integer", "permutation", "real", "custom" };
    static const char* an[] = { "default", "SingleObjective", "NSGA2", "NSGA3" };
    static const char* sn[] = { "roulette", "tournament", "rank", "sigma", "boltzmann", "lambda" };
    static const char* rn[] = { "keep-best", "elitism", "keep-children", "lambda" };
    char b[500];
    snprintf(b, sizeof b, "config{%s pop=%zu algo=%s/%s/%s(%zu) %s cx=%d pc=%g mut=%d pm=%g cxp=%g mutp=%g n=%zu repair=%d cache=%zu%s metrics=%u max_gen=%zu%s%s stop=",
        en[enc], pop, an[algo], sn[sel], rn[repl], elite, default_ops ? "default-operators" : var ? "variable-length" : "", cx, pc, mut, pm, cxp, mutp, npoint, (int)repair, cache, keep_all ? " keep-all" : "", metrics, max_gen, user_rng ? " user-rng" : "", nested ? " nested" : "");
    return std::string(b) + sim::describe(stop) + "}";
}

static StopSpec random_stop(Prng& p, int nobj, int depth)
{
    StopSpec s;
    int k = depth > 0 ? p.range(1, 8) : (int[]){ 1, 2, 3, 4, 8 }[p.below(5)];
    s.kind = k;
    switch (k)
    {
    case 1: s.n = p.below(60); break;
    case 2: for (int i = 0; i < nobj; i++) s.threshold.push_back((double)p.range(-20, 40)); break;
    case 3: case 4: s.n = p.below(3); { static const double ds[] = { 1e-6, 0.5, 1, 2, 0.25, 0, -1, 5 }; s.delta = ds[p.below(8)]; } break;
    case 5: case 6: s.a = std::make_shared<StopSpec>(random_stop(p, nobj, depth - 1)); s.b = std::make_shared<StopSpec>(random_stop(p, nobj, depth - 1)); break;
    case 7: s.a = std::make_shared<StopSpec>(random_stop(p, nobj, depth - 1)); break;
    case 8: s.which = p.range(0, 7); break;
    }
    return s;
}

int random_nobj(Prng& p) { return p.chance(0.5) ? 1 : p.chance(0.06) ? (p.chance(0.35) ? p.range(5, 9) : 4) : p.range(2, 3); }

Config random_config(Prng& p, int nobj)
{
    Config c;
    c.enc = p.chance(0.2) ? CUST : (Enc)p.below(4);
    static const size_t pops[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13 };
    c.pop = pops[p.below(12)];
    if (nobj < 4 && p.chance(0.07)) c.big = p.range(1, 3);
    if (c.big == 1) c.pop = (size_t)p.range(14, p.chance(0.3) ? 150 : 50);
    if (p.chance(0.45)) c.algo = A_DEFAULT;
    else if (nobj == 1) c.algo = A_SOGA;
    else c.algo = p.chance(0.5) ? A_NSGA2 : A_NSGA3;
    c.sel = (Sel)p.below(S_COUNT); c.repl = (Repl)p.below(R_COUNT); c.elite = p.below(4); c.refgen = (int)p.below(5);
    if (c.sel == S_TOURNAMENT && c.pop < 2) c.sel = S_ROULETTE;
    if (c.algo == A_DEFAULT && nobj == 1 && c.pop < 2) c.pop = 2;      // the default tournament needs two candidates
    c.default_ops = c.algo != A_SOGA && p.chance(0.15);
    c.cx = (int)p.below(8); c.mut = (int)p.below(8);
    static const double rates[] = { 0.0, 1.0, 0.8, 0.5, 0.2, 0.05 };
    c.pc = rates[p.below(6)]; c.pm = rates[p.below(6)];
    static const double par[] = { 0.0, 1.0, 0.5, 0.75, 0.25, 0.1 };
    c.cxp = par[p.below(6)]; c.mutp = par[p.below(6)];
    c.npoint = (size_t)p.range(1, 9);
    c.repair = (Repair)p.below(3);
    c.cache = p.chance(0.5) ? 0 : (size_t)p.range(1, 6);
    c.keep_all = p.chance(0.3);
    if (p.chance(0.4)) c.stop = random_stop(p, nobj, 2);
    c.user_stop_lambda = p.chance(0.2);
    static const uint32_t masks[] = { 31, M_BASIC | M_STATS, M_NADIR | M_HV, M_HV, M_AUTOHV, 0, 0 };
    c.metrics = masks[p.below(7)];
    if (nobj > 4) { PROBE("many objectives"); c.metrics = c.metrics ? M_BASIC | M_STATS : 0; }     // the reference hypervolume is slow
    c.max_gen = (size_t)p.range(1, 6);
    c.user_rng = p.chance(0.2);
    c.var = c.enc == CUST && p.chance(0.6);
    if (c.var) { c.cx = c.cx == 7 ? 0 : c.cx; c.mut = c.mut == 7 ? 0 : c.mut; c.default_ops = false; }
    if (c.big == 1) c.max_gen = std::min<size_t>(c.max_gen, 3);
    if (c.big == 3) c.max_gen = (size_t)p.range(7, 40);
    return c;
}

static Chrom random_chrom(Prng& p, const Problem& q)
{
    Chrom c(q.var ? (size_t)p.range(1, (int)q.len + 3) : q.len);
    if (q.enc == CUST) for (auto& x : c) x = (double)p.below(10);
    if (q.enc == BIN) for (auto& x : c) x = (double)p.below(2);
    if (q.enc == PERM) { std::iota(c.begin(), c.end(), 0.0); for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[p.below(i)]); }
    if (q.enc == INT) for (size_t i = 0; i < c.size(); i++) c[i] = q.lb[i] + (double)p.below((uint64_t)std::min(q.ub[i] - q.lb[i], 1e9) + 1);
    if (q.enc == REAL) for (size_t i = 0; i < c.size(); i++) c[i] = std::clamp(q.lb[i] + (q.ub[i] - q.lb[i]) * (p.chance(0.2) ? (double)p.below(2) : p.real()), q.lb[i], q.ub[i]);
    return c;
}

Problem random_problem(Prng& p, const Config& c, int nobj, bool allow_dynamic)
{
    Problem q;
    q.enc = c.enc; q.var = c.var; q.nobj = nobj; q.fseed = p.next() >> 16;
    q.kind = (int)p.below(8); q.kind = q.kind < 4 ? 0 : q.kind < 6 ? 1 : q.kind == 6 ? 2 : 3;
    static const double sc[] = { 1, 1, 0.5, 1024 };
    q.scale = sc[p.below(4)];
    q.len = (size_t)p.range(1, 8);
    q.dynamic = allow_dynamic && p.chance(0.25);
    q.gens = (size_t)p.range(1, 6); q.explicit_gens = p.chance(0.7);
    if (c.big == 1) { q.gens = std::min<size_t>(q.gens, 3); PROBE("large population"); }
    if (c.big == 2) { q.len = (size_t)p.range(9, p.chance(0.5) ? 140 : 40); PROBE("long chromosomes"); }
    if (c.big == 3) { q.gens = (size_t)p.range(7, 40); PROBE("many generations"); }
    if (c.enc == INT || c.enc == REAL)
    {
        bool uniform = p.chance(0.4);
        for (size_t i = 0; i < q.len; i++)
        {
            double l, u;
            if (i && uniform) { l = q.lb[0]; u = q.ub[0]; }
            else if (c.enc == INT)
            {
                switch (p.below(6)) { case 0: l = 0; u = 1; break; case 1: l = -5; u = (double)p.range(-4, 9); break; case 2: l = u = (double)p.range(-3, 3); break; case 3: l = -2147483648.0; u = 2147483647.0; break; case 4: l = 2147483600.0; u = 2147483647.0; break; default: l = (double)p.range(-100, 0); u = (double)p.range(1, 100); }
            }
            else
            {
                switch (p.below(6)) { case 0: l = 0; u = 1; break; case 1: l = p.chance(0.5) ? -1 : -5.12; u = -l; break; case 2: l = u = (double)p.range(-3, 3) * 0.7; break; case 3: l = -1e300; u = 1e300; break; case 4: l = 1e6; u = 1e6 + 1; break; default: l = -p.real(0.001, 100); u = p.real(0.001, 100); }
            }
            q.lb.push_back(l); q.ub.push_back(u);
        }
    }
    if (p.chance(0.35)) { int k = p.range(1, (int)c.pop + 2); Chrom same = random_chrom(p, q); bool eq = p.chance(0.2); for (int i = 0; i < k; i++) q.initial.push_back(eq || p.chance(0.15) ? same : random_chrom(p, q)); q.resume = p.chance(0.3); }
    return q;
}

// ---------------------------------------------------------------- oracles

bool close(double a, double b, double tol) { if (a == b) return true; if (std::isnan(a) && std::isnan(b)) return true; return std::abs(a - b) <= tol * std::max({ 1.0, std::abs(a), std::abs(b) }); }

bool dominates(const Fit& a, const Fit& b)
{
    bool better = false;
    for (size_t i = 0; i < a.size(); i++) { if (a[i] < b[i]) return false; if (a[i] > b[i]) better = true; }
    return better;
}

std::vector<size_t> naive_ranks(const std::vector<Fit>& f)
{
    std::vector<size_t> r(f.size(), ~size_t(0)); size_t left = f.size();
    for (size_t cur = 0; left; cur++)
    {
        std::vector<size_t> now;
        for (size_t i = 0; i < f.size(); i++)
        {
            if (r[i] != ~size_t(0)) continue;
            bool dom = false;
            for (size_t j = 0; j < f.size() && !dom; j++) dom = r[j] == ~size_t(0) && dominates(f[j], f[i]);
            if (!dom) now.push_back(i);
        }
        for (size_t i : now) r[i] = cur;
        left -= now.size();
    }
    return r;
}

// volume of the union of the boxes [ref, p], by sweeping over the last coordinate
double naive_hypervolume(std::vector<Fit> pts, const Fit& ref)
{
    size_t d = ref.size();
    std::erase_if(pts, [&](const Fit& p) { for (size_t i = 0; i < d; i++) if (p[i] <= ref[i]) return true; return false; });
    if (pts.empty()) return 0;
    if (d == 1) { double m = ref[0]; for (auto& p : pts) m = std::max(m, p[0]); return m - ref[0]; }
    std::vector<double> zs{ ref[d - 1] };
    for (auto& p : pts) zs.push_back(p[d - 1]);
    std::sort(zs.begin(), zs.end()); zs.erase(std::unique(zs.begin(), zs.end()), zs.end());
    double vol = 0;
    for (size_t k = 0; k + 1 < zs.size(); k++)
    {
        std::vector<Fit> sl;
        for (auto& p : pts) if (p[d - 1] > zs[k]) sl.push_back(Fit(p.begin(), p.end() - 1));
        vol += (zs[k + 1] - zs[k]) * naive_hypervolume(std::move(sl), Fit(ref.begin(), ref.end() - 1));
    }
    return vol;
}

static bool user_stop_value(int which, size_t gen) { return mix((uint64_t)which + 1000, gen) % 4 == 0; }

bool eval_stop_oracle(const StopSpec& s, const std::vector<Gen>& gens)
{
    switch (s.kind)
    {
    case 0: return false;
    case 1: return gens.back().evals >= s.n;
    case 2:
        for (auto& f : gens.back().fmat) { bool ok = true; for (size_t i = 0; i < f.size(); i++) ok = ok && f[i] >= s.threshold[i]; if (ok) return true; }
        return false;
    case 3: case 4:
    {
        Fit best(gens[0].fmat[0].size(), -INFINITY); size_t since = 0;
        for (auto& g : gens)
        {
            bool improved = false;
            for (size_t j = 0; j < best.size(); j++)
            {
                double v = s.kind == 3 ? 0 : -INFINITY;
                if (s.kind == 3) { const double ninv = 1.0 / (double)g.fmat.size(); for (auto& f : g.fmat) v += f[j] * ninv; } else for (auto& f : g.fmat) v = std::max(v, f[j]);
                if (v >= best[j] + s.delta) { best[j] = v; improved = true; }
            }
            since = improved ? 0 : since + 1;
        }
        return since > s.n;
    }
    case 5: return eval_stop_oracle(*s.a, gens) && eval_stop_oracle(*s.b, gens);
    case 6: return eval_stop_oracle(*s.a, gens) || eval_stop_oracle(*s.b, gens);
    case 7: return !eval_stop_oracle(*s.a, gens);
    default: return user_stop_value(s.which, gens.size());
    }
}
// the mean is a floating point sum: a stall decision that hinges on its rounding is not checked
static bool stop_is_ambiguous(const StopSpec& s, const std::vector<Gen>& gens)
{
    if (s.a && stop_is_ambiguous(*s.a, gens)) return true;
    if (s.b && stop_is_ambiguous(*s.b, gens)) return true;
    if (s.kind != 3) return false;
    Fit best(gens[0].fmat[0].size(), -INFINITY);
    for (auto& g : gens) for (size_t j = 0; j < best.size(); j++)
    {
        double v = 0; for (auto& f : g.fmat) v += f[j] / (double)g.fmat.size();
        double lim = best[j] + s.delta;
        if (std::isfinite(lim) && std::abs(v - lim) <= 1e-7 * std::max(1.0, std::abs(v))) return true;
        if (v >= lim) best[j] = v;
    }
    return false;
}

// ---------------------------------------------------------------- observer

static bool exclusive_fn(Fn f) { return f == FN_CALLBACK || f == FN_METRIC || f == FN_STOP; }
static const char* fn_name(Fn f) { static const char* n[] = { "fitness function", "repair function", "crossover function", "mutation function", "generation callback", "metric", "stop condition", "selection function", "replacement function", "generator of candidates" }; return n[f]; }

UserCall::UserCall(Obs& o_, Fn fn_) : o(o_), fn(fn_)
{
    bool y;
    {
        NoSim _;
        if (!o.inside) failf("user-code-after-return", "the %s was called while no solve call was running", fn_name(fn));
        o.active++;
        if (!exclusive_fn(fn)) o.active_worker++;
        if (exclusive_fn(fn))
        {
            if (o.active != 1) failf("concurrent-callback", "the %s was called while %d other user functions were still running", fn_name(fn), o.active - 1);
            if (sim_tid() != o.solver_tid) failf("wrong-thread", "the %s was called on a thread other than the one that called solve", fn_name(fn));
        }
        else if (o.active != o.active_worker) failf("concurrent-callback", "the %s was called while a callback was running", fn_name(fn));
        y = (o.fitness_calls + (uint64_t)o.active) % 3 == 0;
    }
    if (y) sim_yield();
    try { o.maybe_throw(fn); }
    catch (...) { NoSim _; o.active--; if (!exclusive_fn(fn)) o.active_worker--; throw; }
}
UserCall::~UserCall()
{
    NoSim _;
    if (!o.inside) failf("user-code-after-return", "the %s was still running after solve had returned", fn_name(fn));
    o.active--;
    if (!exclusive_fn(fn)) o.active_worker--;
}

void Obs::maybe_throw(Fn fn)
{
    if (p_throw <= 0 || !(throw_mask >> fn & 1)) return;
    if (!sim_user_fault(p_throw)) return;
    int id;
    { NoSim _; id = ++thrown; thrown_ids.push_back(id); }
    throw UserErr{ id };
}

void Obs::begin_solve(const Config& c, const Problem& p)
{
    NoSim _;
    uint32_t fl = flags; double pt = p_throw, py = p_yield; uint32_t tm = throw_mask;
    *this = Obs{};
    flags = fl; p_throw = pt; p_yield = py; throw_mask = tm;
    cfg = &c; prob = &p; inside = true; solver_tid = sim_tid();
    expected_max_gen = p.explicit_gens ? p.gens : c.max_gen;
}

void Obs::well_formed(const Chrom& c, const char* where)
{
    if (!(flags & F_WELLFORMED)) return;
    if (prob->var ? c.empty() || c.size() > prob->len + 3 : c.size() != prob->len) failf("malformed-length", "%s: chromosome of length %zu instead of %zu", where, c.size(), prob->len);
    if (prob->enc == BIN) for (double x : c) if (x != 0 && x != 1) failf("malformed-gene", "%s: binary gene %g", where, x);
    if (prob->enc == CUST) for (double x : c) if (!(x >= 0 && x <= 9)) failf("malformed-gene", "%s: user defined gene %g in %s", where, x, str(c).c_str());
    if (prob->enc == PERM)
    {
        std::vector<char> seen(c.size());
        for (double x : c) { if (!(x >= 0 && x < (double)c.size()) || seen[(size_t)x]++) failf("malformed-permutation", "%s: not a permutation: %s", where, str(c).c_str()); }
    }
    if (prob->enc == INT || prob->enc == REAL)
        for (size_t i = 0; i < c.size(); i++) if (!(c[i] >= prob->lb[i] && c[i] <= prob->ub[i])) failf("malformed-bounds", "%s: gene %zu is %.17g, outside of [%.17g, %.17g]", where, i, c[i], prob->lb[i], prob->ub[i]);
}

Fit Obs::on_fitness(const Chrom& c)
{
    NoSim _;
    well_formed(c, "fitness function");
    fitness_calls++;
    Fit f = prob->value(c, epoch);
    if ((flags & F_FITNESS) && cache_pending && cached_all.count(c)) failf("cached-reevaluated", "generation %zu: the fitness of %s was computed again although it was in the fitness cache", gens.size(), str(c).c_str());
    cur.evaluated.push_back(Cand{ c, f, true });
    return f;
}

void Obs::on_generation(const GaInfo& ga, std::vector<Cand> pop, const std::function<MetricData()>& md)
{
    NoSim _;
    cur.pop = std::move(pop);
    cur.epoch = epoch;
    const auto& fm = ga.fitness_matrix();
    for (size_t i = 0; i < fm.size(); i++) cur.fmat.push_back(Fit(fm[i].begin(), fm[i].end()));
    cur.evals = ga.num_fitness_evals();
    size_t g = gens.size();
    callbacks++;
    for (auto& c : cur.pop) well_formed(c.chrom, "population");

    if (flags & F_LIFECYCLE)
    {
        if (cur.pop.size() != cfg->pop) failf("population-size", "generation %zu: population of %zu candidates instead of %zu", g, cur.pop.size(), cfg->pop);
        if (ga.population_size() != cfg->pop) failf("population-size", "generation %zu: population_size() is %zu instead of %zu", g, ga.population_size(), cfg->pop);
        if (ga.max_gen() != expected_max_gen) failf("max-gen", "generation %zu: max_gen() is %zu during a run with %zu generations", g, ga.max_gen(), expected_max_gen);
        if (callbacks != (int)g + 1) failf("callback-count", "callback called %d times for %zu generations", callbacks, g + 1);
        if (metric_updates != (int)g + 1) failf("metric-count", "metrics updated %d times for %zu generations", metric_updates, g + 1);
        if (ga.generation_cntr() != g) failf("generation-counter", "generation_cntr() is %zu in the callback of generation %zu", ga.generation_cntr(), g);
        if (metric_inits != 1) failf("metric-count", "metrics initialised %d times", metric_inits);
        if (stops != (int)g) failf("stop-count", "stop condition called %d times after %zu generations", stops, g);
        if (cfg->proto && cfg->algo != A_DEFAULT)
        {
            if (alg_inits != 1) failf("algorithm-init", "the algorithm was initialised %d times by generation %zu", alg_inits, g);
            if (alg_prepares != (int)g || alg_nexts != (int)g) failf("prepare-count", "the selections were prepared %d times and %d populations made by generation %zu", alg_prepares, alg_nexts, g);
        }
        if (stop_inits != 1) failf("stop-count", "stop condition initialised %d times", stop_inits);
        if (stop_true) failf("not-stopped", "generation %zu was run after the stop condition held", g);
        if (g + 1 > expected_max_gen) failf("too-many-generations", "generation %zu of a run with at most %zu generations", g, expected_max_gen);
        if (g == 0) for (size_t i = 0; i < prob->initial.size() && i < cfg->pop; i++) if (cur.pop[i].chrom != prob->initial[i]) failf("initial-population", "initial candidate %zu is %s instead of %s", i, str(cur.pop[i].chrom).c_str(), str(prob->initial[i]).c_str());
        if (cfg->repair != REP_NONE && cur.repaired.size() != (g ? cfg->pop : 0)) failf("repair-count", "generation %zu: %zu children were repaired (population size %zu)", g, cur.repaired.size(), cfg->pop);
        if (cur.evaluated.size() > cfg->pop + (g == 0)) failf("evaluation-count", "generation %zu: %zu fitness function calls for %zu candidates", g, cur.evaluated.size(), cfg->pop);
    }
    uint64_t evals = cur.evals - (g ? gens.back().evals : 0);
    if (flags & (F_FITNESS | F_STOP | F_METRICS))
    {
        uint64_t calls = fitness_calls - calls_at_gen;
        if (g == 0 ? (calls != evals && calls != evals + 1) : calls != evals) failf("evaluation-count", "generation %zu: %llu evaluations reported for %llu calls of the fitness function", g, (unsigned long long)evals, (unsigned long long)calls);
    }
    if (flags & F_FITNESS)
    {
        if (cur.fmat.size() != cur.pop.size()) failf("fitness-matrix", "generation %zu: fitness matrix has %zu rows for %zu candidates", g, cur.fmat.size(), cur.pop.size());
        for (size_t i = 0; i < cur.pop.size(); i++)
        {
            auto& c = cur.pop[i];
            if (!c.evaluated) failf("unevaluated", "generation %zu: candidate %zu of the population isn't evaluated", g, i);
            if (cur.fmat[i] != c.fit) failf("fitness-matrix", "generation %zu: row %zu of the fitness matrix is %s, the candidate has %s", g, i, str(cur.fmat[i]).c_str(), str(c.fit).c_str());
            bool ok = c.fit == prob->value(c.chrom, epoch);
            for (uint64_t e = 0; !ok && prob->dynamic && e < epoch; e++) ok = c.fit == prob->value(c.chrom, e);
            if (!ok) failf("wrong-fitness", "generation %zu: candidate %zu %s has fitness %s, the fitness function returns %s", g, i, str(c.chrom).c_str(), str(c.fit).c_str(), str(prob->value(c.chrom, epoch)).c_str());
        }
        if (prob->dynamic ? evals != cfg->pop : evals > cfg->pop) failf("evaluation-count", "generation %zu: %llu evaluations of %zu candidates (%s fitness function)", g, (unsigned long long)evals, cfg->pop, prob->dynamic ? "dynamic" : "static");
        if (g && !prob->dynamic && cfg->pc == 0 && cfg->pm == 0 && !cfg->default_ops && cfg->repair != REP_CHANGE && cfg->mut != 7 && cfg->cx != 7 && evals != 0)
            failf("unchanged-reevaluated", "generation %zu: %llu evaluations although no candidate was changed", g, (unsigned long long)evals);
        if (g && !prob->dynamic && cfg->pc == 0 && cfg->pm == 0) PROBE("generation of unchanged candidates");
        if (g && evals < cfg->pop) PROBE("evaluation skipped");
        if (g == 0 && prob->resume)
        {
            PROBE("initial candidates already evaluated");
            size_t given = std::min(cfg->pop, prob->initial.size());
            if (!prob->dynamic && evals > cfg->pop - given) failf("unchanged-reevaluated", "%llu evaluations of %zu candidates in the first generation, %zu of them were already evaluated", (unsigned long long)evals, cfg->pop, given);
        }
        // chromosomes that must be in the cache during the next generation
        cache_pending = false;
        if (!prob->dynamic && cfg->cache && g >= 1)
        {
            for (auto& c : gens[g - 1].pop) cached_all.insert(c.chrom);
            cache_pending = cached_all.size() <= cfg->cache * cfg->pop;
        }
        if (cache_pending) PROBE("cache in use");
    }
    if ((flags & F_REPLACEMENT) && g) check_replacement(gens.back(), cur);
    if (flags & F_REPLACEMENT) { if (cur.pop.size() != cfg->pop) failf("population-size", "generation %zu: population of %zu candidates instead of %zu", g, cur.pop.size(), cfg->pop); }
    std::sort(cur.evaluated.begin(), cur.evaluated.end(), [](const Cand& a, const Cand& b) { return a.chrom < b.chrom; });
    gens.push_back(std::move(cur)); cur = Gen{};
    calls_at_gen = fitness_calls;
    if (flags & F_METRICS) check_metrics(md());
    epoch++;
}

static bool erase_one(std::vector<Cand>& v, const Cand& c) { for (auto it = v.begin(); it != v.end(); ++it) if (*it == c) { v.erase(it); return true; } return false; }

void Obs::check_replacement(const Gen& prev, const Gen& now)
{
    size_t g = gens.size();
    bool soga = prob->nobj == 1;
    Repl repl = cfg->algo == A_SOGA ? cfg->repl : R_BEST;
    if (soga && repl == R_LAMBDA)
    {
        if (have_expect)
        {
            if (replace_fmat.size() != now.fmat.size()) failf("replacement", "generation %zu: population of %zu, the replacement function chose %zu", g, now.fmat.size(), replace_fmat.size());
            for (size_t i = 0; i < now.fmat.size(); i++) if (now.fmat[i] != replace_fmat[i]) failf("replacement", "generation %zu: candidate %zu isn't the one chosen by the replacement function", g, i);
        }
        have_expect = false;
    }
    // population members are previous members or children
    std::vector<Cand> parents = prev.pop, children;
    bool known = cfg->repair != REP_NONE;
    if (known)
    {
        for (auto& c : now.repaired) children.push_back(Cand{ c, prob->value(c, now.epoch), true });
        std::vector<Cand> all = parents; all.insert(all.end(), children.begin(), children.end());
        std::vector<Fit> allf; for (auto& c : all) allf.push_back(c.fit);
        std::vector<Cand> rest = all;
        bool distinct_needed = !(soga && repl == R_LAMBDA);
        for (auto& c : now.pop) { if (!(distinct_needed ? erase_one(rest, c) : std::find(all.begin(), all.end(), c) != all.end())) failf("not-parent-or-child", "generation %zu: candidate %s %s is neither a member of the previous population nor one of its children (or was taken twice)", g, str(c.chrom).c_str(), str(c.fit).c_str()); }
        if (soga && repl == R_BEST)
        {
            std::vector<double> f, n; for (auto& x : allf) f.push_back(x[0]); for (auto& x : now.pop) n.push_back(x.fit[0]);
            std::sort(f.rbegin(), f.rend()); std::sort(n.rbegin(), n.rend()); f.resize(n.size());
            if (f != n) failf("not-best", "generation %zu: the population doesn't consist of the best of parents and children: %s instead of %s", g, str(n).c_str(), str(f).c_str());
        }
        if (soga && repl == R_CHILDREN)
        {
            std::vector<Cand> ch = children;
            for (auto& c : now.pop) if (!erase_one(ch, c)) failf("not-children", "generation %zu: the population doesn't consist of the children", g);
        }
        if (soga && repl == R_ELITISM)
        {
            size_t e = std::min(cfg->elite, cfg->pop), nch = 0; std::vector<Cand> ch = children;
            for (auto& c : now.pop) nch += erase_one(ch, c);
            if (nch + e < cfg->pop) failf("elitism", "generation %zu: only %zu of %zu candidates are children with %zu elites", g, nch, cfg->pop, e);
        }
        if (!soga)
        {
            auto r = naive_ranks(allf); auto sorted = r; std::sort(sorted.begin(), sorted.end()); sorted.resize(now.pop.size());
            std::vector<size_t> nr; for (auto& c : now.pop) for (size_t i = 0; i < allf.size(); i++) if (allf[i] == c.fit) { nr.push_back(r[i]); break; }
            std::sort(nr.begin(), nr.end());
            if (nr != sorted) failf("rank-discarded", "generation %zu: a candidate was discarded while one of a worse non-domination rank was kept", g);
        }
    }
    if (soga && repl == R_ELITISM)
    {
        size_t e = std::min(cfg->elite, cfg->pop);
        std::vector<double> f; for (auto& c : prev.pop) f.push_back(c.fit[0]);
        std::sort(f.rbegin(), f.rend()); f.resize(e);
        std::vector<double> n; for (auto& c : now.pop) n.push_back(c.fit[0]);
        for (double x : f) { auto it = std::find(n.begin(), n.end(), x); if (it == n.end()) failf("elite-lost", "generation %zu: one of the %zu best parents (fitness %g) isn't in the population", g, e, x); n.erase(it); }
    }
    bool elitist = !soga || repl == R_BEST || (repl == R_ELITISM && cfg->elite > 0);
    if (elitist && soga && !prob->dynamic)
    {
        auto best = [](const Gen& x) { double m = -INFINITY; for (auto& c : x.pop) m = std::max(m, c.fit[0]); return m; };
        if (best(now) < best(prev)) failf("best-lost", "generation %zu: the best fitness went from %g to %g", g, best(prev), best(now));
    }
    if (elitist && !soga && !prob->dynamic)
    {
        // a solution may only be lost without a better one in its place when the population is full of non-dominated solutions
        auto covered = [&](const Fit& f) { for (auto& c : now.pop) if (c.fit == f || dominates(c.fit, f)) return true; return false; };
        auto beaten = [&](const Fit& f) { for (auto& c : now.pop) if (dominates(c.fit, f)) return true; for (auto& c : prev.pop) if (dominates(c.fit, f)) return true; return false; };
        for (auto& a : prev.pop) if (!covered(a.fit))
        {
            for (auto& c : now.pop) if (beaten(c.fit)) failf("front-lost", "generation %zu: %s of the previous population was lost and nothing as good was kept, while the dominated %s was", g, str(a.fit).c_str(), str(c.fit).c_str());
            PROBE("crowded front"); break;
        }
    }
}

// the documented order of the calls of a user defined algorithm, selection or replacement method
static std::vector<Fit> rows(const FitnessMatrix& f, size_t n) { std::vector<Fit> v; for (size_t i = 0; i < n && i < f.size(); i++) v.push_back(Fit(f[i].begin(), f[i].end())); return v; }
void Obs::on_alg_init(const GaInfo& ga)
{
    NoSim _;
    alg_inits++;
    if (!(flags & F_LIFECYCLE)) return;
    if (alg_inits != 1 || !gens.empty() || alg_prepares || alg_nexts) failf("algorithm-init", "the algorithm was initialised %d times, after %zu generations", alg_inits, gens.size());
    if (ga.fitness_matrix().size() != cfg->pop || ga.num_objectives() != (size_t)prob->nobj) failf("algorithm-init", "the algorithm was initialised when the fitness matrix had %zu rows, for a population of %zu", ga.fitness_matrix().size(), cfg->pop);
    if (ga.generation_cntr() != 0) failf("generation-counter", "generation_cntr() is %zu when the algorithm is initialised", ga.generation_cntr());
}
void Obs::on_alg_prepare(const GaInfo& ga, const FitnessMatrix& f)
{
    NoSim _;
    alg_prepares++; alg_selects = 0;
    if (!(flags & F_LIFECYCLE)) return;
    PROBE("user defined algorithm");
    if (alg_inits != 1) failf("algorithm-init", "the algorithm was initialised %d times before the selections", alg_inits);
    if (alg_prepares != (int)gens.size() || alg_nexts + 1 != (int)gens.size()) failf("prepare-count", "the selections were prepared %d times and %d populations made after %zu generations", alg_prepares, alg_nexts, gens.size());
    if (rows(f, f.size()) != gens.back().fmat) failf("algorithm-population", "generation %zu: the selections are prepared with another fitness matrix than that of the population", gens.size());
    if (ga.generation_cntr() + 1 != gens.size()) failf("generation-counter", "generation_cntr() is %zu in the selections after %zu generations", ga.generation_cntr(), gens.size());
}
void Obs::on_alg_select(const FitnessMatrix& f)
{
    NoSim _;
    alg_selects++;
    if (!(flags & F_LIFECYCLE)) return;
    if (alg_prepares != (int)gens.size() || alg_nexts + 1 != (int)gens.size()) failf("prepare-count", "a candidate is selected after the selections were prepared %d times and %d populations made, after %zu generations", alg_prepares, alg_nexts, gens.size());
    if (alg_selects <= 2 && rows(f, f.size()) != gens.back().fmat) failf("algorithm-population", "generation %zu: a candidate is selected by another fitness matrix than that of the population", gens.size());
    if (f.size() != cfg->pop) failf("algorithm-population", "generation %zu: a candidate is selected by a fitness matrix of %zu rows for %zu candidates", gens.size(), f.size(), cfg->pop);
}
void Obs::on_alg_next(const FitnessMatrix& f)
{
    NoSim _;
    alg_nexts++;
    if (!(flags & F_LIFECYCLE)) return;
    if (alg_inits != 1 || alg_nexts != (int)gens.size()) failf("replacement-count", "%d populations were made after %zu generations, the algorithm was initialised %d times", alg_nexts, gens.size(), alg_inits);
    if (alg_prepares && alg_selects != cfg->pop + cfg->pop % 2) failf("selection-count", "generation %zu: %zu candidates were selected for a population of %zu", gens.size(), alg_selects, cfg->pop);
    if (f.size() != 2 * cfg->pop) failf("algorithm-population", "generation %zu: the next population is made from %zu candidates, the population size is %zu", gens.size(), f.size(), cfg->pop);
    if (rows(f, cfg->pop) != gens.back().fmat) failf("algorithm-population", "generation %zu: the first half of the fitness matrix that the next population is made from isn't that of the population", gens.size());
    if (!prob->dynamic && prob->initial.empty() && gens.size() == 1) // every child is an unchanged parent or was just evaluated
        for (size_t i = cfg->pop; i < f.size(); i++)
        {
            Fit x(f[i].begin(), f[i].end()); bool ok = false;
            for (auto& r : gens.back().fmat) ok = ok || r == x;
            for (auto& c : cur.evaluated) ok = ok || c.fit == x;
            if (!ok) failf("algorithm-population", "generation %zu: the fitness %s of child %zu was never computed", gens.size(), str(x).c_str(), i - cfg->pop);
        }
}

void Obs::on_metric(const GaInfo& ga)
{
    NoSim _;
    if ((flags & F_LIFECYCLE) && ga.generation_cntr() != (size_t)metric_updates) failf("generation-counter", "generation_cntr() is %zu when the metrics of generation %d are updated", ga.generation_cntr(), metric_updates);
    metric_updates++;
}

void Obs::on_stop(const GaInfo& ga, bool result, size_t)
{
    NoSim _;
    stops++;
    if ((flags & F_LIFECYCLE) && stops != (int)gens.size()) failf("stop-count", "stop condition called %d times after %zu generations", stops, gens.size());
    if ((flags & F_LIFECYCLE) && ga.generation_cntr() + 1 != gens.size()) failf("generation-counter", "generation_cntr() is %zu when the stop condition is checked after %zu generations", ga.generation_cntr(), gens.size());
    if ((flags & F_STOP) && !gens.empty())
    {
        bool last = gens.size() >= expected_max_gen, expect = eval_stop_oracle(cfg->stop, gens);
        if (!stop_is_ambiguous(cfg->stop, gens))
        {
            if (result && !expect && !last) failf("stopped-early", "the stop condition %s held after %zu generations, but its criterion doesn't", sim::describe(cfg->stop).c_str(), gens.size());
            if (!result && (expect || last)) failf("not-stopped", "the stop condition %s didn't hold after %zu generations, but its criterion does%s", sim::describe(cfg->stop).c_str(), gens.size(), last ? " (maximum number of generations)" : "");
            PROBE("stop condition compared");
        }
    }
    stop_true = result;
}

void Obs::check_metrics(const MetricData& md)
{
    if (md.present & ~cfg->metrics) failf("metric-access", "get_metric_if returns metrics (%x) that are not tracked (%x)", md.present, cfg->metrics);
    size_t n = gens.size();
    auto cnt = [&](const char* name, size_t got) { if (got != n) failf("metric-count", "%s has %zu entries after %zu generations", name, got, n); };
    if (cfg->metrics & M_BASIC) { cnt("FitnessMin", md.fmin.size()); cnt("FitnessMax", md.fmax.size()); cnt("FitnessMean", md.fmean.size()); cnt("FitnessEvaluations", md.evals.size()); }
    if (cfg->metrics & M_STATS) { cnt("FitnessVariance", md.fvar.size()); cnt("FitnessStdDev", md.fstd.size()); }
    if (cfg->metrics & M_NADIR) cnt("NadirPoint", md.nadir.size());
    if (cfg->metrics & M_HV) cnt("Hypervolume", md.hv.size());
    if (cfg->metrics & M_AUTOHV) cnt("AutoHypervolume", md.autohv.size());
    auto same = [&](const char* name, size_t g, const Fit& got, const Fit& want) { bool ok = got.size() == want.size(); for (size_t i = 0; ok && i < got.size(); i++) ok = close(got[i], want[i], 1e-8); if (!ok) failf("metric-value", "%s of generation %zu is %s, expected %s (now in generation %zu)", name, g, str(got).c_str(), str(want).c_str(), n - 1); };
    Fit worst((size_t)prob->nobj, INFINITY);
    for (auto& g : gens) for (auto& f : g.fmat) for (size_t j = 0; j < f.size(); j++) worst[j] = std::min(worst[j], f[j]);
    for (size_t g = 0; g < n; g++)
    {
        const auto& fm = gens[g].fmat; size_t d = fm[0].size();
        Fit mn(d, INFINITY), mx(d, -INFINITY), mean(d, 0), var(d, 0), sd(d, 0);
        for (auto& f : fm) for (size_t j = 0; j < d; j++) { mn[j] = std::min(mn[j], f[j]); mx[j] = std::max(mx[j], f[j]); mean[j] += f[j] / (double)fm.size(); }
        if (fm.size() > 1) for (auto& f : fm) for (size_t j = 0; j < d; j++) var[j] += (f[j] - mean[j]) * (f[j] - mean[j]) / ((double)fm.size() - 1);
        for (size_t j = 0; j < d; j++) sd[j] = std::sqrt(var[j]);
        if (cfg->metrics & M_BASIC)
        {
            same("FitnessMin", g, md.fmin[g], mn); same("FitnessMax", g, md.fmax[g], mx); same("FitnessMean", g, md.fmean[g], mean);
            size_t ev = gens[g].evals - (g ? gens[g - 1].evals : 0);
            if (md.evals[g] != ev) failf("metric-value", "FitnessEvaluations of generation %zu is %zu, expected %zu", g, md.evals[g], ev);
        }
        if (cfg->metrics & M_STATS) { same("FitnessVariance", g, md.fvar[g], var); same("FitnessStdDev", g, md.fstd[g], sd); }
        if (cfg->metrics & M_NADIR)
        {
            Fit nad(d, INFINITY);
            for (auto& a : fm) { bool dom = false; for (auto& b : fm) dom = dom || dominates(b, a); if (!dom) for (size_t j = 0; j < d; j++) nad[j] = std::min(nad[j], a[j]); }
            same("NadirPoint", g, md.nadir[g], nad);
        }
        if (cfg->metrics & M_HV) { Fit ref(d, -(prob->len > 8 ? 131072.0 : 8192.0) * prob->scale); double v = naive_hypervolume(fm, ref); if (!close(md.hv[g], v, 1e-8)) failf("metric-value", "Hypervolume of generation %zu is %.17g, expected %.17g", g, md.hv[g], v); PROBE("hypervolume compared"); }
        if (cfg->metrics & M_AUTOHV) { double v = naive_hypervolume(fm, worst); double sc = 1; for (size_t j = 0; j < d; j++) sc *= std::max(1.0, 200 * prob->scale); if (std::abs(md.autohv[g] - v) > 1e-9 * sc) failf("metric-value", "AutoHypervolume of generation %zu is %.17g, expected %.17g (now in generation %zu)", g, md.autohv[g], v, n - 1); }
    }
}

void Obs::check_solutions(const std::vector<Cand>& sols, const std::vector<Cand>& getter)
{
    NoSim _;
    for (auto& c : sols) well_formed(c.chrom, "returned solutions");
    if (flags & F_FITNESS) for (auto& c : sols) { bool ok = false; for (uint64_t e = 0; !ok && e <= epoch; e++) ok = c.fit == prob->value(c.chrom, e); if (!ok || !c.evaluated) failf("wrong-fitness", "returned solution %s has fitness %s, the fitness function returns %s", str(c.chrom).c_str(), str(c.fit).c_str(), str(prob->value(c.chrom, epoch)).c_str()); }
    if (!(flags & F_OPTIMAL)) return;
    if (!(sols == getter)) failf("solutions-getter", "solutions() differs from what solve returned");
    if (sols.empty()) failf("no-solutions", "solve returned no solutions");
    if (prob->dynamic) return;
    std::set<Chrom> got;
    for (auto& c : sols) if (!got.insert(c.chrom).second) failf("duplicate-solution", "%s was returned twice", str(c.chrom).c_str());
    for (auto& a : sols) for (auto& b : sols) if (dominates(b.fit, a.fit)) failf("dominated-solution", "returned solution %s is dominated by %s", str(a.fit).c_str(), str(b.fit).c_str());
    std::vector<const Cand*> pool;
    if (cfg->keep_all) { for (auto& g : gens) for (auto& c : g.pop) pool.push_back(&c); } else for (auto& c : gens.back().pop) pool.push_back(&c);
    std::set<Chrom> want;
    for (auto* a : pool) { bool dom = false; for (auto* b : pool) if (dominates(b->fit, a->fit)) { dom = true; break; } if (!dom) want.insert(a->chrom); }
    for (auto& c : want) if (!got.count(c)) failf("optimum-lost", "optimal solution %s %s isn't among the %zu returned ones", str(c).c_str(), str(prob->value(c, 0)).c_str(), got.size());
    for (auto& c : got) if (!want.count(c)) failf("extra-solution", "returned solution %s isn't an optimal member of %s", str(c).c_str(), cfg->keep_all ? "the populations" : "the last population");
    if (want.size() > 1) PROBE("several optimal solutions");
}

void Obs::end_solve(bool threw)
{
    NoSim _;
    inside = false;
    if (active) failf("user-code-after-return", "%d calls of user functions were still running when solve returned", active);
    if (threw) return;
    size_t G = gens.size();
    if (G == 0 && (flags & (F_LIFECYCLE | F_STOP | F_OPTIMAL))) failf("callback-count", "the run ended without a call of the generation callback");
    if (flags & F_LIFECYCLE)
    {
        if (metric_updates != (int)G) failf("metric-count", "metrics updated %d times for %zu generations", metric_updates, G);
        if (stops != (int)G) failf("stop-count", "stop condition called %d times for %zu generations", stops, G);
        if (!stop_true) failf("stopped-early", "the run ended although the stop condition didn't hold");
        if (fitness_calls != calls_at_gen) failf("evaluation-count", "fitness function called after the last generation");
    }
    if (flags & (F_STOP | F_LIFECYCLE))
    {
        if (G > expected_max_gen) failf("too-many-generations", "%zu generations in a run of at most %zu", G, expected_max_gen);
        std::vector<Gen> h;
        for (size_t g = 0; g < G; g++)
        {
            h.push_back(gens[g]);
            if (stop_is_ambiguous(cfg->stop, h)) return;
            bool s = eval_stop_oracle(cfg->stop, h);
            if (g + 1 < G && s) failf("not-stopped", "the run continued after generation %zu, in which %s held", g, sim::describe(cfg->stop).c_str());
            if (g + 1 == G && !s && G != expected_max_gen) failf("stopped-early", "the run stopped after %zu of %zu generations although %s didn't hold", G, expected_max_gen, sim::describe(cfg->stop).c_str());
        }
        if (G < expected_max_gen) PROBE("stopped early");
    }
}

void Obs::add_digest()
{
    NoSim _;
    for (size_t g = 0; g < gens.size(); g++)
    {
        auto& x = gens[g];
        digest.add((uint64_t)x.evals);
        for (auto& c : x.evaluated) for (double d : c.chrom) digest.add(d);
        for (auto& c : x.pop) { for (double d : c.chrom) digest.add(d); for (double d : c.fit) digest.add(d); }
        digest.note("gen%zu:%llx ", g, (unsigned long long)digest.h);
    }
}

// ---------------------------------------------------------------- library objects

namespace {

struct UserStop final : stopping::StopCondition
{
    Obs* o; int which; size_t calls = 0;
    UserStop(Obs* o, int w) : o(o), which(w) {}
    void initialize(const GaInfo&) override { calls = 0; }
    bool stop_condition(const GaInfo&) override { return user_stop_value(which, ++calls); }
};

// type erased part of a composite condition
struct AnyStop final : stopping::StopCondition
{
    std::unique_ptr<stopping::StopCondition> in;
    explicit AnyStop(std::unique_ptr<stopping::StopCondition> p) : in(std::move(p)) {}
    AnyStop(AnyStop&&) = default;
    void initialize(const GaInfo& ga) override { in->initialize(ga); }
    bool stop_condition(const GaInfo& ga) override { return (*in)(ga); }
};

struct TopStop final : stopping::StopCondition
{
    std::unique_ptr<stopping::StopCondition> in; Obs* o;
    TopStop(std::unique_ptr<stopping::StopCondition> p, Obs* o) : in(std::move(p)), o(o) {}
    void initialize(const GaInfo& ga) override { { NoSim _; o->stop_inits++; } in->initialize(ga); }
    bool stop_condition(const GaInfo& ga) override
    {
        UserCall u(*o, FN_STOP);
        bool r = (*in)(ga);
        o->on_stop(ga, r, ga.max_gen());
        return r;
    }
};

struct UserMetric final : metrics::Monitor<UserMetric, std::vector<size_t>>
{
    Obs* o;
    explicit UserMetric(Obs* o) : o(o) {}
    void initialize(const GaInfo&) override { NoSim _; data_.clear(); o->metric_inits++; }
    void update(const GaInfo& ga) override { UserCall u(*o, FN_METRIC); o->on_metric(ga); data_.push_back(ga.num_fitness_evals()); }
};

}

std::unique_ptr<stopping::StopCondition> make_stop(const StopSpec& s, Obs* o)
{
    switch (s.kind)
    {
    case 0: return std::make_unique<stopping::NoEarlyStop>();
    case 1: return std::make_unique<stopping::FitnessEvals>(s.n);
    case 2: return std::make_unique<stopping::FitnessValue>(FitnessVector(s.threshold.begin(), s.threshold.end()));
    case 3: return std::make_unique<stopping::FitnessMeanStall>(s.n, s.delta);
    case 4: return std::make_unique<stopping::FitnessBestStall>(s.n, s.delta);
    case 5: { using stopping::operator&&; auto x = AnyStop(make_stop(*s.a, o)) && AnyStop(make_stop(*s.b, o)); return std::make_unique<decltype(x)>(std::move(x)); }
    case 6: { using stopping::operator||; auto x = AnyStop(make_stop(*s.a, o)) || AnyStop(make_stop(*s.b, o)); return std::make_unique<decltype(x)>(std::move(x)); }
    case 7: { using stopping::operator!; auto x = !AnyStop(make_stop(*s.a, o)); return std::make_unique<decltype(x)>(std::move(x)); }
    default: return std::make_unique<UserStop>(o, s.which);
    }
}
std::unique_ptr<stopping::StopCondition> wrap_stop(const Config& c, Obs* o) { return std::make_unique<TopStop>(make_stop(c.stop, o), o); }

namespace {

struct UserSelection final : selection::Selection
{
    std::unique_ptr<selection::Selection> in; Obs* o;
    UserSelection(std::unique_ptr<selection::Selection> p, Obs* o) : in(std::move(p)), o(o) {}
    void initializeImpl(const GaInfo& ga) override { o->on_alg_init(ga); in->initializeImpl(ga); }
    void prepareSelectionsImpl(const GaInfo& ga, const FitnessMatrix& f) override { UserCall u(*o, FN_SELECT); o->on_alg_prepare(ga, f); in->prepareSelectionsImpl(ga, f); }
    size_t selectImpl(const GaInfo& ga, const FitnessMatrix& f) const override { UserCall u(*o, FN_SELECT); o->on_alg_select(f); return in->selectImpl(ga, f); }
};
struct UserReplacement final : replacement::Replacement
{
    std::unique_ptr<replacement::Replacement> in; Obs* o;
    UserReplacement(std::unique_ptr<replacement::Replacement> p, Obs* o) : in(std::move(p)), o(o) {}
    small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix& f) override { UserCall u(*o, FN_REPLACE); o->on_alg_next(f); return in->nextPopulationImpl(ga, f); }
};
struct UserAlgorithm final : algorithm::Algorithm
{
    std::unique_ptr<algorithm::Algorithm> in; Obs* o; bool own_front;
    UserAlgorithm(std::unique_ptr<algorithm::Algorithm> p, Obs* o, bool own) : in(std::move(p)), o(o), own_front(own) {}
    selection::Selection* sel() const { return (selection::Selection*)in.get(); }
    replacement::Replacement* rep() const { return (replacement::Replacement*)in.get(); }
    void initializeImpl(const GaInfo& ga) override { UserCall u(*o, FN_REPLACE); o->on_alg_init(ga); in->initialize(ga); }
    void prepareSelectionsImpl(const GaInfo& ga, const FitnessMatrix& f) override { UserCall u(*o, FN_SELECT); o->on_alg_prepare(ga, f); in->prepareSelections(ga, f); }
    size_t selectImpl(const GaInfo& ga, const FitnessMatrix& f) const override { UserCall u(*o, FN_SELECT); o->on_alg_select(f); return sel()->selectImpl(ga, f); }
    small_vector<size_t> nextPopulationImpl(const GaInfo& ga, const FitnessMatrix& f) override { UserCall u(*o, FN_REPLACE); o->on_alg_next(f); return rep()->nextPopulationImpl(ga, f); }
    // the indices of the optimal members of the current population, or nothing
    small_vector<size_t> optimalSolutionsImpl(const GaInfo& ga) const override
    {
        UserCall u(*o, FN_REPLACE);
        if (!own_front) return {};
        std::vector<size_t> idx;
        {
            NoSim _;
            auto f = rows(ga.fitness_matrix(), ga.fitness_matrix().size());
            for (size_t i = 0; i < f.size(); i++) { bool dom = false; for (auto& x : f) dom = dom || dominates(x, f[i]); if (!dom) idx.push_back(i); }
        }
        small_vector<size_t> r; for (size_t i : idx) r.push_back(i);
        { NoSim _; idx = {}; }
        return r;
    }
};

std::unique_ptr<algorithm::Algorithm> builtin_algorithm(const Config& c, Obs* o);

}

std::unique_ptr<algorithm::Algorithm> make_algorithm(const Config& c, Obs* o, int)
{
    auto a = builtin_algorithm(c, o);
    if (a && c.proto == 1) return std::make_unique<UserAlgorithm>(std::move(a), o, c.npoint % 2);
    return a;
}

namespace {

std::unique_ptr<algorithm::Algorithm> builtin_algorithm(const Config& c, Obs* o)
{
    static const algorithm::reflines::RefLineGenerator gens[] = { algorithm::reflines::quasirandomSimplexPointsMirror, algorithm::reflines::quasirandomSimplexPointsSort, algorithm::reflines::quasirandomSimplexPointsRoot, algorithm::reflines::quasirandomSimplexPointsLog };
    switch (c.algo)
    {
    case A_DEFAULT: return nullptr;
    case A_NSGA2: return std::make_unique<algorithm::NSGA2>();
    case A_NSGA3: return c.refgen < 4 ? std::make_unique<algorithm::NSGA3>(gens[c.refgen]) : std::make_unique<algorithm::NSGA3>();
    case A_SOGA: break;
    }
    std::unique_ptr<selection::Selection> s;
    algorithm::SingleObjective::SelectionCallable s_lambda;
    algorithm::SingleObjective::ReplacementCallable r_lambda;
    switch (c.sel)
    {
    case S_ROULETTE: s = std::make_unique<selection::Roulette>(); break;
    case S_TOURNAMENT: s = std::make_unique<selection::Tournament>(std::min<size_t>(2 + c.npoint % 2, c.pop)); break;
    case S_RANK: s = c.npoint % 2 ? std::make_unique<selection::Rank>() : std::make_unique<selection::Rank>(c.cxp, c.cxp + c.mutp); break;
    case S_SIGMA: s = std::make_unique<selection::Sigma>(); break;
    case S_BOLTZMANN: s = std::make_unique<selection::Boltzmann>(); break;
    default: s_lambda = [o](const GaInfo&, const FitnessMatrix& f) { UserCall u(*o, FN_SELECT); return rng::randomIndex(f); }; s = std::make_unique<selection::Lambda>(s_lambda);
    }
    std::unique_ptr<replacement::Replacement> r;
    switch (c.repl)
    {
    case R_BEST: r = std::make_unique<replacement::KeepBest>(); break;
    case R_ELITISM: r = std::make_unique<replacement::Elitism>(c.elite); break;
    case R_CHILDREN: r = std::make_unique<replacement::KeepChildren>(); break;
    default: r_lambda = [o](const GaInfo& ga, const FitnessMatrix& f)
    {
        UserCall u(*o, FN_REPLACE);
        small_vector<size_t> idx(ga.population_size());
        auto order = rng::sampleUnique(size_t(0), f.size(), idx.size());
        std::copy(order.begin(), order.end(), idx.begin());
        NoSim _;
        o->replace_fmat.clear(); for (size_t i : idx) o->replace_fmat.push_back(Fit(f[i].begin(), f[i].end()));
        o->have_expect = true;
        return idx;
    };
    r = std::make_unique<replacement::Lambda>(r_lambda);
    }
    if (c.proto == 2)
    {
        s = std::make_unique<UserSelection>(std::move(s), o);
        r = std::make_unique<UserReplacement>(std::move(r), o);
        return std::make_unique<algorithm::SingleObjective>(std::move(s), std::move(r));
    }
    if (c.path == 4)
    {
        if (s_lambda && r_lambda) return std::make_unique<algorithm::SingleObjective>(s_lambda, r_lambda);
        if (s_lambda && c.repl == R_BEST) return std::make_unique<algorithm::SingleObjective>(s_lambda);
        if (c.sel == S_TOURNAMENT && c.repl == R_ELITISM) return std::make_unique<algorithm::SingleObjective>(selection::Tournament(std::min<size_t>(2 + c.npoint % 2, c.pop)), replacement::Elitism(c.elite));
        if (c.sel == S_ROULETTE && c.repl == R_BEST) return std::make_unique<algorithm::SingleObjective>(selection::Roulette{});
    }
    if (c.path <= 1 || c.path == 4) return std::make_unique<algorithm::SingleObjective>(std::move(s), std::move(r));
    // the same by the setters, of the algorithm and of the methods
    auto a = std::make_unique<algorithm::SingleObjective>();
    if (c.path == 3) { a->selection_method(selection::Tournament(1)); a->replacement_method(replacement::KeepChildren{}); }
    if (auto* t = dynamic_cast<selection::Tournament*>(s.get()); t && c.path == 5) { selection::Tournament u(t->size() + 1); u.size(t->size()); a->selection_method(u); }
    else if (auto* t = dynamic_cast<selection::Rank*>(s.get()); t && c.path == 5) { selection::Rank u(0.5, 0.75); u.weights(t->min_weight(), t->max_weight()); a->selection_method(u); }
    else if (c.path == 5 && c.sel == S_SIGMA) { selection::Sigma u(7.0); u.scale(selection::Sigma{}.scale()); a->selection_method(u); }
    else if (c.path == 5 && s_lambda) a->selection_method(s_lambda);
    else a->selection_method(std::move(s));
    if (auto* t = dynamic_cast<replacement::Elitism*>(r.get()); t && c.path == 5) { replacement::Elitism u(t->elite_num() + 1); u.elite_num(t->elite_num()); a->replacement_method(u); }
    else if (c.path == 5 && r_lambda) a->replacement_method(r_lambda);
    else a->replacement_method(std::move(r));
    return a;
}

}

void set_metrics(GaInfo& ga, const Config& c, Obs* o, int nobj)
{
    using namespace metrics;
    double sc = (o->prob->len > 8 ? 131072.0 : 8192.0) * o->prob->scale;
    FitnessVector ref((size_t)nobj, -sc);
    uint32_t m = c.metrics;
    if (m == (M_BASIC | M_STATS | M_NADIR | M_HV | M_AUTOHV)) ga.track(UserMetric{ o }, FitnessMin{}, FitnessMax{}, FitnessMean{}, FitnessVariance{}, FitnessStdDev{}, NadirPoint{}, Hypervolume{ ref }, AutoHypervolume{}, FitnessEvaluations{});
    else if (m == (M_BASIC | M_STATS)) ga.track(FitnessMin{}, FitnessMax{}, FitnessMean{}, FitnessVariance{}, FitnessStdDev{}, FitnessEvaluations{}, UserMetric{ o });
    else if (m == (M_NADIR | M_HV)) ga.track(NadirPoint{}, Hypervolume{ ref }, UserMetric{ o });
    else if (m == M_HV) ga.track(Hypervolume{ ref }, UserMetric{ o });
    else if (m == M_AUTOHV) ga.track(UserMetric{ o }, AutoHypervolume{});
    else ga.track(UserMetric{ o });
}

// A tracked metric can be read by index, by iteration, as a whole, by reference and by pointer, and all agree.
template<typename M, typename F> static void each(const GaInfo& ga, const char* name, F f)
{
    const M* m = ga.get_metric_if<M>(); if (!m) return;
    if (&ga.get_metric<M>() != m) failf("metric-access", "get_metric and get_metric_if return different objects for %s", name);
    if (m->data().size() != m->size()) failf("metric-access", "%s has %zu values in data() and %zu according to size()", name, m->data().size(), m->size());
    auto eq = [](const auto& x, const auto& y) { if constexpr (requires { x.begin(); }) return std::equal(x.begin(), x.end(), y.begin(), y.end()); else return x == y; };
    size_t i = 0; for (auto it = m->begin(); it != m->end(); ++it, ++i) { if (i == m->size()) break; if (!eq(*it, (*m)[i]) || !eq(m->data()[i], (*m)[i])) failf("metric-access", "value %zu of %s differs between iteration, data() and the index operator", i, name); f((*m)[i]); }
    if (i != m->size() || (size_t)(m->end() - m->begin()) != m->size()) failf("metric-access", "%s has %zu values when iterating over it, %zu according to size()", name, i, m->size());
}
template<typename M> static std::vector<Fit> rows(const GaInfo& ga, const char* name) { std::vector<Fit> r; each<M>(ga, name, [&](const auto& x) { r.push_back(Fit(x.begin(), x.end())); }); return r; }

MetricData get_metrics(const GaInfo& ga)
{
    using namespace metrics;
    MetricData d;
    d.fmin = rows<FitnessMin>(ga, "FitnessMin"); d.fmax = rows<FitnessMax>(ga, "FitnessMax"); d.fmean = rows<FitnessMean>(ga, "FitnessMean");
    d.fvar = rows<FitnessVariance>(ga, "FitnessVariance"); d.fstd = rows<FitnessStdDev>(ga, "FitnessStdDev"); d.nadir = rows<NadirPoint>(ga, "NadirPoint");
    each<Hypervolume>(ga, "Hypervolume", [&](double x) { d.hv.push_back(x); }); each<AutoHypervolume>(ga, "AutoHypervolume", [&](double x) { d.autohv.push_back(x); });
    each<FitnessEvaluations>(ga, "FitnessEvaluations", [&](size_t x) { d.evals.push_back(x); }); each<UserMetric>(ga, "the user's metric", [](size_t) {});
    auto bit = [&](const void* m, uint32_t b) { if (m) d.present |= b; };
    bit(ga.get_metric_if<FitnessMin>(), M_BASIC); bit(ga.get_metric_if<FitnessVariance>(), M_STATS); bit(ga.get_metric_if<NadirPoint>(), M_NADIR); bit(ga.get_metric_if<Hypervolume>(), M_HV); bit(ga.get_metric_if<AutoHypervolume>(), M_AUTOHV);
    return d;
}

std::unique_ptr<Box> make_box(const Config& c, Obs* o)
{
    switch (c.enc) { case BIN: return make_bin(c, o); case INT: return make_int(c, o); case PERM: return make_perm(c, o); case CUST: return make_cust(c, o); default: return make_real(c, o); }
}

void warm_up()
{
    size_t n = execution_threads();
    std::atomic<size_t> turn{ 0 };
    detail::execution_context::global_thread_pool.reset_scheduler();
    detail::parallel_for(detail::iota_iterator(size_t(0)), detail::iota_iterator(n), [&](size_t i)
    {
        while (turn.load() != i) sim_yield();
        (void)rng::prng();
        turn.store(i + 1);
    });
}

void set_threads(size_t n) { execution_threads(n); }
size_t random_threads(Prng& p) { return (size_t)(p.chance(0.15) ? 1 : p.chance(0.03) ? p.range(5, 12) : p.range(2, 4)); }

} // namespace sim
