// Simulated multi-objective computations, population replacement of NSGA-II/III, and selection: C12, C25.
#include "ga.hpp"
#include <core/ga_base.hpp>
#include <encoding/binary.hpp>
#include <algorithm/algorithm.hpp>
#include <algorithm/nd_sort.hpp>
#include <algorithm/reference_lines.hpp>
#include <metrics/pop_stats.hpp>
#include <utility/cone_tree.hpp>
#include <utility/rng.hpp>
#include <utility/thread_pool.hpp>
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <thread>
#include <numeric>

using namespace gapp;
using namespace sim;

namespace {

using FM = std::vector<Fit>;

std::string show(const FM& f)
{
    std::string s = std::to_string(f.size()) + " points"; char b[40];
    for (size_t i = 0; i < f.size() && i < 8; i++) { s += " ("; for (double x : f[i]) { std::snprintf(b, sizeof b, "%s%.9g", s.back() == '(' ? "" : ",", x); s += b; } s += ")"; }
    return s;
}

FitnessMatrix to_fmat(const FM& f)
{
    FitnessMatrix m; if (f.empty()) return m;
    m.reserve(f.size(), f[0].size());
    for (auto& r : f) m.append_row(FitnessVector(r.begin(), r.end()));
    return m;
}
FM from_fmat(const FitnessMatrix& m) { FM r; for (size_t i = 0; i < m.nrows(); i++) { auto row = m[i]; r.push_back(Fit(row.begin(), row.end())); } return r; }

struct GenOpt { int maxn = 40, mind = 1, maxd = 5; bool inf = true; };
FM random_points(Prng& p, const GenOpt& o, int d = 0, int n = 0)
{
    NoSim _;
    if (!d) d = p.range(o.mind, o.maxd);
    if (!n) n = p.chance(0.1) ? 1 : p.range(1, o.maxn);
    int kind = p.range(0, 5);          // grid sizes, continuous, correlated, anti-correlated
    int grid = 1 + (int)p.below(kind == 0 ? 2 : 9);
    double pinf = o.inf && p.chance(0.25) ? 0.2 : 0, pdup = p.chance(0.3) ? 0.3 : 0;
    FM f;
    for (int i = 0; i < n; i++)
    {
        if (!f.empty() && p.chance(pdup)) { f.push_back(f[p.below(f.size())]); continue; }
        Fit x((size_t)d);
        double base = p.real(0, 8);
        for (auto& v : x)
        {
            if (kind <= 2) v = (double)p.range(-grid, grid) * 0.25;
            else if (kind == 3) v = p.real(-10, 10);
            else v = base + p.real(-1, 1);
            if (pinf > 0 && p.chance(pinf)) v = p.chance(0.5) ? HUGE_VAL : -HUGE_VAL;
        }
        if (kind == 5 && d > 1) { double s = 0; for (size_t k = 0; k + 1 < x.size(); k++) s += x[k]; if (std::isfinite(s)) x.back() = -s; }
        f.push_back(x);
    }
    return f;
}

void check_fronts(const std::vector<algorithm::dtl::FrontElement>& fr, const FM& f, const std::vector<size_t>& ranks, const char* what)
{
    NoSim _;
    CHECK(fr.size() == f.size(), "sort-size", "%s returned %zu elements for %s", what, fr.size(), show(f).c_str());
    std::vector<int> seen(f.size());
    for (size_t i = 0; i < fr.size(); i++)
    {
        CHECK(fr[i].idx < f.size() && !seen[fr[i].idx]++, "sort-index", "%s returned index %zu twice or out of range", what, fr[i].idx);
        CHECK(fr[i].rank == ranks[fr[i].idx], "wrong-rank", "%s gave solution %zu the rank %zu, it is %zu; %s", what, fr[i].idx, fr[i].rank, ranks[fr[i].idx], show(f).c_str());
        CHECK(i == 0 || fr[i - 1].rank <= fr[i].rank, "sort-order", "%s is not ordered by rank", what);
    }
}

void check_front(small_vector<size_t> got, const FM& f, const std::vector<size_t>& ranks, const char* what)
{
    NoSim _;
    std::vector<size_t> a(got.begin(), got.end()), b;
    std::sort(a.begin(), a.end());
    for (size_t i = 0; i < f.size(); i++) if (ranks[i] == 0) b.push_back(i);
    if (a != b)
    {
        std::string s; for (size_t i : a) s += " " + std::to_string(i);
        std::string t; for (size_t i : b) t += " " + std::to_string(i);
        failf("wrong-front", "%s returned {%s }, expected {%s }; %s", what, s.c_str(), t.c_str(), show(f).c_str());
    }
}

void one_sort(const FM& f, bool exclusive)
{
    std::vector<size_t> ranks; FitnessMatrix m;
    { NoSim _; ranks = naive_ranks(f); m = to_fmat(f); }
    using namespace algorithm::dtl;
    check_fronts(efficientNonDominatedSort(m.begin(), m.end()), f, ranks, "efficientNonDominatedSort");
    check_fronts(dominanceDegreeSort(m.begin(), m.end()), f, ranks, "dominanceDegreeSort");
    if (exclusive) check_fronts(fastNonDominatedSort(m.begin(), m.end()), f, ranks, "fastNonDominatedSort");
    {
        auto pf = nonDominatedSort(m.begin(), m.end());
        auto rk = pf.ranks();
        NoSim _;
        CHECK(rk == ranks, "wrong-rank", "nonDominatedSort ranks differ; %s", show(f).c_str());
        for (size_t n = 1; n < f.size(); n++)
        {
            auto part = pf.partialFront(n);
            size_t r1 = pf[n - 1].rank, r2 = pf[n].rank, lo = (size_t)(part.begin() - pf.begin()), hi = (size_t)(part.end() - pf.begin());
            size_t elo = n, ehi = n;
            if (r1 == r2) { while (elo && pf[elo - 1].rank == r1) elo--; while (ehi < f.size() && pf[ehi].rank == r1) ehi++; }
            CHECK(lo == elo && hi == ehi, "partial-front", "the partial front of %zu is [%zu,%zu), expected [%zu,%zu)", n, lo, hi, elo, ehi);
        }
        auto fronts = pf.fronts(); size_t at = 0;
        for (auto& fr : fronts) { CHECK((size_t)(fr.begin() - pf.begin()) == at && fr.begin() != fr.end(), "fronts", "fronts() are not contiguous"); for (auto& e : fr) CHECK(e.rank == fr.begin()->rank, "fronts", "fronts() mixes ranks"); at = (size_t)(fr.end() - pf.begin()); }
        CHECK(at == f.size(), "fronts", "fronts() are incomplete");
    }
    check_front(detail::findParetoFront(m), f, ranks, "findParetoFront");
    check_front(detail::findParetoFrontSort(m), f, ranks, "findParetoFrontSort");
    check_front(detail::findParetoFrontBest(m), f, ranks, "findParetoFrontBest");
    if (f[0].size() == 1) check_front(detail::findParetoFront1D(m), f, ranks, "findParetoFront1D");
    else check_front(detail::findParetoFrontKung(m), f, ranks, "findParetoFrontKung");
    auto nad = detail::findNadirPoint(m);
    NoSim _;
    Fit want = f[0]; bool first = true;
    for (size_t i = 0; i < f.size(); i++) if (ranks[i] == 0) { if (first) want = f[i]; else for (size_t k = 0; k < want.size(); k++) want[k] = std::min(want[k], f[i][k]); first = false; }
    CHECK(Fit(nad.begin(), nad.end()) == want, "nadir", "wrong nadir point of %s", show(f).c_str());
}

using Cd = Candidate<RealGene>;
Candidates<RealGene> pareto_set(const FM& f, size_t base)
{
    auto r = naive_ranks(f); Candidates<RealGene> v;
    for (size_t i = 0; i < f.size(); i++) if (r[i] == 0) { Cd c; c.chromosome = { (double)(base + i) }; c.fitness = FitnessVector(f[i].begin(), f[i].end()); c.is_evaluated = true; v.push_back(c); }
    return v;
}

void one_merge(const FM& a, const FM& b)
{
    Candidates<RealGene> l, r; std::vector<double> want;
    {
        NoSim _;
        l = pareto_set(a, 0); r = pareto_set(b, 1000);
        auto keep = [&](const auto& x, const auto& y) { for (auto& c : x) { bool dom = false; for (auto& o : y) dom = dom || dominates(Fit(o.fitness.begin(), o.fitness.end()), Fit(c.fitness.begin(), c.fitness.end())); if (!dom) want.push_back(c.chromosome[0]); } };
        keep(l, r); keep(r, l); std::sort(want.begin(), want.end());
    }
    auto res = detail::mergeParetoSets(std::move(l), std::move(r));
    NoSim _;
    std::vector<double> got; for (auto& c : res) { CHECK(c.chromosome.size() == 1, "merge", "a merged solution lost its chromosome"); got.push_back(c.chromosome[0]); }
    for (auto& c : res) { size_t id = (size_t)c.chromosome[0]; const Fit& f = id >= 1000 ? b[id - 1000] : a[id]; CHECK(Fit(c.fitness.begin(), c.fitness.end()) == f, "merge", "a merged solution lost its fitness"); }
    std::sort(got.begin(), got.end());
    if (got != want) { std::string s, t; for (double d : got) s += " " + std::to_string((int)d); for (double d : want) t += " " + std::to_string((int)d); failf("wrong-merge", "mergeParetoSets returned {%s }, expected {%s }; left %s; right %s", s.c_str(), t.c_str(), show(a).c_str(), show(b).c_str()); }
}

void one_hv(Prng& p, const FM& f)
{
    Fit ref; FitnessMatrix m; double want;
    {
        NoSim _;
        ref = f[0];
        for (auto& x : f) for (size_t k = 0; k < ref.size(); k++) ref[k] = std::min(ref[k], x[k]);
        for (auto& v : ref) if (p.chance(0.7)) v -= p.real(0, 4);
        m = to_fmat(f); want = naive_hypervolume(f, ref);
    }
    double got = detail::hypervolume(m, ref);
    NoSim _;
    double scale = 1; for (size_t k = 0; k < ref.size(); k++) { double mx = 0; for (auto& x : f) mx = std::max(mx, x[k] - ref[k]); scale *= std::max(1.0, mx); }
    CHECK(std::abs(got - want) <= 1e-9 * scale, "wrong-hypervolume", "the hypervolume is %.17g, expected %.17g; %s", got, want, show(f).c_str());
}

void one_cone(Prng& p, int n, int d, int queries)
{
    std::vector<small_vector<double>> pts; std::vector<Fit> qs; FM raw;
    {
        NoSim _;
        int kind = p.range(0, 3);
        for (int i = 0; i < n; i++)
        {
            Fit x((size_t)d);
            for (auto& v : x) v = kind == 0 ? (double)p.range(0, 1) : kind == 1 ? p.real(0, 1) : kind == 2 ? p.real(-3, 3) : 0.5;
            if (i && p.chance(0.1)) x = raw[p.below(raw.size())];
            raw.push_back(x); pts.emplace_back(x.begin(), x.end());
        }
        for (int i = 0; i < queries; i++) { Fit q((size_t)d); for (auto& v : q) v = p.chance(0.2) ? 0 : p.real(-1, 2); qs.push_back(q); }
    }
    detail::ConeTree tree(pts);
    detail::ConeTree copy = tree;
    NoSim* none = nullptr; (void)none;
    std::vector<double> got(qs.size()); std::vector<Fit> elems(qs.size());
    const bool use_copy = p.chance(0.3);
    detail::parallel_for(detail::iota_iterator(size_t(0)), detail::iota_iterator(qs.size()), [&](size_t i)
    {
        auto r = (use_copy ? copy : tree).findBestMatch(qs[i]);
        got[i] = r.prod; auto e = *r.elem; elems[i].assign(e.begin(), e.end());
    });
    NoSim _;
    CHECK(tree.size() == raw.size(), "cone-tree", "the cone tree has %zu points instead of %zu", tree.size(), raw.size());
    for (size_t i = 0; i < qs.size(); i++)
    {
        double best = -HUGE_VAL; for (auto& x : raw) best = std::max(best, std::inner_product(x.begin(), x.end(), qs[i].begin(), 0.0));
        double own = std::inner_product(elems[i].begin(), elems[i].end(), qs[i].begin(), 0.0);
        CHECK(std::abs(got[i] - best) < 1e-9 * (1 + std::abs(best)) && std::abs(own - best) < 1e-9 * (1 + std::abs(best)), "cone-tree", "the best match of query %zu has the inner product %.17g (element %.17g), the best is %.17g; %s", i, got[i], own, best, show(raw).c_str());
        CHECK(std::find(raw.begin(), raw.end(), elems[i]) != raw.end(), "cone-tree", "the best match is not one of the points");
    }
}

void setup_mo(Ctx& c) { c.cfg.soft_steps = 2000000; c.cfg.hard_steps = 6000000; c.cfg.race = 1; }

size_t threads(Prng& p) { return (size_t)(p.chance(0.1) ? 1 : p.range(2, 6)); }

SCENARIO(C12, direct, 3, false, setup_mo, "sorting, fronts, merging, hypervolumes and nearest directions against their definitions, one caller")
{
    Prng& p = ctx.rng;
    size_t n = threads(p); set_threads(n);
    { NoSim _; workload("threads=" + std::to_string(n)); }
    int rounds = p.range(1, 4);
    for (int i = 0; i < rounds; i++)
    {
        switch (p.range(0, 4))
        {
        case 0: case 1: { GenOpt o; if (p.chance(0.03)) { PROBE("large sort"); o.maxn = 450; } auto f = random_points(p, o); { NoSim _; workload("sort " + show(f)); } one_sort(f, true); break; }
        case 2: { GenOpt o; auto a = random_points(p, o); auto b = random_points(p, o, (int)a[0].size()); { NoSim _; if (p.chance(0.3)) for (auto& x : b) if (p.chance(0.4)) x = a[p.below(a.size())]; workload("merge " + show(a) + " with " + show(b)); } one_merge(a, b); break; }
        case 3: { GenOpt o; o.inf = false; o.maxn = 14; o.maxd = 4; bool close = p.chance(0.3); if (close) { o.maxd = 2; o.maxn = 60; } auto f = random_points(p, o);
            // points that are closer to each other than the tolerances
            if (close) { NoSim _; PROBE("points closer than the tolerance"); double s = p.chance(0.5) ? 1e-13 : 1e-14, at = p.chance(0.5) ? 1 : 0; for (auto& x : f) for (auto& v : x) v = at + v * s; }
            { NoSim _; workload("hypervolume " + show(f)); } one_hv(p, f); break; }
        default: { int k = p.range(1, 60), d = p.range(1, 5); { NoSim _; workload("cone tree of " + std::to_string(k) + " points in " + std::to_string(d) + " dimensions"); } one_cone(p, k, d, p.range(1, 20)); }
        }
    }
}

SCENARIO(C12, callers, 1, false, setup_mo, "the same computations started by several user threads at once")
{
    Prng& p = ctx.rng;
    size_t n = threads(p); set_threads(n);
    int k = p.range(2, 3);
    { NoSim _; workload("threads=" + std::to_string(n) + " callers=" + std::to_string(k)); }
    std::vector<Prng> ps; for (int i = 0; i < k; i++) ps.emplace_back(p.next());
    std::vector<std::thread> ts;
    for (int i = 0; i < k; i++) ts.emplace_back([&, i]
    {
        Prng q = ps[(size_t)i];
        GenOpt o; o.maxn = 20;
        for (int r = 0; r < 2; r++) switch (q.range(0, 3))
        {
        case 0: one_sort(random_points(q, o), false); break;
        case 1: { auto a = random_points(q, o); auto b = random_points(q, o, (int)a[0].size()); one_merge(a, b); break; }
        case 2: { GenOpt h; h.inf = false; h.maxn = 10; h.maxd = 3; one_hv(q, random_points(q, h)); break; }
        default: one_cone(q, q.range(1, 40), q.range(1, 4), q.range(1, 8));
        }
    });
    for (auto& t : ts) t.join();
}

// ---------------------------------------------------------------- algorithms observed from inside a run

uint64_t hmix(uint64_t a, uint64_t b) { Prng q(a * 0x9E3779B97F4A7C15ull + b); q.next(); return q.next() ^ b; }

struct HashFitness final : FitnessFunctionBase<BinaryGene>
{
    uint64_t seed; int nobj; int kind;
    HashFitness(size_t len, uint64_t seed, int nobj, int kind) : FitnessFunctionBase<BinaryGene>(len), seed(seed), nobj(nobj), kind(kind) {}
    FitnessVector invoke(const Chromosome<BinaryGene>& c) const override
    {
        uint64_t h = seed; for (auto g : c) h = hmix(h, (uint64_t)g + 1);
        FitnessVector f((size_t)nobj);
        for (int k = 0; k < nobj; k++)
        {
            double u = (double)(hmix(h, (uint64_t)k + 77) >> 11) * 0x1p-53;
            if (kind == 0) f[(size_t)k] = u * 10 - 5;                     // continuous, both signs
            else if (kind == 1) f[(size_t)k] = u * 10;                    // positive
            else if (kind == 2) f[(size_t)k] = std::floor(u * 5) - 2;     // ties
            else if (kind == 3) f[(size_t)k] = std::floor(u * 5);
            else if (kind == 4) f[(size_t)k] = u < 0.2 ? HUGE_VAL : u < 0.4 ? -HUGE_VAL : u * 10 - 5;
            else if (kind == 5) f[(size_t)k] = 0;
            else if (kind == 6) f[(size_t)k] = u * 1.7e308;                // close to the largest value
            else if (kind == 7) f[(size_t)k] = (u * 2 - 1) * 1.7e308;
            else if (kind == 8) f[(size_t)k] = u * 1e-300;
            else f[(size_t)k] = -7.25;
        }
        if (kind <= 1 && nobj > 1 && (seed & 1)) { double s = 0; for (double x : f) s += x; for (double& x : f) x -= 0.9 * s / nobj; }   // close to a common front
        if ((h & 7) == 0) sim_yield();
        return f;
    }
};

struct Model3                // NSGA-III, by its definition
{
    FM refs; Fit ideal, nadir; FM extremes; bool ambiguous = false;
    std::vector<long> ref; std::vector<double> dist;      // per row of the last matrix; -1: ambiguous
    void update(const FM& f)
    {
        size_t d = f[0].size();
        if (ideal.empty()) ideal.assign(d, -HUGE_VAL);
        for (auto& x : f) for (size_t k = 0; k < d; k++) ideal[k] = std::max(ideal[k], x[k]);
        FM next;
        for (size_t dim = 0; dim < d; dim++)
        {
            auto asf = [&](const Fit& x) { double m = -HUGE_VAL; for (size_t k = 0; k < d; k++) m = std::max(m, (ideal[k] - x[k]) / (k == dim ? 1.0 : 1e-6)); return m; };
            const Fit* best = nullptr; double bv = 0; 
            auto consider = [&](const Fit& x) { double v = asf(x); if (!best || v < bv) { best = &x; bv = v; } };
            for (auto& x : f) consider(x);
            for (auto& x : extremes) consider(x);
            auto tie = [&](const Fit& x) { return asf(x) <= bv + 1e-9 * (1 + std::abs(bv)) && x != *best; };
            for (auto& x : f) if (tie(x)) ambiguous = true;
            for (auto& x : extremes) if (tie(x)) ambiguous = true;
            next.push_back(*best);
        }
        extremes = next;
        nadir = extremes[0]; for (auto& x : extremes) for (size_t k = 0; k < d; k++) nadir[k] = std::min(nadir[k], x[k]);
        ref.assign(f.size(), -1); dist.assign(f.size(), 0);
        for (size_t i = 0; i < f.size(); i++)
        {
            Fit z(d); for (size_t k = 0; k < d; k++) z[k] = (ideal[k] - f[i][k]) / std::max(ideal[k] - nadir[k], 1e-8);
            double best = -HUGE_VAL; long at = -1; double norm = 0; for (double x : z) norm += x * x; norm = std::sqrt(norm);
            for (size_t r = 0; r < refs.size(); r++) { double ip = std::inner_product(z.begin(), z.end(), refs[r].begin(), 0.0); if (ip > best) { best = ip; at = (long)r; } }
            for (size_t r = 0; r < refs.size(); r++) if ((long)r != at && refs[r] != refs[(size_t)at]) { double ip = std::inner_product(z.begin(), z.end(), refs[r].begin(), 0.0); if (ip > best - 1e-9 * (norm + 1e-300)) { at = -1; break; } }
            if (at >= 0) for (size_t r = 0; r < (size_t)at; r++) if (refs[r] == refs[(size_t)at]) { at = -1; break; }    // equal directions: which one is chosen doesn't matter to the user
            ref[i] = norm == 0 ? -1 : at;
            if (at >= 0) { auto& l = refs[(size_t)at]; double k = std::inner_product(l.begin(), l.end(), z.begin(), 0.0) / std::inner_product(l.begin(), l.end(), l.begin(), 0.0); double s = 0; for (size_t j = 0; j < d; j++) s += (z[j] - k * l[j]) * (z[j] - k * l[j]); dist[i] = s; }
        }
    }
};

std::vector<double> crowding(const FM& f, const std::vector<size_t>& front, bool& ambiguous)
{
    std::vector<double> d(f.size(), 0.0);
    for (size_t k = 0; k < f[0].size(); k++)
    {
        auto v = front; std::sort(v.begin(), v.end(), [&](size_t a, size_t b) { return f[a][k] < f[b][k]; });
        for (size_t i = 1; i < v.size(); i++) if (f[v[i]][k] == f[v[i - 1]][k]) ambiguous = true;
        double w = std::max(f[v.back()][k] - f[v.front()][k], 1e-8);
        d[v.front()] = d[v.back()] = HUGE_VAL;
        for (size_t i = 1; i + 1 < v.size(); i++) d[v[i]] += (f[v[i + 1]][k] - f[v[i - 1]][k]) / w;
    }
    return d;
}

struct SelSpec { int kind = 0; size_t tourney = 2; double rmin = 0.1, rmax = 1.1; double scale = 3; double temp = 1; int tempf = 0; };

struct Spy final : algorithm::Algorithm
{
    std::unique_ptr<algorithm::Algorithm> inner; int algo = 0; SelSpec sel;
    const GA<BinaryGene>** ga = nullptr; Prng rng; int nobj = 1; bool check_next = false, check_sel = false; int sel_from = 0; int prepared = 0; size_t draws = 1500;
    Model3 m3; algorithm::reflines::RefLineGenerator gen = nullptr;
    std::vector<size_t> ranks; std::vector<double> crowd; bool crowd_amb = false; std::vector<long> ref; std::vector<double> dist; bool amb3 = false;  // of the current population
    explicit Spy(Prng r) : rng(r) {}

    void initializeImpl(const GaInfo& g) override
    {
        FM f; { NoSim _; f = from_fmat(g.fitness_matrix()); }
        if (algo == 3)
        {
            auto lines = gen((size_t)nobj, g.population_size());
            NoSim _;
            m3 = Model3{}; m3.refs = from_fmat(lines);
            for (auto& l : m3.refs) { double s = 0; for (double x : l) s += x * x; s = std::sqrt(s); for (double& x : l) x /= s; }
            m3.update(f);
            ref = m3.ref; dist = m3.dist; amb3 = m3.ambiguous;
        }
        {
            NoSim _;
            if (algo >= 2)
            {
                ranks = naive_ranks(f); crowd.assign(f.size(), 0); crowd_amb = false;
                all_crowding(f);
            }
        }
        inner->initialize(g);
    }
    void all_crowding(const FM& f)
    {
        size_t mx = 0; for (size_t r : ranks) mx = std::max(mx, r);
        for (size_t r = 0; r <= mx; r++) { std::vector<size_t> fr; for (size_t i = 0; i < f.size(); i++) if (ranks[i] == r) fr.push_back(i); if (fr.empty()) continue; auto d = crowding(f, fr, crowd_amb); for (size_t i : fr) crowd[i] = d[i]; }
    }

    void prepareSelectionsImpl(const GaInfo& g, const FitnessMatrix& fm) override
    {
        inner->prepareSelections(g, fm);
        if (check_sel && prepared++ == sel_from) selections(g, fm);
    }

    size_t selectImpl(const GaInfo&, const FitnessMatrix& fm) const override
    {
        const auto& pop = (*ga)->population();
        const auto& c = inner->select(**ga, pop, fm);
        return (size_t)(&c - pop.data());
    }

    // probabilities of the documented criterion; groups: candidates that can't be told apart share their probability
    bool expected(const FM& f, double temperature, std::vector<double>& w, std::vector<int>& group)
    {
        size_t n = f.size(); w.assign(n, 0); group.resize(n); std::iota(group.begin(), group.end(), 0);
        auto norm = [&] { double s = 0; for (double x : w) s += x; if (!(s > 0) || !std::isfinite(s)) return false; for (double& x : w) x /= s; return true; };
        auto same = [&](size_t i, size_t j) { return f[i] == f[j]; };
        if (algo != 1 || sel.kind == S_RANK) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) if (same(i, j)) { group[i] = group[j]; break; }
        if (algo == 1)
        {
            using L = long double; L lo = HUGE_VAL, hi = -HUGE_VAL, mean = 0, var = 0; for (auto& x : f) { lo = std::min<L>(lo, x[0]); hi = std::max<L>(hi, x[0]); mean += x[0]; } mean /= (L)n;
            for (auto& x : f) var += (x[0] - mean) * (x[0] - mean); L sd = std::sqrt(var / (L)n), mag = std::max(std::abs(lo), std::abs(hi));
            auto uniform = [&] { for (double& x : w) x = 1; return norm(); };
            switch (sel.kind)
            {
            case S_ROULETTE: if (lo < 0) return false; if (hi == 0) return uniform(); for (size_t i = 0; i < n; i++) w[i] = (double)(f[i][0] / hi); return norm();
            case S_TOURNAMENT: for (size_t i = 0; i < n; i++) { double le = 0, lt = 0; for (auto& x : f) { le += x[0] <= f[i][0]; lt += x[0] < f[i][0]; } w[i] = (std::pow(le / (double)n, (double)sel.tourney) - std::pow(lt / (double)n, (double)sel.tourney)) / (le - lt); } return norm();
            case S_RANK: { std::vector<size_t> o(n); std::iota(o.begin(), o.end(), 0); std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) { return f[a][0] < f[b][0]; }); for (size_t i = 0; i < n; i++) w[o[i]] = sel.rmin + (sel.rmax - sel.rmin) * (double)i / std::max((double)n - 1, 1.0); return norm(); }
            case S_SIGMA: if (lo == hi) return uniform(); if (sd < 1e-9L * mag) return false; for (size_t i = 0; i < n; i++) w[i] = (double)std::max(0.0L, 1 + (f[i][0] - mean) / (sel.scale * sd)); return norm();
            case S_BOLTZMANN: if (lo == hi) return uniform(); if (hi - lo < 1e-9L * mag || hi - lo > DBL_MAX) return false; for (size_t i = 0; i < n; i++) w[i] = (double)std::exp((f[i][0] - lo) / (hi - lo) / temperature); return norm();
            default: return false;
            }
        }
        for (size_t i = 0; i < n; i++) if (algo == 3 && ref[i] < 0) return false;
        if (algo == 2 && crowd_amb) return false;
        if (algo == 3 && amb3) return false;
        std::iota(group.begin(), group.end(), 0);
        for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++)
        {
            double pa = 0.5;
            if (a == b) pa = 1;
            else if (algo == 2)
            {
                if (ranks[a] != ranks[b]) pa = ranks[a] < ranks[b];
                else if (crowd[a] != crowd[b]) { if (std::isfinite(crowd[a]) && std::isfinite(crowd[b]) && std::abs(crowd[a] - crowd[b]) < 1e-9) return false; pa = crowd[a] > crowd[b]; }
            }
            else if (ref[a] == ref[b])
            {
                if (ranks[a] != ranks[b]) pa = ranks[a] < ranks[b];
                else if (std::abs(dist[a] - dist[b]) <= 1e-9) { if (f[a] != f[b]) return false; }
                else pa = dist[a] < dist[b];
            }
            w[a] += pa / (double)(n * n); w[b] += (1 - pa) / (double)(n * n);
        }
        return norm();
    }

    void selections(const GaInfo& g, const FitnessMatrix& fm)
    {
        FM f; std::vector<double> w; std::vector<int> group; bool known;
        {
            NoSim _; f = from_fmat(fm);
            double t = sel.temp, x = (double)g.generation_cntr() / (double)std::max<size_t>(g.max_gen(), 1);   // as configured
            if (sel.tempf == 1) t = sel.temp * (1.5 - x);
            else if (sel.tempf == 2) t = 4.2 - 4 / (1 + std::exp(3 - 10 * x));      // the default: from 4.2 down to 0.2
            known = expected(f, t, w, group);
            if (known) PROBE("selection: exact probabilities"); else PROBE("selection: order only");
        }
        const auto& pop = (*ga)->population();
        std::vector<size_t> got(draws, ~size_t(0));
        detail::parallel_for(detail::iota_iterator(size_t(0)), detail::iota_iterator(draws), [&](size_t i) { got[i] = (size_t)(&inner->select(**ga, pop, fm) - pop.data()); });
        NoSim _;
        size_t n = f.size(); std::vector<double> cnt(n);
        for (size_t i : got) { CHECK(i < n, "selection-index", "a selection returned a candidate outside of the population"); cnt[i] += 1; }
        auto table = [&] { std::string s; char b[80]; for (size_t i = 0; i < n && i < 20; i++) { std::snprintf(b, sizeof b, " [%zu] fitness %.6g.. selected %g", i, f[i][0], cnt[i]); s += b; if (known) { std::snprintf(b, sizeof b, " expected %.1f", w[i] * (double)draws); s += b; } } return s; };
        if (known)
        {
            for (size_t i = 0; i < n; i++)
            {
                double p = 0, c = 0; if (group[i] != (int)i) continue;
                for (size_t j = 0; j < n; j++) if (group[j] == (int)i) { p += w[j]; c += cnt[j]; }
                double e = p * (double)draws, tol = 8 * std::sqrt(e * (1 - std::min(p, 1.0))) + (e < 1e-6 ? 0 : 12);
                CHECK(std::abs(c - e) <= tol + 1e-3, "selection-criterion", "candidate %zu was selected %g times out of %zu, expected about %.1f;%s", i, c, draws, e, table().c_str());
            }
            // all candidates together: sums in two orders, and chi-square
            std::vector<size_t> order(n); std::iota(order.begin(), order.end(), 0);
            for (int k = 0; k < 2; k++)
            {
                if (k) std::stable_sort(order.begin(), order.end(), [&](size_t i, size_t j) { return f[i][0] < f[j][0]; });
                double p = 0, c = 0;
                for (size_t q = 0; q < n; q++)
                {
                    p += w[order[q]]; c += cnt[order[q]];
                    if (std::any_of(group.begin(), group.end(), [&, j = 0](int x) mutable { return x != j++; })) break;
                    double N = (double)draws, u = std::clamp(p, 0.0, 1.0);
                    CHECK(std::abs(c - p * N) <= 8 * std::sqrt(N * u * (1 - u)) + 12, "selection-criterion", "%zu candidates were together selected %g times out of %zu, expected about %.1f;%s", q + 1, c, draws, p * N, table().c_str());
                }
            }
            double x = 0, rest_p = 0, rest_c = 0; int df = -1;
            auto term = [&](double p, double c) { double e = p * (double)draws; x += (c - e) * (c - e) / e; df++; };
            for (size_t i = 0; i < n; i++)
            {
                double p = 0, c = 0; if (group[i] != (int)i) continue;
                for (size_t j = 0; j < n; j++) if (group[j] == (int)i) { p += w[j]; c += cnt[j]; }
                if (p * (double)draws < 8) { rest_p += p; rest_c += c; } else term(p, c);
            }
            if (rest_p * (double)draws >= 8) term(rest_p, rest_c);
            if (df > 0)
            {
                double k = df, z = (std::cbrt(x / k) - (1 - 2 / (9 * k))) / std::sqrt(2 / (9 * k));
                CHECK(z < 9, "selection-criterion", "the selections do not have the documented distribution (chi-square %.1f with %g degrees of freedom);%s", x, k, table().c_str());
            }
        }
        else if (algo == 1 && sel.kind != S_LAMBDA)
            for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++)
                if (f[i][0] > f[j][0]) CHECK(cnt[i] >= cnt[j] - 8 * std::sqrt(cnt[i] + cnt[j] + 1) , "selection-order", "a worse candidate is selected more often than a better one;%s", table().c_str());
    }

    small_vector<size_t> nextPopulationImpl(const GaInfo& g, const FitnessMatrix& fm) override
    {
        size_t n = g.population_size(); FM f;
        Population<BinaryGene> par, chi;
        {
            NoSim _;
            f = from_fmat(fm);
            for (size_t i = 0; i < f.size(); i++)
            {
                Candidate<BinaryGene> c; for (size_t b = 0; b < 12; b++) c.chromosome.push_back((BinaryGene)((i >> b) & 1));
                c.fitness = FitnessVector(f[i].begin(), f[i].end()); c.is_evaluated = true;
                (i < n ? par : chi).push_back(std::move(c));
            }
        }
        auto next = inner->nextPopulation(**ga, std::move(par), std::move(chi));
        small_vector<size_t> idx;
        {
            NoSim _;
            std::vector<size_t> sel;
            for (auto& c : next) { size_t i = 0; CHECK(c.chromosome.size() == 12, "replacement", "the next population has a candidate with a changed chromosome"); for (size_t b = 0; b < 12; b++) i |= (size_t)c.chromosome[b] << b; CHECK(i < f.size(), "replacement", "unknown candidate in the next population"); sel.push_back(i); }
            if (algo >= 2) after(f, sel, n);
            for (size_t i : sel) idx.push_back(i);
        }
        return idx;
    }

    void after(const FM& f, const std::vector<size_t>& sel, size_t n)
    {
        auto all = naive_ranks(f);
        CHECK(sel.size() == n, "replacement-size", "the next population has %zu candidates instead of %zu", sel.size(), n);
        std::vector<char> in(f.size()); for (size_t i : sel) { CHECK(!in[i], "replacement-duplicate", "candidate %zu was selected twice", i); in[i] = 1; }
        auto sorted = all; std::sort(sorted.begin(), sorted.end());
        size_t last = sorted[n - 1]; bool partial = sorted.size() > n && sorted[n] == last;
        for (size_t i = 0; i < f.size(); i++) { if (all[i] < last || (all[i] == last && !partial)) CHECK(in[i], "replacement-rank", "candidate %zu of rank %zu was discarded", i, all[i]); if (all[i] > last) CHECK(!in[i], "replacement-rank", "candidate %zu of rank %zu was kept", i, all[i]); }
        if (algo == 2 && partial)
        {
            std::vector<size_t> fr; for (size_t i = 0; i < f.size(); i++) if (all[i] == last) fr.push_back(i);
            bool amb = false; auto d = crowding(f, fr, amb);
            if (!amb) { PROBE("NSGA-II partial front"); for (size_t a : fr) for (size_t b : fr) if (in[a] && !in[b]) CHECK(!(d[a] < d[b] - 1e-9), "crowding", "NSGA-II kept a candidate with the crowding distance %.9g and discarded one with %.9g; %s", d[a], d[b], show(f).c_str()); }
        }
        if (algo == 3)
        {
            m3.update(f);
            bool ok = !m3.ambiguous; for (size_t i = 0; i < f.size(); i++) if (all[i] <= last && m3.ref[i] < 0) ok = false;
            if (ok && partial)
            {
                PROBE("NSGA-III partial front");
                size_t R = m3.refs.size();
                std::vector<long> niche(R), picked(R), left(R);
                for (size_t i = 0; i < f.size(); i++) { size_t r = (size_t)m3.ref[i]; if (all[i] < last) niche[r]++; else if (all[i] == last) (in[i] ? picked : left)[r]++; }
                for (size_t a = 0; a < f.size(); a++) for (size_t b = 0; b < f.size(); b++)
                    if (all[a] == last && all[b] == last && in[a] && !in[b] && m3.ref[a] == m3.ref[b])
                        CHECK(m3.dist[a] <= m3.dist[b] + 1e-9, "niching-distance", "NSGA-III kept a candidate at the squared distance %.9g from its reference direction and discarded one at %.9g of the same direction", m3.dist[a], m3.dist[b]);
                for (size_t a = 0; a < R; a++) for (size_t b = 0; b < R; b++)
                    if (picked[a] && left[b]) CHECK(niche[a] + picked[a] - 1 <= niche[b] + picked[b], "niching-count", "NSGA-III took %ld candidates of a direction with %ld others, but only %ld of one with %ld others that has more", picked[a], niche[a], picked[b], niche[b]);
            }
            ref.clear(); dist.clear(); for (size_t i : sel) { ref.push_back(m3.ref[i]); dist.push_back(m3.dist[i]); }
            amb3 = m3.ambiguous;
        }
        FM g; ranks.clear(); for (size_t i : sel) { g.push_back(f[i]); ranks.push_back(all[i]); }
        crowd.assign(n, 0); crowd_amb = false; all_crowding(g);
    }

    small_vector<size_t> optimalSolutionsImpl(const GaInfo&) const override
    {
        const auto& pop = (*ga)->population();
        auto opt = inner->optimalSolutions(**ga, pop);
        NoSim _;
        FM f, got, want; for (auto& c : pop) f.push_back(Fit(c.fitness.begin(), c.fitness.end()));
        auto r = naive_ranks(f); for (size_t i = 0; i < f.size(); i++) if (r[i] == 0) want.push_back(f[i]);
        for (auto& c : opt) got.push_back(Fit(c.fitness.begin(), c.fitness.end()));
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        bool tiny = !f.empty() && std::all_of(f.begin(), f.end(), [](auto& x) { return std::abs(x[0]) < 1e-200; });   // all equal within the default tolerances
        if (!tiny) CHECK(got == want, "optimal-solutions", "the algorithm reports %zu optimal candidates, expected %zu; %s", got.size(), want.size(), show(f).c_str());
        return {};
    }
};

void spy_run(Ctx& ctx, int algo, bool selections)
{
    Prng& p = ctx.rng;
    static const algorithm::reflines::RefLineGenerator gens[] = { algorithm::reflines::quasirandomSimplexPointsMirror, algorithm::reflines::quasirandomSimplexPointsSort, algorithm::reflines::quasirandomSimplexPointsRoot, algorithm::reflines::quasirandomSimplexPointsLog };
    size_t n = threads(p); set_threads(n);
    rng::prng.seed(p.next());
    size_t pop = (size_t)p.range(selections ? 1 : 2, selections ? 8 : 24);
    if (selections && p.chance(0.12)) { pop = (size_t)p.range(20, 110); PROBE("selections in a larger population"); }
    if (!selections && p.chance(0.01)) { pop = (size_t)p.range(205, 230); PROBE("large population"); }
    size_t gens_n = pop > 100 ? 1 : (size_t)p.range(1, 5);
    int nobj = algo == 1 ? 1 : p.range(2, 4);
    int kind = algo == 1 ? p.range(0, 3) : p.chance(0.75) ? 0 : 2;
    size_t len = (size_t)p.range(3, 14);
    Spy* raw; std::unique_ptr<algorithm::Algorithm> spy; const GA<BinaryGene>* gap = nullptr; SelSpec ss;
    {
        auto s = std::make_unique<Spy>(Prng(p.next())); raw = s.get(); spy = std::move(s);
        raw->algo = algo; raw->nobj = nobj; raw->ga = &gap; raw->check_sel = selections; raw->sel_from = p.range(0, (int)gens_n - 1);
        if (pop > 12) raw->draws = 20000;
    }
    int gsel = p.range(0, 3);
    if (algo == 2) raw->inner = std::make_unique<algorithm::NSGA2>();
    else if (algo == 3) { raw->gen = gens[gsel]; raw->inner = std::make_unique<algorithm::NSGA3>(gens[gsel]); if (p.chance(0.2)) { algorithm::NSGA3 a(gens[gsel]); algorithm::NSGA3 b(gens[0]); b = a; raw->inner = std::make_unique<algorithm::NSGA3>(b); } }
    else
    {
        ss.kind = p.range(0, 4); ss.tourney = (size_t)p.range(1, (int)std::min<size_t>(pop, 4)); ss.rmin = p.chance(0.3) ? 0 : p.real(0, 1); ss.rmax = ss.rmin + p.real(0.1, 2); ss.scale = p.chance(0.3) ? 3.0 : p.real(0.5, 20); ss.temp = p.real(0.2, 5);
        std::unique_ptr<selection::Selection> sel;
        switch (ss.kind)
        {
        case S_ROULETTE: sel = std::make_unique<selection::Roulette>(); break;
        case S_TOURNAMENT: sel = std::make_unique<selection::Tournament>(ss.tourney); break;
        case S_RANK: sel = std::make_unique<selection::Rank>(ss.rmin, ss.rmax); break;
        case S_SIGMA: sel = std::make_unique<selection::Sigma>(ss.scale); break;
        default:
            {
                double t = ss.temp; ss.tempf = p.range(0, 2);
                if (ss.tempf == 0) sel = std::make_unique<selection::Boltzmann>([t](size_t, size_t) { return t; });
                else if (ss.tempf == 1) sel = std::make_unique<selection::Boltzmann>([t](size_t gen, size_t max_gen) { return t * (1.5 - (double)gen / (double)max_gen); });
                else sel = std::make_unique<selection::Boltzmann>();
            }
        }
        if (p.chance(0.3)) kind = ss.kind == S_TOURNAMENT || ss.kind == S_RANK ? p.range(4, 9) : p.range(5, 9);
        raw->sel = ss;
        raw->inner = std::make_unique<algorithm::SingleObjective>(std::move(sel), std::make_unique<replacement::KeepBest>());
    }
    { NoSim _; char b[300]; std::snprintf(b, sizeof b, "threads=%zu algorithm=%s pop=%zu objectives=%d generations=%zu fitness-kind=%d length=%zu selection=%d(tourney %zu, weights %g..%g, scale %g, temperature %g kind %d) generator=%d selections checked in generation %d", n, algo == 1 ? "SingleObjective" : algo == 2 ? "NSGA2" : "NSGA3", pop, nobj, gens_n, kind, len, ss.kind, ss.tourney, ss.rmin, ss.rmax, ss.scale, ss.temp, ss.tempf, gsel, raw->sel_from); workload(b); }
    BinaryGA ga(pop, std::move(spy), std::make_unique<crossover::binary::Uniform>(0.8), std::make_unique<mutation::binary::Flip>(0.2));
    gap = &ga;
    int runs = p.range(1, 2);
    for (int i = 0; i < runs; i++) { raw->prepared = 0; ga.solve(HashFitness(len, p.next(), nobj, kind), gens_n); }
}

SCENARIO(C12, nsga2, 1, false, setup_mo, "runs of NSGA-II, the candidates kept in every generation against the definition") { spy_run(ctx, 2, false); }
SCENARIO(C12, nsga3, 2, false, setup_mo, "runs of NSGA-III, the candidates kept in every generation against the definition of niching") { spy_run(ctx, 3, false); }

SCENARIO(C25, single, 3, false, setup_mo, "selections of the single-objective selection methods, drawn concurrently in a generated generation") { spy_run(ctx, 1, true); }
SCENARIO(C25, nsga2, 1, false, setup_mo, "selections of NSGA-II") { spy_run(ctx, 2, true); }
SCENARIO(C25, nsga3, 1, false, setup_mo, "selections of NSGA-III") { spy_run(ctx, 3, true); }

} // namespace
