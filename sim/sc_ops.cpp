// Simulated crossover and mutation operators: C26.
#include "ga.hpp"
#include <gapp.hpp>
#include <crossover/crossover_impl.hpp>
#include <algorithm/reference_lines.hpp>
#include <utility/qrng.hpp>
#include <thread>
#include <algorithm>
#include <cmath>
#include <map>
#include <numeric>

using namespace gapp;
using namespace sim;

namespace {

template<typename T> Chrom vec(const Chromosome<T>& c) { return Chrom(c.begin(), c.end()); }
std::string show(const Chrom& c) { std::string s = "["; char b[40]; for (size_t i = 0; i < c.size() && i < 24; i++) { std::snprintf(b, sizeof b, i ? " %.17g" : "%.17g", c[i]); s += b; } return s + "]"; }

// What an operator was created with.
struct Op {
    Enc enc; int kind = 0; double rate = 1; double par = 0; size_t n = 1; bool setters = false;
    std::vector<double> lb, ub; size_t gen = 0, max_gen = 1;
    const char* name() const
    {
        static const char* cx[4][6] = { { "SinglePoint", "TwoPoint", "NPoint", "Uniform" }, { "SinglePoint", "TwoPoint", "NPoint", "Uniform" }, { "Order1", "Order2", "Position", "Cycle", "Edge", "PMX" }, { "Arithmetic", "BLXa", "SimulatedBinary", "Wright" } };
        static const char* mu[4][5] = { { "Flip" }, { "Uniform" }, { "Inversion", "Swap2", "Swap3", "Shuffle", "Shift" }, { "Uniform", "NonUniform", "Gauss", "Polynomial", "Boundary" } };
        return cross ? cx[enc][kind] : mu[enc][kind];
    }
    bool cross = true;
    static int cx_kinds(Enc e) { return e == PERM ? 6 : 4; }
    static int mu_kinds(Enc e) { return e == BIN || e == INT ? 1 : 5; }
};
enum { SINGLE, TWO, NPT, UNI };
enum { O1, O2, POS, CYC, EDGE, PMX_ };
enum { ARITH, BLX, SBX, WRIGHT };
enum { INV, SW2, SW3, SHUF, SHIFT };
enum { RUNI, NONUNI, GAUSS, POLY, BOUND };

struct Par { Chrom c; Fit f; };

std::string what(const Op& o) { char b[200]; std::snprintf(b, sizeof b, "%s %s(rate %.17g, parameter %.17g, n %zu)", o.cross ? "crossover" : "mutation", o.name(), o.rate, o.par, o.n); return b; }
#define BAD(...) do { char m_[500]; std::snprintf(m_, sizeof m_, __VA_ARGS__); failf("children", "%s: %s; parents %s %s, children %s %s", what(o).c_str(), m_, show(a.c).c_str(), show(b.c).c_str(), show(x).c_str(), show(y).c_str()); } while (0)

Chrom order_ref(const Chrom& p, const Chrom& q, size_t f, size_t l, bool from_end)
{
    size_t n = p.size(); std::vector<char> used(n); Chrom c = p, rest; std::vector<size_t> at;
    for (size_t i = f; i < l; i++) used[(size_t)p[i]] = 1;
    for (size_t i = 0; i < n; i++) { size_t k = from_end ? (l + i) % n : i; if (k < f || k >= l) at.push_back(k); if (!used[(size_t)q[k]]) rest.push_back(q[k]); }
    for (size_t i = 0; i < at.size(); i++) c[at[i]] = rest[i];
    return c;
}
Chrom pmx_ref(const Chrom& p, const Chrom& q, size_t f, size_t l)
{
    size_t n = p.size(); std::vector<size_t> at(n, n); Chrom c(n);
    for (size_t i = f; i < l; i++) { c[i] = p[i]; at[(size_t)p[i]] = i; }
    for (size_t i = 0; i < n; i++) if (i < f || i >= l) { double g = q[i]; while (at[(size_t)g] != n) g = q[at[(size_t)g]]; c[i] = g; }
    return c;
}
bool is_perm(const Chrom& c) { Chrom s = c; std::sort(s.begin(), s.end()); for (size_t i = 0; i < s.size(); i++) if (s[i] != (double)i) return false; return true; }

bool near(double v, double w, double scale) { return std::abs(v - w) <= 1e-9 * scale; }
double clampd(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }

// The children x, y of a and b are ones the operator is documented to produce.
void check_children(const Op& o, const Par& a, const Par& b, const Chrom& x, const Chrom& y)
{
    size_t n = a.c.size();
    if (x.size() != n || y.size() != n) BAD("wrong lengths");
    if (x == a.c && y == b.c) return;
    if (o.rate == 0) BAD("the crossover rate is zero but the children differ from the parents");
    if (o.enc == BIN || o.enc == INT || (o.enc == PERM && o.kind == CYC))
        for (size_t i = 0; i < n; i++)
            if (!((x[i] == a.c[i] && y[i] == b.c[i]) || (x[i] == b.c[i] && y[i] == a.c[i]))) BAD("the children's genes at %zu are not those of the parents", i);
    if (o.enc == BIN || o.enc == INT)
    {
        size_t changes = 0, differ = 0; int last = -1;
        for (size_t i = 0; i < n; i++) if (a.c[i] != b.c[i]) { int d = x[i] == a.c[i]; if (last >= 0 && d != last) changes++; last = d; differ++; }
        size_t k = o.kind == SINGLE ? 1 : o.kind == TWO ? 2 : o.kind == NPT ? std::min(o.n, n) : n;
        if (o.kind == UNI && (o.par == 0 || o.par == 1)) k = 0;
        if (changes > k) BAD("%zu crossover points in the children, at most %zu were asked for", changes, k);
        if (o.kind == NPT && differ == n && changes + 1 < k) BAD("only %zu crossover points in the children, %zu were asked for", changes, k);
        return;
    }
    if (o.enc == PERM)
    {
        if (!is_perm(x) || !is_perm(y)) BAD("a child is not a permutation");
        if (o.kind == O1 || o.kind == O2 || o.kind == PMX_)
        {
            for (size_t f = 0; f < n; f++) for (size_t l = f + 1; l <= n; l++)
            {
                if (o.kind == PMX_) { if (pmx_ref(a.c, b.c, f, l) == x && pmx_ref(b.c, a.c, f, l) == y) return; }
                else if (order_ref(a.c, b.c, f, l, o.kind == O1) == x && order_ref(b.c, a.c, f, l, o.kind == O1) == y) return;
            }
            BAD("no range of genes leads to these children");
        }
        if (o.kind == POS)
        {
            std::vector<char> fx(n), fy(n); Chrom rx, ry; size_t kept = 0;
            for (size_t i = 0; i < n; i++) if (x[i] == a.c[i] && y[i] == b.c[i]) { fx[(size_t)a.c[i]] = fy[(size_t)b.c[i]] = 1; kept++; }
            for (size_t i = 0; i < n; i++) { if (!fx[(size_t)b.c[i]]) rx.push_back(b.c[i]); if (!fy[(size_t)a.c[i]]) ry.push_back(a.c[i]); }
            size_t k = 0;
            for (size_t i = 0; i < n; i++) if (!(x[i] == a.c[i] && y[i] == b.c[i])) { if (x[i] != rx[k] || y[i] != ry[k]) BAD("the genes not kept from a parent are not in the order of the other one"); k++; }
            if (!kept) BAD("no position was kept from the parents");
        }
        if (o.kind == CYC)
        {
            std::vector<char> done(n); int want = -1; std::vector<size_t> at(n); for (size_t i = 0; i < n; i++) at[(size_t)a.c[i]] = i;
            for (size_t i = 0; i < n; i++)
            {
                if (done[i]) continue;
                if (a.c[i] == b.c[i]) { done[i] = 1; if (want >= 0) want ^= 1; else want = 2; continue; }
                int d = x[i] == a.c[i]; size_t j = i;
                do { done[j] = 1; if ((x[j] == a.c[j]) != d) BAD("the genes of one cycle (at %zu and %zu) come from different parents", i, j); j = at[(size_t)b.c[j]]; } while (j != i);
                want = d ^ 1;
            }
        }
        return;
    }
    double span = 0; for (size_t i = 0; i < n; i++) span = std::max({ span, std::abs(a.c[i]), std::abs(b.c[i]) });
    double sc = span + 1e-300;
    for (size_t i = 0; i < n; i++) if (!(x[i] >= o.lb[i] && x[i] <= o.ub[i] && y[i] >= o.lb[i] && y[i] <= o.ub[i])) BAD("gene %zu is outside of its bounds %.17g..%.17g", i, o.lb[i], o.ub[i]);
    size_t m = 0; for (size_t i = 0; i < n; i++) if (std::abs(a.c[i] - b.c[i]) > std::abs(a.c[m] - b.c[m])) m = i;
    double d = a.c[m] - b.c[m];
    if (std::abs(d) < 1e-6 * sc || !std::isfinite(2 * span)) return;
    if (o.kind == ARITH)
    {
        double w = (x[m] - b.c[m]) / d; if (!(w >= -1e-9 && w <= 1 + 1e-9)) BAD("the weight is %.17g", w);
        for (size_t i = 0; i < n; i++) if (!near(x[i], w * a.c[i] + (1 - w) * b.c[i], sc) || !near(y[i], (1 - w) * a.c[i] + w * b.c[i], sc)) BAD("gene %zu is not the combination of the parents' genes with the weight %.17g of gene %zu", i, w, m);
    }
    else if (o.kind == BLX)
        for (size_t i = 0; i < n; i++)
        {
            double lo = std::min(a.c[i], b.c[i]), hi = std::max(a.c[i], b.c[i]), e = o.par * (hi - lo);
            for (double v : { x[i], y[i] }) if (v < lo - e - 1e-9 * sc || v > hi + e + 1e-9 * sc) BAD("gene %zu is further outside of the parents' interval than alpha permits", i);
        }
    else if (o.kind == SBX)
        for (size_t i = 0; i < n; i++)
        {
            double mid = 0.5 * (a.c[i] + b.c[i]);
            if (a.c[i] == b.c[i] && (x[i] != a.c[i] || y[i] != a.c[i])) BAD("the parents have the same gene at %zu, a child has another one", i);
            if (std::min(x[i], y[i]) > mid + 1e-9 * sc || std::max(x[i], y[i]) < mid - 1e-9 * sc) BAD("both children's genes at %zu are on the same side of the parents' mean", i);
        }
    else
    {
        auto fits = [&](const Chrom& c, const Chrom& p, const Chrom& q)
        {
            size_t k = n; for (size_t i = 0; i < n; i++) if (c[i] > o.lb[i] && c[i] < o.ub[i] && (k == n || std::abs(p[i] - q[i]) > std::abs(p[k] - q[k]))) k = i;
            if (k == n || std::abs(p[k] - q[k]) < 1e-6 * sc) return true;
            double w = (c[k] - p[k]) / (p[k] - q[k]); if (!(w >= -1e-9 && w <= 1 + 1e-9)) return false;
            for (size_t i = 0; i < n; i++) if (!near(c[i], clampd(p[i] + w * (p[i] - q[i]), o.lb[i], o.ub[i]), sc * 1000)) return false;
            return true;
        };
        bool ab = fits(x, a.c, b.c) && fits(y, a.c, b.c), ba = fits(x, b.c, a.c) && fits(y, b.c, a.c);
        if (dominates(a.f, b.f) ? !ab : dominates(b.f, a.f) ? !ba : !(ab || ba)) BAD("the children are not on the line from the worse parent to the better one and beyond it (fitness %s, %s)", str(a.f).c_str(), str(b.f).c_str());
    }
}

#undef BAD
#define BAD(...) do { char m_[500]; std::snprintf(m_, sizeof m_, __VA_ARGS__); failf("mutant", "%s: %s; before %s, after %s", what(o).c_str(), m_, show(a).c_str(), show(x).c_str()); } while (0)

void check_mutant(const Op& o, const Chrom& a, const Chrom& x)
{
    size_t n = a.size();
    if (x.size() != n) BAD("wrong length");
    size_t changed = 0, first = n, last = 0;
    for (size_t i = 0; i < n; i++) if (x[i] != a[i]) { changed++; first = std::min(first, i); last = i; }
    if (o.rate == 0 && changed) BAD("the mutation rate is zero");
    if (o.enc == BIN)
    {
        for (size_t i = 0; i < n; i++) if (x[i] != 0 && x[i] != 1) BAD("gene %zu is neither 0 nor 1", i);
        if (o.rate == 1 && changed != n) BAD("the mutation rate is one but %zu genes are unchanged", n - changed);
    }
    else if (o.enc == INT)
    {
        for (size_t i = 0; i < n; i++) { if (x[i] < o.lb[i] || x[i] > o.ub[i]) BAD("gene %zu is outside of %g..%g", i, o.lb[i], o.ub[i]); if (o.rate == 1 && x[i] == a[i] && o.lb[i] < o.ub[i]) BAD("the mutation rate is one but gene %zu is unchanged", i); }
    }
    else if (o.enc == PERM)
    {
        if (!is_perm(x)) BAD("not a permutation");
        size_t limit = std::max<size_t>((size_t)(o.par * (double)n), 2);
        if (!changed) { if (o.rate == 1 && o.kind != SHUF && n >= (o.kind == SW3 ? 3u : 2u)) BAD("the mutation rate is one but nothing changed"); return; }
        size_t win = last - first + 1;
        if (o.kind == INV)
        {
            Chrom r = a; std::reverse(r.begin() + (long)first, r.begin() + (long)last + 1);
            if (r != x) BAD("not a reversed range");
            if (win > limit) BAD("a range of %zu genes was reversed, at most %zu are allowed", win, limit);
        }
        else if (o.kind == SW2) { if (changed != 2) BAD("not a swap of two genes"); }
        else if (o.kind == SW3) { if (changed != 3) BAD("not a rotation of three genes"); }
        else if (o.kind == SHUF) { if (win > limit) BAD("a range of %zu genes was shuffled, at most %zu are allowed", win, limit); }
        else
        {
            size_t lim = std::clamp<size_t>((size_t)(o.par * (double)n), 1, n - 1); bool ok = false;
            for (size_t k = 1; k < win && !ok; k++)
            {
                Chrom r = a; std::rotate(r.begin() + (long)first, r.begin() + (long)(first + k), r.begin() + (long)last + 1);
                ok = r == x && std::min(k, win - k) <= lim;
            }
            if (!ok) BAD("not a range of at most %zu genes moved elsewhere", lim);
        }
    }
    else
    {
        for (size_t i = 0; i < n; i++)
        {
            if (!(x[i] >= o.lb[i] && x[i] <= o.ub[i])) BAD("gene %zu is outside of its bounds %.17g..%.17g", i, o.lb[i], o.ub[i]);
            if (o.kind == BOUND && (x[i] != a[i] || o.rate == 1) && x[i] != o.lb[i] && x[i] != o.ub[i]) BAD("gene %zu is not one of its bounds", i);
        }
    }
}

// --- building the real operators ---------------------------------------------------------------------------------------

template<typename T> std::unique_ptr<crossover::Crossover<T>> make_cx(const Op& o);
template<typename T> std::unique_ptr<mutation::Mutation<T>> make_mu(const Op& o);

template<typename S, typename D, typename N, typename U, typename T> std::unique_ptr<crossover::Crossover<T>> points(const Op& o)
{
    switch (o.kind)
    {
    case SINGLE: return std::make_unique<S>(o.rate);
    case TWO: return std::make_unique<D>(o.rate);
    case NPT: { if (!o.setters) return std::make_unique<N>(o.rate, o.n); auto r = std::make_unique<N>(1); r->num_crossover_points(o.n); return r; }
    default: { if (!o.setters) return std::make_unique<U>(o.rate, o.par); auto r = std::make_unique<U>(); r->swap_probability(o.par); return r; }
    }
}
template<> std::unique_ptr<crossover::Crossover<BinaryGene>> make_cx(const Op& o) { using namespace crossover::binary; return points<SinglePoint, TwoPoint, NPoint, Uniform, BinaryGene>(o); }
template<> std::unique_ptr<crossover::Crossover<IntegerGene>> make_cx(const Op& o) { using namespace crossover::integer; return points<SinglePoint, TwoPoint, NPoint, Uniform, IntegerGene>(o); }
template<> std::unique_ptr<crossover::Crossover<PermutationGene>> make_cx(const Op& o)
{
    using namespace crossover::perm;
    switch (o.kind) { case O1: return std::make_unique<Order1>(o.rate); case O2: return std::make_unique<Order2>(o.rate); case POS: return std::make_unique<Position>(o.rate); case CYC: return std::make_unique<Cycle>(o.rate); case EDGE: return std::make_unique<Edge>(o.rate); default: return std::make_unique<PMX>(o.rate); }
}
template<> std::unique_ptr<crossover::Crossover<RealGene>> make_cx(const Op& o)
{
    using namespace crossover::real;
    switch (o.kind)
    {
    case ARITH: return std::make_unique<Arithmetic>(o.rate);
    case BLX: { if (!o.setters) return std::make_unique<BLXa>(o.rate, o.par); auto r = std::make_unique<BLXa>(); r->alpha(o.par); return r; }
    case SBX: { if (!o.setters) return std::make_unique<SimulatedBinary>(o.rate, o.par); auto r = std::make_unique<SimulatedBinary>(); r->eta(o.par); return r; }
    default: return std::make_unique<Wright>(o.rate);
    }
}
template<> std::unique_ptr<mutation::Mutation<BinaryGene>> make_mu(const Op& o) { return std::make_unique<mutation::binary::Flip>(o.rate); }
template<> std::unique_ptr<mutation::Mutation<IntegerGene>> make_mu(const Op& o) { return std::make_unique<mutation::integer::Uniform>(o.rate); }
template<> std::unique_ptr<mutation::Mutation<PermutationGene>> make_mu(const Op& o)
{
    using namespace mutation::perm;
    auto ranged = [&](auto* t) -> std::unique_ptr<mutation::Mutation<PermutationGene>> { using M = std::remove_pointer_t<decltype(t)>; if (!o.setters) return std::make_unique<M>(o.rate, o.par); auto r = std::make_unique<M>(0.5); r->range_max(o.par); return r; };
    switch (o.kind) { case INV: return ranged((Inversion*)nullptr); case SW2: return std::make_unique<Swap2>(o.rate); case SW3: return std::make_unique<Swap3>(o.rate); case SHUF: return ranged((Shuffle*)nullptr); default: return ranged((Shift*)nullptr); }
}
template<> std::unique_ptr<mutation::Mutation<RealGene>> make_mu(const Op& o)
{
    using namespace mutation::real;
    switch (o.kind)
    {
    case RUNI: return std::make_unique<Uniform>(o.rate);
    case NONUNI: { if (!o.setters) return std::make_unique<NonUniform>(o.rate, o.par); auto r = std::make_unique<NonUniform>(0.5); r->beta(o.par); return r; }
    case GAUSS: { if (!o.setters) return std::make_unique<Gauss>(o.rate, o.par); auto r = std::make_unique<Gauss>(0.5); r->sigma(o.par); return r; }
    case POLY: { if (!o.setters) return std::make_unique<Polynomial>(o.rate, o.par); auto r = std::make_unique<Polynomial>(0.5); r->eta(o.par); return r; }
    default: return std::make_unique<Boundary>(o.rate);
    }
}

// --- spies ------------------------------------------------------------------------------------------------------------

struct Shared { Op cx, mu; int stat_gen = -1; size_t gen = 0; bool cx_stats = false; };

template<typename T> struct SpyCx final : crossover::Crossover<T>
{
    std::unique_ptr<crossover::Crossover<T>> inner; const Shared* s;
    SpyCx(std::unique_ptr<crossover::Crossover<T>> i, const Shared* s) : crossover::Crossover<T>(1.0), inner(std::move(i)), s(s) {}
    CandidatePair<T> crossover(const GA<T>& ga, const Candidate<T>& a, const Candidate<T>& b) const override
    {
        auto r = (*inner)(ga, a, b);
        NoSim _;
        check_children(s->cx, Par{ vec<T>(a.chromosome), Fit(a.fitness.begin(), a.fitness.end()) }, Par{ vec<T>(b.chromosome), Fit(b.fitness.begin(), b.fitness.end()) }, vec<T>(r.first.chromosome), vec<T>(r.second.chromosome));
        return r;
    }
};
template<typename T> struct SpyMu final : mutation::Mutation<T>
{
    std::unique_ptr<mutation::Mutation<T>> inner; const Shared* s;
    SpyMu(std::unique_ptr<mutation::Mutation<T>> i, const Shared* s) : mutation::Mutation<T>(1.0), inner(std::move(i)), s(s) {}
    void mutate(const GA<T>& ga, const Candidate<T>&, Chromosome<T>& ch) const override
    {
        Candidate<T> c(ch);
        (*inner)(ga, c);
        NoSim _;
        check_mutant(s->mu, vec<T>(ch), vec<T>(c.chromosome));
        ch = c.chromosome;
    }
};

template<typename T> struct Fn final : FitnessFunctionBase<T>
{
    uint64_t seed; int nobj;
    Fn(size_t len, uint64_t seed, int nobj) : FitnessFunctionBase<T>(len), seed(seed), nobj(nobj) {}
    FitnessVector invoke(const Chromosome<T>& c) const override
    {
        NoSim _;
        Digest d; d.add(seed); for (auto g : c) d.add((double)g);
        FitnessVector f; for (int i = 0; i < nobj; i++) { d.add((uint64_t)i); f.push_back((double)(d.h % 7)); }
        return f;
    }
};

template<typename T> struct Enc_;
template<> struct Enc_<BinaryGene> { using GA = BinaryGA; static constexpr Enc e = BIN; };
template<> struct Enc_<IntegerGene> { using GA = IntegerGA; static constexpr Enc e = INT; };
template<> struct Enc_<PermutationGene> { using GA = PermutationGA; static constexpr Enc e = PERM; };
template<> struct Enc_<RealGene> { using GA = RCGA; static constexpr Enc e = REAL; };

void random_bounds(Prng& p, Enc e, size_t len, std::vector<double>& lb, std::vector<double>& ub, bool wide)
{
    for (size_t i = 0; i < len; i++)
    {
        if (e == BIN) { lb.push_back(0); ub.push_back(1); }
        else if (e == INT) { double l = p.range(-20, 5); lb.push_back(l); ub.push_back(l + (wide ? p.range(3, 9) : p.range(0, 6))); }
        else { double l = wide ? -100 : p.real(-10, 10); lb.push_back(l); ub.push_back(wide ? 100 : p.chance(0.05) ? l : l + p.real(0.001, 10)); }
    }
}

Op random_op(Prng& p, Enc e, bool cross, size_t len, bool exact)
{
    Op o; o.enc = e; o.cross = cross; o.kind = p.range(0, (cross ? Op::cx_kinds(e) : Op::mu_kinds(e)) - 1);
    o.rate = exact && p.chance(0.2) ? 0 : exact && p.chance(0.35) ? 1 : p.real(0.05, 1);
    o.setters = p.chance(0.3);
    o.n = (size_t)p.range(1, (int)len + 3);
    o.par = exact && p.chance(0.2) ? 0 : exact && p.chance(0.2) ? 1 : p.real(0, 1);
    if (e == REAL && cross) o.par = o.kind == SBX ? p.real(0, 6) : p.real(0, 1.5);
    if (e == REAL && !cross) o.par = o.kind == NONUNI ? p.real(0, 4) : o.kind == GAUSS ? p.real(0.2, 12) : p.real(0, 60);
    return o;
}

template<typename T> typename Enc_<T>::GA make_ga(size_t pop, Shared& s, const std::vector<double>&, size_t)
{
    auto cx = make_cx<T>(s.cx); auto mu = make_mu<T>(s.mu);
    if (s.cx.setters) cx->crossover_rate(s.cx.rate);
    if (s.mu.setters) mu->mutation_rate(s.mu.rate);
    return typename Enc_<T>::GA(pop, std::make_unique<SpyCx<T>>(std::move(cx), &s), std::make_unique<SpyMu<T>>(std::move(mu), &s));
}

template<typename T> void solve(typename Enc_<T>::GA& ga, Prng& p, size_t len, int nobj, const Op& o, size_t gens)
{
    if constexpr (is_bounded<T>)
    {
        BoundsVector<T> b; for (size_t i = 0; i < len; i++) b.push_back({ (T)o.lb[i], (T)o.ub[i] });
        ga.solve(Fn<T>(len, p.next(), nobj), b, gens);
    }
    else ga.solve(Fn<T>(len, p.next(), nobj), gens);
}

template<typename T> void forms(Ctx& ctx)
{
    Prng& p = ctx.rng; constexpr Enc e = Enc_<T>::e;
    size_t th = random_threads(p), len = (size_t)p.range(e == PERM ? 2 : 1, p.chance(0.03) ? 150 : p.chance(0.1) ? 40 : 10), pop = (size_t)p.range(2, 14), gens = (size_t)p.range(1, 5); int nobj = p.chance(0.75) ? 1 : 2;
    Shared s; std::vector<double> lb, ub; random_bounds(p, e, len, lb, ub, false);
    s.cx = random_op(p, e, true, len, true); s.mu = random_op(p, e, false, len, true); s.cx.lb = s.mu.lb = lb; s.cx.ub = s.mu.ub = ub;
    { NoSim _; workload("threads=" + std::to_string(th) + " population=" + std::to_string(pop) + " length=" + std::to_string(len) + " generations=" + std::to_string(gens) + " objectives=" + std::to_string(nobj) + " " + what(s.cx) + " " + what(s.mu)); }
    set_threads(th); rng::prng.seed(p.next());
    auto ga = make_ga<T>(pop, s, lb, len);
    solve<T>(ga, p, len, nobj, s.cx, gens);
}

// --- rates and distributions --------------------------------------------------------------------------------------------

struct Freq {
    const Op& o; double n;
    void is(double count, double p, double slack, const char* event, size_t k = 0) const
    {
        double e = p * n, tol = 8 * std::sqrt(n * p * (1 - p)) + 8 + slack * n;
        CHECK(std::abs(count - e) <= tol, "rate", "%s: %s (%zu) happened %g times in %g applications, expected about %.1f", what(o).c_str(), event, k, count, n, e);
    }
    // the mean of values that are uniform on [0, 1]
    void uniform(const std::vector<double>& v, const char* event) const
    {
        if (v.size() < 50) return;
        double m = 0, q = 0; for (double u : v) { m += u; q += u * u; } double c = (double)v.size(); m /= c; q /= c;
        CHECK(std::abs(m - 0.5) <= 8 * std::sqrt(1 / (12 * c)) + 1e-6, "distribution", "%s: the mean of %s is %.6g in %g applications, expected 0.5", what(o).c_str(), event, m, c);
        CHECK(std::abs(q - 1.0 / 3) <= 8 * std::sqrt(4 / (45 * c)) + 1e-6, "distribution", "%s: the mean square of %s is %.6g in %g applications, expected 1/3", what(o).c_str(), event, q, c);
    }
};

// The outcomes of the permutation operators that are documented to choose their genes at random, with their probabilities.
using Outcomes = std::map<Chrom, double>;

Chrom pair_of(const Chrom& x, const Chrom& y) { Chrom r = x; r.insert(r.end(), y.begin(), y.end()); return r; }

Outcomes cx_outcomes(const Op& o, const Chrom& a, const Chrom& b)
{
    size_t n = a.size(); Outcomes r; r[pair_of(a, b)] += 1 - o.rate;
    if (n < 2) { r[pair_of(a, b)] += o.rate; return r; }
    auto lens = (double)(n - 1);
    if (o.kind == POS)
        for (size_t m = 1; m + 1 < (size_t(1) << n); m++)
        {
            size_t k = 0; for (size_t i = 0; i < n; i++) k += m >> i & 1;
            auto child = [&](const Chrom& p, const Chrom& q)
            {
                std::vector<char> used(n); for (size_t i = 0; i < n; i++) if (m >> i & 1) used[(size_t)p[i]] = 1;
                Chrom rest, c = p; for (double g : q) if (!used[(size_t)g]) rest.push_back(g);
                size_t j = 0; for (size_t i = 0; i < n; i++) if (!(m >> i & 1)) c[i] = rest[j++];
                return c;
            };
            double choose = 1; for (size_t i = 0; i < k; i++) choose = choose * (double)(n - i) / (double)(i + 1);
            r[pair_of(child(a, b), child(b, a))] += o.rate / lens / choose;
        }
    else
        for (size_t k = 1; k < n; k++) for (size_t i = 0; i + k <= n; i++)
        {
            double p = o.rate / lens / (double)(n - k + 1);
            r[o.kind == PMX_ ? pair_of(pmx_ref(a, b, i, i + k), pmx_ref(b, a, i, i + k)) : pair_of(order_ref(a, b, i, i + k, o.kind == O1), order_ref(b, a, i, i + k, o.kind == O1))] += p;
        }
    return r;
}
Outcomes mu_outcomes(const Op& o, const Chrom& a)
{
    size_t n = a.size(); Outcomes r; r[a] += 1 - o.rate;
    if (n < 2) { r[a] += o.rate; return r; }
    size_t ranged = std::max<size_t>((size_t)(o.par * (double)n), 2), shifted = std::clamp<size_t>((size_t)(o.par * (double)n), 1, n - 1);
    if (o.kind == INV)
        for (size_t k = 2; k <= ranged; k++) for (size_t i = 0; i + k <= n; i++)
        {
            Chrom c = a; std::reverse(c.begin() + (long)i, c.begin() + (long)(i + k)); r[c] += o.rate / (double)(ranged - 1) / (double)(n - k + 1);
        }
    else if (o.kind == SW2)
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) { Chrom c = a; std::swap(c[i], c[j]); r[c] += o.rate * 2 / (double)(n * (n - 1)); }
    else
        for (size_t k = 1; k <= shifted; k++) for (size_t i = 0; i + k <= n; i++) for (size_t j = 0; j + k <= n; j++)
        {
            if (i == j) continue;
            Chrom c = a;
            if (j < i) std::rotate(c.begin() + (long)j, c.begin() + (long)i, c.begin() + (long)(i + k)); else std::rotate(c.begin() + (long)i, c.begin() + (long)(i + k), c.begin() + (long)(j + k));
            r[c] += o.rate / (double)shifted / (double)((n - k + 1) * (n - k));
        }
    return r;
}
void chi_square(const Op& o, const Outcomes& want, const std::map<Chrom, double>& got, double n)
{
    double x = 0, k = -1, rest_p = 0, rest_c = 0; Chrom worst; double worst_d = 0, worst_e = 0, worst_c = 0;
    for (auto& [c, cnt] : got) CHECK(want.contains(c), "distribution", "%s: %s is not a possible outcome", what(o).c_str(), show(c).c_str());
    auto bin = [&](const Chrom& c, double p, double cnt) { double e = p * n, d = (cnt - e) * (cnt - e) / e; x += d; k++; if (d > worst_d) { worst_d = d; worst = c; worst_e = e; worst_c = cnt; } };
    for (auto& [c, p] : want)
    {
        auto it = got.find(c); double cnt = it == got.end() ? 0 : it->second;
        if (p * n < 8) { rest_p += p; rest_c += cnt; } else bin(c, p, cnt);
    }
    if (rest_p * n >= 8) bin({}, rest_p, rest_c);
    if (k < 1) return;
    double z = (std::cbrt(x / k) - (1 - 2 / (9 * k))) / std::sqrt(2 / (9 * k));
    CHECK(z < 9, "distribution", "%s: the outcomes do not have the documented distribution (chi-square %.1f with %g degrees of freedom), e.g. %s occurred %g times in %g applications, expected about %.1f", what(o).c_str(), x, k, show(worst).c_str(), worst_c, n, worst_e);
}

// How often both the first gene and the one at d differ from those in a.
double together(const std::vector<Chrom>& r, const Chrom& a, size_t d) { double k = 0; for (auto& x : r) k += x[0] != a[0] && x[d] != a[d]; return k; }
double together(const std::vector<std::pair<Chrom, Chrom>>& r, const Chrom& a, size_t d) { double k = 0; for (auto& [x, y] : r) k += x[0] != a[0] && x[d] != a[d]; return k; }

void cx_stats(const Op& o, const Par& a, const Par& b, const std::vector<std::pair<Chrom, Chrom>>& r)
{
    size_t n = a.c.size(); Freq f{ o, (double)r.size() };
    double changed = 0; std::vector<double> crossed(n), switches(n); std::vector<double> u, v; double far = 0;
    for (auto& [x, y] : r)
    {
        check_children(o, a, b, x, y);
        bool same = x == a.c && y == b.c; if (!same) changed++;
        for (size_t i = 0; i < n; i++) { if (x[i] != a.c[i]) crossed[i]++; if (i && (x[i] != a.c[i]) != (x[i - 1] != a.c[i - 1])) switches[i]++; }
        if (o.enc == REAL && !same)
        {
            if (o.kind == ARITH) u.push_back((x[0] - b.c[0]) / (a.c[0] - b.c[0]));
            if (o.kind == WRIGHT) { const Par& p = dominates(a.f, b.f) ? a : b; const Par& q = dominates(a.f, b.f) ? b : a; u.push_back((x[0] - p.c[0]) / (p.c[0] - q.c[0])); v.push_back((y[0] - p.c[0]) / (p.c[0] - q.c[0])); }
            if (o.kind == BLX) for (size_t i = 0; i < n; i++) { double lo = std::min(a.c[i], b.c[i]), hi = std::max(a.c[i], b.c[i]), e = o.par * (hi - lo); u.push_back((x[i] - lo + e) / (hi - lo + 2 * e)); v.push_back((y[i] - lo + e) / (hi - lo + 2 * e)); }
        }
    }
    (void)far;
    double len = (double)n, pc = o.rate;
    if (o.enc == BIN || o.enc == INT)
    {
        if (o.kind == SINGLE) { f.is(changed, pc * (1 - 1 / (len + 1)), 0, "a changed pair"); for (size_t i = 1; i < n; i++) f.is(switches[i], pc / (len + 1), 0, "the crossover point at a position", i); }
        else if (o.kind == TWO) { for (size_t i = 0; i < n; i++) { double in = 2 * (double)(i + 1) * (len - (double)i) / ((len + 1) * (len + 1)); f.is(crossed[i], pc * in, 0, "swapping a gene", i); } }
        else if (o.kind == NPT) { double k = (double)std::min(o.n, n); for (size_t i = 1; i < n; i++) f.is(switches[i], pc * k / len, 0, "a crossover point at a position", i); }
        else
        {
            for (size_t i = 0; i < n; i++) f.is(crossed[i], pc * o.par, n > 5 ? 0.03 : 0, "swapping a gene", i);
            for (size_t d = 1; d < n; d++) f.is(together(r, a.c, d), pc * o.par * o.par, n > 5 ? 0.05 : 0, "swapping both the first gene and the one at", d);
        }
    }
    else if (o.enc == REAL) { f.is(changed, pc, 0, "a changed pair"); f.uniform(u, "the position of a gene in its interval"); f.uniform(v, "the position of the second child's gene in its interval"); }
    else if (o.kind == O1 || o.kind == O2 || o.kind == POS || o.kind == PMX_)
    {
        std::map<Chrom, double> got; for (auto& [x, y] : r) got[pair_of(x, y)]++;
        chi_square(o, cx_outcomes(o, a.c, b.c), got, f.n);
    }
    else CHECK(changed <= pc * f.n + 8 * std::sqrt(f.n * pc * (1 - pc)) + 8, "rate", "%s changed the parents %g times in %g applications", what(o).c_str(), changed, f.n);
}

void mu_stats(const Op& o, const Chrom& a, const std::vector<Chrom>& r)
{
    size_t n = a.size(); Freq f{ o, (double)r.size() };
    double changed = 0; std::vector<double> moved(n), up(n); std::vector<std::vector<double>> vals(n); std::vector<double> u; double sq = 0, sum = 0, cnt = 0;
    for (auto& x : r)
    {
        check_mutant(o, a, x);
        if (x != a) changed++;
        for (size_t i = 0; i < n; i++)
        {
            if (x[i] == a[i]) continue;
            moved[i]++; vals[i].push_back(x[i]); if (x[i] > a[i]) up[i]++;
            if (o.enc != REAL) continue;
            double lo = o.lb[i], hi = o.ub[i];
            if (o.kind == RUNI) u.push_back((x[i] - lo) / (hi - lo));
            if (o.kind == GAUSS) { double z = (x[i] - a[i]) / ((hi - lo) / o.par); sum += z; sq += z * z; cnt++; }
            if (o.kind == NONUNI) { double m = x[i] > a[i] ? (x[i] - a[i]) / (hi - a[i]) : (x[i] - a[i]) / (lo - a[i]); double e = std::pow(1.0 - (double)o.gen / (double)o.max_gen, o.par); u.push_back(std::pow(1 - m, 1 / e)); }
            if (o.kind == POLY) { if (x[i] < a[i]) u.push_back(std::pow(1 - (a[i] - x[i]) / (a[i] - lo), 1 + o.par)); else u.push_back(std::pow(1 - (x[i] - a[i]) / (hi - a[i]), 1 + o.par)); }
        }
    }
    double slack = n > 5 ? 0.03 : 0, len = (double)n;
    if (o.enc != PERM) for (size_t d = 1; d < n; d++) if (o.lb[0] < o.ub[0] && o.lb[d] < o.ub[d]) f.is(together(r, a, d), o.rate * o.rate, (n > 5 ? 0.05 : 0) + (o.enc == REAL ? 0.01 : 0), "mutating both the first gene and the one at", d);
    if (o.enc == BIN) for (size_t i = 0; i < n; i++) f.is(moved[i], o.rate, slack, "flipping a gene", i);
    else if (o.enc == INT)
        for (size_t i = 0; i < n; i++)
        {
            if (o.lb[i] == o.ub[i]) continue;
            f.is(moved[i], o.rate, slack, "changing a gene", i);
            Freq g{ o, moved[i] }; for (double v = o.lb[i]; v <= o.ub[i]; v++) if (v != a[i]) g.is((double)std::count(vals[i].begin(), vals[i].end(), v), 1 / (o.ub[i] - o.lb[i]), 0, "a value of a mutated gene", i);
        }
    else if (o.enc == PERM)
    {
        if (o.kind == SHUF) CHECK(changed <= o.rate * f.n + 8 * std::sqrt(f.n * o.rate * (1 - o.rate)) + 8 && changed >= 0.5 * o.rate * f.n - 8 * std::sqrt(f.n * 0.25) - 8, "rate", "%s changed %g of %g candidates", what(o).c_str(), changed, f.n);
        else if (n >= (o.kind == SW3 ? 3u : 2u)) f.is(changed, o.rate, 0, "mutating a candidate");
        if (o.kind == INV || o.kind == SW2 || o.kind == SHIFT)
        {
            std::map<Chrom, double> got; for (auto& x : r) got[x]++;
            chi_square(o, mu_outcomes(o, a), got, f.n);
        }
        if (o.kind == SHUF && n >= 2)
        {
            size_t most = std::max<size_t>((size_t)(o.par * (double)n), 2);
            for (size_t i = 0; i < n; i++)
            {
                double q = 0; for (size_t k = 2; k <= most; k++) for (size_t j = 0; j + k <= n; j++) if (j <= i && i < j + k) q += (1 - 1 / (double)k) / (double)(n - k + 1) / (double)(most - 1);
                f.is(moved[i], o.rate * q, 0, "shuffling a gene", i);
            }
        }
        if (o.kind == SW2 && n >= 2) for (size_t i = 0; i < n; i++) f.is(moved[i], o.rate * 2 / len, 0, "swapping a gene", i);
        if (o.kind == SW3 && n >= 3) for (size_t i = 0; i < n; i++) f.is(moved[i], o.rate * 3 / len, 0, "moving a gene", i);
    }
    else
    {
        if (o.kind == BOUND) { for (size_t i = 0; i < n; i++) { f.is(moved[i], o.rate, slack, "mutating a gene", i); Freq g{ o, moved[i] }; g.is(up[i], 0.5, 0, "setting a gene to its upper bound", i); } }
        else for (size_t i = 0; i < n; i++) f.is(moved[i], o.rate, slack + 0.005, "mutating a gene", i);
        if (o.kind != BOUND) for (size_t i = 0; i < n; i++) if (o.kind != RUNI) { Freq g{ o, moved[i] }; g.is(up[i], 0.5, 0.005, "increasing a mutated gene", i); }
        if (o.kind != POLY && o.kind != NONUNI) f.uniform(u, "the value of a mutated gene in its interval");
        else if (o.par < 25) f.uniform(u, "the random number behind a mutated gene");
        if (o.kind == GAUSS && cnt > 100)
        {
            CHECK(std::abs(sum / cnt) <= 8 / std::sqrt(cnt) + 1e-6, "distribution", "%s: the mean change is %.6g standard deviations in %g mutations", what(o).c_str(), sum / cnt, cnt);
            if (o.par >= 16) CHECK(std::abs(sq / cnt - 1) <= 8 * std::sqrt(2 / cnt) + 1e-3, "distribution", "%s: the variance of the changes is %.6g of the documented one in %g mutations", what(o).c_str(), sq / cnt, cnt);
        }
    }
}

template<typename T> Chromosome<T> chrom(const Chrom& c) { Chromosome<T> r; for (double v : c) r.push_back((T)v); return r; }

template<typename T> void rates(Ctx& ctx, bool cross)
{
    Prng& p = ctx.rng; constexpr Enc e = Enc_<T>::e;
    size_t th = random_threads(p), len = (size_t)p.range(e == PERM ? 2 : 1, 9), pop = 2, gens = (size_t)p.range(1, 4); const size_t N = ctx.thorough ? 3000 : 1200;
    Shared s; std::vector<double> lb, ub; random_bounds(p, e, len, lb, ub, true);
    s.cx = random_op(p, e, true, len, true); s.mu = random_op(p, e, false, len, true); s.cx.lb = s.mu.lb = lb; s.cx.ub = s.mu.ub = ub;
    if (e == REAL && !cross && s.mu.kind == GAUSS) s.mu.par = p.real(16, 40);
    if (e == REAL && !cross && s.mu.kind == NONUNI) s.mu.par = p.real(0, 2);
    int gen = p.range(0, (int)gens - 1);
    // two parents that differ at every position, in the middle of the bounds
    Par a, b;
    {
        NoSim _;
        for (size_t i = 0; i < len; i++)
        {
            if (e == BIN) { double g = p.range(0, 1); a.c.push_back(g); b.c.push_back(1 - g); }
            else if (e == INT) { double g = p.range((int)lb[i], (int)ub[i]); a.c.push_back(g); b.c.push_back(g > lb[i] ? g - 1 : g + 1); }
            else if (e == PERM) { a.c.push_back((double)i); b.c.push_back((double)((i + 1) % len)); }
            else { a.c.push_back(p.real(-15, -1)); b.c.push_back(p.real(1, 15)); if (p.chance(0.5)) std::swap(a.c[i], b.c[i]); }
        }
        if (e == PERM) { Chrom c = b.c; for (size_t i = len - 1; i > 0; i--) std::swap(c[i], c[p.below(i + 1)]); bool differ = true; for (size_t i = 0; i < len; i++) differ = differ && c[i] != a.c[i]; if (differ) b.c = c; }
        a.f = { 1 }; b.f = { 2 }; if (p.chance(0.5)) std::swap(a.f, b.f);
        workload("threads=" + std::to_string(th) + " length=" + std::to_string(len) + " generation " + std::to_string(gen) + " of " + std::to_string(gens) + ": " + std::to_string(N) + " applications of " + what(cross ? s.cx : s.mu));
    }
    set_threads(th); rng::prng.seed(p.next());
    auto cx = make_cx<T>(s.cx); auto mu = make_mu<T>(s.mu);
    if (s.cx.setters) cx->crossover_rate(s.cx.rate);
    if (s.mu.setters) mu->mutation_rate(s.mu.rate);
    bool done = false; int callbacks = 0;
    auto probe_ops = [&](const GA<T>& ga)
    {
        if (callbacks++ != gen) return;
        done = true;
        Candidate<T> ca(chrom<T>(a.c)), cb(chrom<T>(b.c)); ca.fitness = FitnessVector{ a.f[0] }; cb.fitness = FitnessVector{ b.f[0] }; ca.is_evaluated = cb.is_evaluated = true;
        std::vector<std::pair<Chrom, Chrom>> rc(cross ? N : 0); std::vector<Chrom> rm(cross ? 0 : N);
        detail::parallel_for(detail::iota_iterator(size_t(0)), detail::iota_iterator(N), [&](size_t i)
        {
            if (cross) { auto r = (*cx)(ga, ca, cb); NoSim _; rc[i] = { vec<T>(r.first.chromosome), vec<T>(r.second.chromosome) }; }
            else { Candidate<T> c = ca; if (i % 2) c.is_evaluated = false; (*mu)(ga, c); NoSim _; rm[i] = vec<T>(c.chromosome); }
        });
        NoSim _;
        s.mu.gen = ga.generation_cntr(); s.mu.max_gen = ga.max_gen();
        if (cross) cx_stats(s.cx, a, b, rc); else mu_stats(s.mu, a.c, rm);
    };
    typename Enc_<T>::GA ga(pop, make_cx<T>(s.cx), make_mu<T>(s.mu));
    ga.on_generation_end([&](const GaInfo&) { probe_ops(ga); });
    solve<T>(ga, p, len, 1, s.cx, gens + 1);
    NoSim _;
    CHECK(done, "harness", "the operators were never applied");
}

// User supplied operators are called with the rates set for them.
template<typename T> void user_rates(Ctx& ctx)
{
    Prng& p = ctx.rng; constexpr Enc e = Enc_<T>::e;
    size_t th = random_threads(p), pop = (size_t)p.range(1, 40), gens = (size_t)p.range(2, 12), len = e == PERM ? 12 : 30;
    double pc = p.chance(0.2) ? 0 : p.chance(0.2) ? 1 : p.real();
    Shared s; random_bounds(p, e, len, s.cx.lb, s.cx.ub, true);
    { NoSim _; char b[160]; std::snprintf(b, sizeof b, "threads=%zu population=%zu generations=%zu user crossover with rate %.17g", th, pop, gens, pc); workload(b); }
    set_threads(th); rng::prng.seed(p.next());
    size_t calls = 0, mutations = 0, same = 0;
    using G = typename Enc_<T>::GA; G ga(pop);
    ga.crossover_method(typename G::CrossoverCallable([&](const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) -> CandidatePair<T>
    {
        NoSim _; calls++; if (a == b) same++; return { a, b };
    }));
    ga.crossover_rate(pc);
    ga.mutation_method(typename G::MutationCallable([&](const GA<T>&, const Candidate<T>&, Chromosome<T>& c)
    {
        { NoSim _; mutations++; }
        // all candidates stay different from each other
        if constexpr (e == PERM) std::shuffle(c.begin(), c.end(), rng::prng);
        else for (size_t i = 0; i < c.size(); i++) c[i] = e == BIN ? (T)rng::randomBool() : (T)rng::randomInt((int)s.cx.lb[i], (int)s.cx.ub[i]);
    }));
    if constexpr (true) ga.algorithm(std::make_unique<algorithm::SingleObjective>(std::make_unique<selection::Tournament>(1), std::make_unique<replacement::KeepChildren>()));
    size_t steps = 0; ga.on_generation_end([&](const GaInfo&) { steps++; });
    solve<T>(ga, p, len, 1, s.cx, gens);
    NoSim _;
    gens = steps - 1; size_t pairs = (pop + 1) / 2 * gens;
    CHECK(same == 0, "rate", "the user's crossover was called with two equal parents");
    CHECK(calls <= pairs, "rate", "the user's crossover was called %zu times for %zu pairs of parents", calls, pairs);
    if (pc == 0) CHECK(calls == 0, "rate", "the crossover rate is 0, but the user's crossover was called %zu times", calls);
    CHECK((double)calls <= pc * (double)pairs + 8 * std::sqrt((double)pairs * pc * (1 - pc)) + (pc > 0 && pc < 1 ? 4 : 0), "rate", "the user's crossover with the rate %g was called %zu times for %zu pairs", pc, calls, pairs);
    // two draws of the same parent out of pop candidates are the only pairs that are skipped
    double q = pc * (1 - 1.0 / (double)pop);
    CHECK((double)calls >= q * (double)pairs - 8 * std::sqrt((double)pairs * q * (1 - q)) - 4, "rate", "the user's crossover with the rate %g was called %zu times for %zu pairs of parents out of %zu", pc, calls, pairs, pop);
    CHECK(mutations == pop * gens || mutations == (pop + pop % 2) * gens, "rate", "the user's mutation was called %zu times for %zu children", mutations, pop * gens);
}

// --- the edge crossover keeps the edges of its parents, and the operators do not depend on the type of the genes -----------

template<typename P> Candidate<P> evaluated(const Chrom& c, double f) { Candidate<P> r; for (double g : c) r.chromosome.push_back((P)g); r.fitness = { f }; r.is_evaluated = true; return r; }

void edges(Ctx& ctx)
{
    Prng& p = ctx.rng;
    size_t n = (size_t)p.range(8, 24); set_threads(1); rng::prng.seed(p.next());
    auto perm = [&] { Chrom c(n); std::iota(c.begin(), c.end(), 0.0); for (size_t i = n; i > 1; i--) std::swap(c[i - 1], c[p.below(i)]); return c; };
    PermutationGA ga(4); ga.solve(Fn<PermutationGene>(n, p.next(), 1), 1);
    crossover::perm::Edge op(1.0);
    double kept = 0, all = 0;
    auto has = [&](const Chrom& c, double g, double h) { for (size_t i = 1; i < n; i++) if ((c[i] == g && c[i - 1] == h) || (c[i] == h && c[i - 1] == g)) return true; return false; };
    bool generic = p.chance(0.4); workload("length=" + std::to_string(n) + (generic ? " of signed genes" : ""));
    for (int k = 0; k < 40; k++)
    {
        Chrom a = perm(), b = perm(), x, y;
        if (generic)
        {
            auto other = [](Chrom c) { for (double& g : c) g = 3 * g - 7; return c; }; auto back = [](Chrom c) { for (double& g : c) g = (g + 7) / 3; return c; };
            auto ca = evaluated<int>(other(a), 1), cb = evaluated<int>(other(b), 2);
            x = back(vec(crossover::dtl::edgeCrossoverImpl(ca, cb).chromosome)); y = back(vec(crossover::dtl::edgeCrossoverImpl(cb, ca).chromosome));
        }
        else { auto r = op(ga, evaluated<PermutationGene>(a, 1), evaluated<PermutationGene>(b, 2)); x = vec(r.first.chromosome); y = vec(r.second.chromosome); }
        for (const Chrom& c : { x, y })
        {
            CHECK(is_perm(c) && c.size() == n, "children", "crossover Edge: a child is not a permutation: %s; parents %s %s", show(c).c_str(), show(a).c_str(), show(b).c_str());
            for (size_t i = 1; i < n; i++) { kept += has(a, c[i], c[i - 1]) || has(b, c[i], c[i - 1]); all++; }
        }
    }
    CHECK(kept >= 0.8 * all, "distribution", "crossover Edge: only %g of the %g edges of the children of random parents of length %zu are present in a parent", kept, all, n);
    PROBE("edges of the children counted");
}

template<typename P> void any_gene(Ctx& ctx)
{
    namespace cx = crossover::dtl; Prng& p = ctx.rng; size_t n = (size_t)p.range(2, 14);
    auto perm = [&] { Chrom c(n); std::iota(c.begin(), c.end(), 0.0); for (size_t i = n; i > 1; i--) std::swap(c[i - 1], c[p.below(i)]); return c; };
    auto other = [](const Chrom& c) { Chrom r; for (double g : c) r.push_back(3 * g - 7); return r; };
    for (int k = 0; k < 6; k++)
    {
        Chrom a = perm(), b = perm(); auto f = (size_t)p.range(0, (int)n - 1), l = (size_t)p.range((int)f + 1, (int)n); if (f == 0 && l == n) l--;
        std::vector<size_t> idx; for (size_t i = 0; i < n; i++) if (p.chance(0.4)) idx.push_back(i);
        auto run = [&](auto* t, const Chrom& a, const Chrom& b)
        {
            using G = std::remove_pointer_t<decltype(t)>; std::vector<Chrom> r;
            auto ca = evaluated<G>(a, 1), cb = evaluated<G>(b, 2);
            if constexpr (requires { cx::order1CrossoverImpl(ca, cb, f, l); }) r.push_back(vec(cx::order1CrossoverImpl(ca, cb, f, l).chromosome));
            if constexpr (requires { cx::order2CrossoverImpl(ca, cb, f, l); }) r.push_back(vec(cx::order2CrossoverImpl(ca, cb, f, l).chromosome));
            if constexpr (requires { cx::pmxCrossoverImpl(ca, cb, f, l); }) r.push_back(vec(cx::pmxCrossoverImpl(ca, cb, f, l).chromosome));
            if constexpr (requires { cx::positionCrossoverImpl(ca, cb, std::span<const size_t>(idx)); }) r.push_back(vec(cx::positionCrossoverImpl(ca, cb, std::span<const size_t>(idx)).chromosome));
            if constexpr (requires { cx::cycleCrossoverImpl(ca, cb); }) { auto pr = cx::cycleCrossoverImpl(ca, cb); r.push_back(vec(pr.first.chromosome)); r.push_back(vec(pr.second.chromosome)); }
            return r;
        };
        auto u = run((size_t*)nullptr, a, b), v = run((int*)nullptr, other(a), other(b));
        CHECK(u.size() == v.size(), "children", "the operators exist for one type of genes only");
        for (size_t i = 0; i < u.size(); i++)
            CHECK(other(u[i]) == v[i], "children", "permutation crossover %zu (of order 1, order 2, PMX, position, cycle): parents %s %s, range [%zu, %zu): the child %s for unsigned genes corresponds to %s for other genes", i, show(a).c_str(), show(b).c_str(), f, l, show(u[i]).c_str(), show(v[i]).c_str());
    }
    PROBE("children compared for two types of genes");
}

// --- C28: where runs start ------------------------------------------------------------------------------------------------

// Values that should be independent and uniform on [0, 1).
void even(const std::vector<double>& u, const std::string& what)
{
    double n = (double)u.size(); if (n < 100) return;
    double m = 0, q = 0, lag = 0; std::vector<double> bin(16);
    for (size_t i = 0; i < u.size(); i++) { m += u[i]; q += u[i] * u[i]; if (i) lag += (u[i] - 0.5) * (u[i - 1] - 0.5); bin[(size_t)clampd(std::floor(u[i] * 16), 0, 15)]++; }
    CHECK(std::abs(m / n - 0.5) <= 8 * std::sqrt(1 / (12 * n)), "not-uniform", "%s: the mean position in the range is %.6g for %g candidates, expected 0.5", what.c_str(), m / n, n);
    CHECK(std::abs(q / n - 1.0 / 3) <= 8 * std::sqrt(4 / (45 * n)), "not-uniform", "%s: the mean square of the position in the range is %.6g for %g candidates, expected 1/3", what.c_str(), q / n, n);
    CHECK(std::abs(lag / n) <= 8.0 / 12 / std::sqrt(n), "not-independent", "%s: the values of consecutive candidates are correlated (%.4g) over %g candidates", what.c_str(), 12 * lag / n, n);
    for (size_t i = 0; i < 16; i++) CHECK(std::abs(bin[i] - n / 16) <= 8 * std::sqrt(n * 15 / 256) + 8, "not-uniform", "%s: %g of %g candidates are in the sixteenth %zu of the range", what.c_str(), bin[i], n, i);
}
void chi_even(const std::map<Chrom, double>& got, double bins, double n, const std::string& what)
{
    double e = n / bins; if (e < 8 || bins < 2) return;
    double x = (bins - (double)got.size()) * e; for (auto& [c, k] : got) x += (k - e) * (k - e) / e;
    double k = bins - 1, z = (std::cbrt(x / k) - (1 - 2 / (9 * k))) / std::sqrt(2 / (9 * k));
    CHECK((double)got.size() <= bins && z < 9, "not-uniform", "%s: %zu of %g possibilities among %g candidates, chi-square %.1f", what.c_str(), got.size(), bins, n, x);
}

template<typename T> void starts(Ctx& ctx)
{
    Prng& p = ctx.rng; constexpr Enc e = Enc_<T>::e;
    size_t th = random_threads(p), callers = p.chance(0.7) ? 1 : (size_t)p.range(2, 3), N = (size_t)p.range(300, ctx.thorough ? 4000 : 1500);
    struct Job { size_t len, given, runs; std::vector<double> lb, ub; std::vector<Chrom> init; uint64_t fseed; };
    std::vector<Job> jobs;
    {
        NoSim _;
        for (size_t k = 0; k < callers; k++)
        {
            Job j; j.len = (size_t)p.range(1, 7); j.given = p.chance(0.5) ? 0 : p.below(40); j.runs = p.chance(0.3) ? 2 : 1; j.fseed = p.next();
            random_bounds(p, e, j.len, j.lb, j.ub, false);
            if (e == INT && p.chance(0.3)) j.ub[0] = j.lb[0] + (double)p.below(60);
            if (e == REAL && p.chance(0.3)) { j.lb[0] = -p.real(1, 1e9); j.ub[0] = p.real(1, 1e9); }
            for (size_t i = 0; i < j.given; i++)
            {
                Chrom c; for (size_t g = 0; g < j.len; g++) c.push_back(e == PERM ? (double)g : e == INT || e == BIN ? (double)p.range((int)j.lb[g], (int)j.ub[g]) : p.chance(0.2) ? j.lb[g] : j.lb[g] + p.real(0, 1) * (j.ub[g] - j.lb[g]));
                if (e == REAL) for (size_t g = 0; g < j.len; g++) c[g] = clampd(c[g], j.lb[g], j.ub[g]);
                if (e == PERM) for (size_t g = j.len; g > 1; g--) std::swap(c[g - 1], c[p.below(g)]);
                j.init.push_back(c);
            }
            jobs.push_back(j);
        }
        workload("threads=" + std::to_string(th) + " callers=" + std::to_string(callers) + " population=" + std::to_string(N) + " encoding " + std::to_string((int)e) + " length=" + std::to_string(jobs[0].len));
    }
    set_threads(th); rng::prng.seed(p.next());
    auto work = [&](const Job& j)
    {
        typename Enc_<T>::GA ga(N);
        std::vector<Chrom> all;
        for (size_t r = 0; r < j.runs; r++)
        {
            Population<T> init; for (auto& c : j.init) { Candidate<T> x; for (double g : c) x.chromosome.push_back((T)g); init.push_back(std::move(x)); }
            Fn<T> f(j.len, j.fseed, 1);
            if constexpr (is_bounded<T>) { BoundsVector<T> b; for (size_t i = 0; i < j.len; i++) b.push_back({ (T)j.lb[i], (T)j.ub[i] }); ga.solve(f, b, 1, std::move(init)); }
            else ga.solve(f, 1, std::move(init));
            NoSim _;
            CHECK(ga.population().size() == N, "initial-population", "the initial population has %zu candidates, expected %zu", ga.population().size(), N);
            for (size_t i = 0; i < N; i++)
            {
                Chrom c = vec<T>(ga.population()[i].chromosome);
                if (i < j.given) CHECK(c == j.init[i], "initial-population", "candidate %zu of the given initial population was replaced by %s", i, show(c).c_str()); else all.push_back(std::move(c));
            }
        }
        NoSim _;
        double n = (double)all.size(); size_t len = j.len;
        if (e == PERM)
        {
            std::map<Chrom, double> whole, prefix; double f = 1; for (size_t i = 2; i <= len; i++) f *= (double)i;
            for (auto& c : all) { CHECK(is_perm(c) && c.size() == len, "initial-population", "%s was generated", show(c).c_str()); whole[c]++; if (len > 2) prefix[Chrom{ c[0], c[len - 1] }]++; }
            chi_even(whole, f, n, "generated permutations of length " + std::to_string(len));
            if (len > 2) chi_even(prefix, (double)(len * (len - 1)), n, "first and last genes of generated permutations of length " + std::to_string(len));
            for (size_t i = 0; i < len; i++) { std::map<Chrom, double> at; for (auto& c : all) at[Chrom{ c[i] }]++; chi_even(at, (double)len, n, "gene " + std::to_string(i) + " of generated permutations of length " + std::to_string(len)); }
            std::map<Chrom, double> next; for (size_t i = 1; i < all.size(); i++) next[Chrom{ all[i - 1][0], all[i][0] }]++; chi_even(next, (double)(len * len), n - 1, "first genes of consecutive permutations");
            PROBE("permutations counted");
        }
        else
        {
            for (size_t i = 0; i < len; i++)
            {
                double lo = j.lb[i], hi = j.ub[i]; char b[120]; std::snprintf(b, sizeof b, "generated genes %zu of [%.17g, %.17g]", i, lo, hi);
                if (e == REAL && lo < hi) { std::vector<double> u; for (auto& c : all) u.push_back((c[i] - lo) / (hi - lo)); even(u, b); PROBE("real genes counted"); }
                if (e != REAL)
                {
                    std::map<Chrom, double> at, next; for (size_t k = 0; k < all.size(); k++) { double g = all[k][i]; CHECK(g >= lo && g <= hi, "initial-population", "%s: %g", b, g); at[Chrom{ g }]++; if (k) next[Chrom{ all[k - 1][i], g }]++; }
                    chi_even(at, hi - lo + 1, n, b); chi_even(next, (hi - lo + 1) * (hi - lo + 1), n - 1, std::string(b) + " of consecutive candidates"); PROBE("discrete genes counted");
                }
                for (size_t k = 0; k < i; k++)
                {
                    double l2 = j.lb[k], h2 = j.ub[k]; if (!(lo < hi) || !(l2 < h2)) continue;
                    double s = 0; for (auto& c : all) s += (c[i] - (lo + hi) / 2) * (c[k] - (l2 + h2) / 2);
                    auto var = [&](double a, double z) { return e == REAL ? (z - a) * (z - a) / 12 : ((z - a + 1) * (z - a + 1) - 1) / 12; };
                    double rho = s / n / std::sqrt(var(lo, hi) * var(l2, h2));
                    CHECK(std::abs(rho) <= 8 / std::sqrt(n), "not-independent", "generated genes %zu and %zu are correlated: %.4g over %g candidates", k, i, rho, n);
                }
            }
        }
    };
    std::vector<std::thread> ts; for (size_t k = 1; k < callers; k++) ts.emplace_back([&, k] { work(jobs[k]); });
    work(jobs[0]);
    for (auto& t : ts) t.join();
    if (callers > 1) PROBE("several GAs start at once");
}

void directions(Ctx& ctx)
{
    namespace rl = algorithm::reflines; Prng& p = ctx.rng;
    static const struct { rl::RefLineGenerator f; const char* name; } gens[] = { { rl::quasirandomSimplexPointsMirror, "Mirror" }, { rl::quasirandomSimplexPointsSort, "Sort" }, { rl::quasirandomSimplexPointsRoot, "Root" }, { rl::quasirandomSimplexPointsLog, "Log" } };
    const auto& g = gens[p.below(4)]; size_t d = (size_t)p.range(1, 7), n = p.chance(0.3) ? (size_t)p.range(1, 12) : (size_t)p.range(100, ctx.thorough ? 3000 : 1000);
    bool sparse = p.chance(0.4); size_t k = (size_t)p.range(1, 12); if (sparse) n = (size_t)p.range(1, 60);
    workload(std::string(g.name) + " dimensions=" + std::to_string(d) + " points=" + std::to_string(n) + (sparse ? " sparse subset of " + std::to_string(k) + " times as many" : ""));
    auto check = [&](const FitnessMatrix& m, size_t n)
    {
        CHECK(m.nrows() == n && m.ncols() == d, "directions", "%s: %zu x %zu values, expected %zu points in %zu dimensions", g.name, m.nrows(), m.ncols(), n, d);
        for (size_t i = 0; i < n; i++)
        {
            double s = 0; for (double x : m[i]) { CHECK(x >= 0 && x <= 1 + 1e-12, "directions", "%s: point %zu has the coordinate %.17g", g.name, i, x); s += x; }
            CHECK(std::abs(s - 1) <= 1e-9, "directions", "%s: the coordinates of point %zu add up to %.17g", g.name, i, s);
        }
    };
    auto full = g.f(d, sparse ? n * k : n);
    NoSim _;
    check(full, sparse ? n * k : n);
    { auto again = g.f(d, full.nrows()); CHECK(again == full, "directions", "%s: a second call gives other points", g.name); }
    if (!sparse && n >= 100)
    {
        double D = (double)d, m = (double)n; std::vector<double> mean(d), sq(d), cross(d);
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < d; j++) { mean[j] += full[i][j]; sq[j] += full[i][j] * full[i][j]; cross[j] += full[i][j] * full[i][(j + 1) % d]; }
        double worst = 0;
        for (size_t j = 0; j < d; j++)
        {
            worst = std::max(worst, std::abs(mean[j] / m - 1 / D) * m); worst = std::max(worst, std::abs(sq[j] / m - (2 / (D * (D + 1)))) * m);
            if (d > 1) worst = std::max(worst, std::abs(cross[j] / m - 1 / (D * (D + 1))) * m);
        }
        double tol = 3 + 0.5 * std::sqrt(m) + (g.f == rl::quasirandomSimplexPointsMirror && d > 4 ? 0.025 * m : 0);   // mirroring is only roughly even in more than four dimensions
        CHECK(worst <= tol, "directions", "%s: %zu points in %zu dimensions are not spread evenly over the simplex: a sum of coordinates or of their products is off by %.4g (at most %.4g is expected)", g.name, n, d, worst, tol);
        PROBE("moments of reference directions");
    }
    if (sparse)
    {
        auto sub = rl::pickSparseSubset(d, n, g.f, k); check(sub, n);
        auto dist = [&](size_t i, auto row) { double s = 0; for (size_t j = 0; j < d; j++) s += (sub[i][j] - row[j]) * (sub[i][j] - row[j]); return s; };
        double sep = HUGE_VAL, cover = 0;
        std::vector<char> used(full.nrows());
        for (size_t i = 0; i < n; i++)
        {
            size_t at = full.nrows(); for (size_t c = 0; c < full.nrows(); c++) if (!used[c] && full[c] == sub[i]) { at = c; break; }
            CHECK(at < full.nrows(), "directions", "%s: point %zu of the subset isn't one of the generated points, or was chosen twice", g.name, i); used[at] = 1;
            for (size_t c = 0; c < i; c++) sep = std::min(sep, dist(c, sub[i]));
        }
        for (size_t c = 0; c < full.nrows(); c++) { if (used[c]) continue; double best = HUGE_VAL; for (size_t i = 0; i < n; i++) best = std::min(best, dist(i, full[c])); cover = std::max(cover, best); }
        CHECK(sep >= cover - 1e-12, "directions", "%s: two points of a sparse subset of %zu in %zu dimensions are %.6g apart, although a point that is left out is %.6g away from all of them", g.name, n, d, std::sqrt(sep), std::sqrt(cover));
        PROBE("sparse subset of reference directions");
    }
}

template<typename R> void quasi(Ctx& ctx)
{
    Prng& p = ctx.rng; size_t d = (size_t)p.range(1, 8), n = (size_t)p.range(50, ctx.thorough ? 4000 : 1000); R seed = p.chance(0.4) ? R(0.5) : (R)p.real(0, 3);
    workload("quasi-random sequence, dimensions=" + std::to_string(d) + " points=" + std::to_string(n));
    rng::QuasiRandom<R> q(d, seed), h(d, seed), other(d); std::vector<std::vector<double>> pts;
    CHECK(q.dim() == d, "quasi-random", "dim() is %zu instead of %zu", q.dim(), d);
    for (size_t i = 0; i < n; i++)
    {
        auto x = q(); NoSim _; CHECK(x.size() == d, "quasi-random", "a point has %zu coordinates instead of %zu", x.size(), d);
        pts.emplace_back(x.begin(), x.end()); for (double v : pts.back()) CHECK(v >= 0 && v < 1, "quasi-random", "coordinate %.17g of point %zu", v, i);
    }
    NoSim _;
    for (int r = 0; r < 4; r++)
    {
        size_t at = p.below(n), from = p.below(at + 1);
        if (r == 0) { } else if (r == 1) { other.discard(p.below(9)); other.reset(seed); } else { h.reset(seed); }
        auto& z = r == 1 ? other : h;
        for (size_t i = 0; i < from; i++) (void)z();
        if (at > from + 1 || p.chance(0.5)) z.discard(at - from); else for (size_t i = from; i < at; i++) z.discard();
        auto x = z(); bool same = x.size() == d; for (size_t j = 0; same && j < d; j++) { double e = std::abs((double)x[j] - pts[at][j]); same = std::min(e, 1 - e) <= (sizeof(R) == 4 ? 1e-3 : 1e-9); }
        CHECK(same, "quasi-random", "after discarding points or a reset, point %zu of the sequence differs", at);
    }
    double worst = 0;
    for (int r = 0; r < 20; r++)
    {
        std::vector<double> lo(d), hi(d); double vol = 1; for (size_t j = 0; j < d; j++) { lo[j] = p.chance(0.5) ? 0 : p.real(0, 0.5); hi[j] = p.real(lo[j] + 0.2, 1); vol *= hi[j] - lo[j]; }
        double in = 0; for (auto& x : pts) { bool ok = true; for (size_t j = 0; ok && j < d; j++) ok = x[j] >= lo[j] && x[j] < hi[j]; in += ok; }
        worst = std::max(worst, std::abs(in - vol * (double)n));
    }
    double tol = 8 + 2.2 * std::sqrt((double)n);
    CHECK(worst <= tol, "quasi-random", "%zu points in %zu dimensions do not cover the unit cube evenly: the number of points in a box is off by %.4g (at most %.4g is expected)", n, d, worst, tol);
    PROBE("points of a quasi-random sequence in boxes");
}

template<typename F> void pick(Ctx& c, F f)
{
    switch (c.rng.below(4)) { case 0: f((BinaryGene*)nullptr); break; case 1: f((IntegerGene*)nullptr); break; case 2: f((PermutationGene*)nullptr); break; default: f((RealGene*)nullptr); }
}

void setup_ext(Ctx& c) { static const double ps[] = { 0, 0.01, 0.1, 0.4 }; c.cfg.p_rng = ps[c.rng.below(4)]; c.cfg.race = 0; c.cfg.mem_period = 0; }
void setup_stat(Ctx& c) { c.cfg.p_rng = 0; c.cfg.race = 0; c.cfg.mem_period = 0; }

SCENARIO(C26, forms, 5, false, setup_ext, "runs with spies around the operators: every child against what its parents and the operator permit, with extreme generator outputs") { pick(ctx, [&](auto* t) { forms<std::remove_pointer_t<decltype(t)>>(ctx); }); }
SCENARIO(C26, crossover_rates, 2, false, setup_stat, "an operator applied many times in parallel in a generation of a run: frequencies against the documented probabilities") { pick(ctx, [&](auto* t) { rates<std::remove_pointer_t<decltype(t)>>(ctx, true); }); }
SCENARIO(C26, mutation_rates, 2, false, setup_stat, "as crossover_rates for mutations") { pick(ctx, [&](auto* t) { rates<std::remove_pointer_t<decltype(t)>>(ctx, false); }); }
SCENARIO(C26, user_rates, 1, false, setup_stat, "how often user supplied operators are called, against the rates set for them") { pick(ctx, [&](auto* t) { user_rates<std::remove_pointer_t<decltype(t)>>(ctx); }); }
SCENARIO(C26, edges, 0.5, false, setup_stat, "the edge crossover applied to random parents: how many edges of the children come from a parent") { edges(ctx); }
SCENARIO(C26, gene_types, 0.5, false, setup_stat, "permutation crossovers of chromosomes whose genes are not unsigned integers, against those of corresponding unsigned ones") { any_gene<int>(ctx); }

SCENARIO(C28, populations, 3, false, setup_stat, "runs with large populations: the generated candidates of the first generation are independent and uniform, given ones are kept") { pick(ctx, [&](auto* t) { starts<std::remove_pointer_t<decltype(t)>>(ctx); }); }
SCENARIO(C28, directions, 1, false, setup_stat, "reference directions of NSGA-III: on the simplex, evenly spread, sparse subsets well separated") { directions(ctx); }
SCENARIO(C28, quasi_random, 0.5, false, setup_stat, "quasi-random sequences: even coverage of boxes, discarding and restarting") { if (ctx.rng.chance(0.7)) quasi<double>(ctx); else quasi<float>(ctx); }

} // namespace
