// C08, C22, C24: random number generation.
#include "harness.hpp"
#include <utility/rng.hpp>
#include <utility/thread_pool.hpp>
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <memory>
#include <map>
#include <algorithm>
#include <limits>
#include <cmath>
#include <numeric>
#include <span>

using namespace gapp;

namespace {

// a thread that executes closures handed to it, one at a time
struct Actor
{
    std::mutex m; std::condition_variable cv; std::function<void()> job; bool busy = false, stop = false; std::thread th;
    Actor() : th([this] { loop(); }) {}
    void loop()
    {
        while (true)
        {
            std::function<void()> f;
            { std::unique_lock l(m); cv.wait(l, [&] { return job || stop; }); if (!job) return; f = std::move(job); job = nullptr; }
            f();
            { std::unique_lock l(m); busy = false; cv.notify_all(); }
        }
    }
    void post(std::function<void()> f) { std::unique_lock l(m); job = std::move(f); busy = true; cv.notify_all(); }
    void wait() { std::unique_lock l(m); cv.wait(l, [&] { return !busy; }); }
    void run(std::function<void()> f) { post(std::move(f)); wait(); }
    ~Actor() { { std::unique_lock l(m); stop = true; cv.notify_all(); } th.join(); }
};

void setup_rng(Ctx& c) { c.cfg.race = c.rng.chance(0.7); c.cfg.p_rng = 0; }

// Draws a mixed sequence through the helpers, including the ones with internal state.
struct Seq { std::vector<uint64_t> v; void d(double x) { uint64_t u; std::memcpy(&u, &x, 8); v.push_back(u); } };
void draw_mixed(uint64_t script, int n, Seq& s)
{
    Prng q(script);
    for (int i = 0; i < n; i++)
    {
        switch (q.below(9))
        {
        case 0: s.v.push_back(rng::prng()); break;
        case 1: { int k = q.range(1, 9); for (int j = 0; j < k; j++) s.v.push_back(rng::randomBool()); break; }
        case 2: s.d(rng::randomNormal(0.0, 1.0)); break;
        case 3: s.v.push_back((uint64_t)rng::randomPoisson<int>(q.chance(0.5) ? 2.5 : q.real(0.5, 30.0))); break;
        case 4: s.v.push_back((uint64_t)rng::randomBinomial<int>(q.range(1, 100), q.real())); break;
        case 5: s.d(rng::randomReal()); break;
        case 6: s.v.push_back((uint64_t)rng::randomInt(-5, 1000)); break;
        case 7: { auto u = rng::sampleUnique(0, 40, (size_t)q.range(1, 30)); for (int x : u) s.v.push_back((uint64_t)x); break; }
        default: { std::vector<double> cdf{ 0.1, 0.4, 0.9, 1.0 }; s.v.push_back(rng::sampleCdf(std::span<const double>(cdf))); break; }
        }
    }
}

SCENARIO(C08, reseed, 3, false, setup_rng, "live threads drawn from in a known order, exits and new threads in between: after seed(s) the k-th live thread repeats the same sequence")
{
    Prng& p = ctx.rng;
    uint64_t seed = p.next(), script = p.next();
    int rounds = p.range(2, 4), n = p.range(3, 12);
    bool main_first = p.chance(0.5), main_draws = p.chance(0.7);
    std::vector<std::unique_ptr<Actor>> live;       // in order of first use
    int main_pos = -1;
    std::map<int, Seq> expect;
    if (main_draws && main_first) { (void)rng::prng(); main_pos = 0; }
    auto add = [&] { live.push_back(std::make_unique<Actor>()); live.back()->run([] { if (sim_tid() % 2) (void)rng::prng(); else (void)rng::randomBool(); }); };
    int target = p.range(1, 4);
    for (int i = 0; i < target; i++) { if (main_draws && main_pos < 0 && p.chance(0.3)) { (void)rng::prng(); main_pos = (int)live.size(); } add(); }
    for (int r = 0; r < rounds; r++)
    {
        // arbitrary history before the seed: partial use of the stateful helpers
        for (auto& a : live) if (p.chance(0.7)) { uint64_t sc = p.next(); a->run([sc] { Seq s; draw_mixed(sc, 3, s); }); }
        if (main_pos >= 0 && p.chance(0.5)) { Seq s; draw_mixed(p.next(), 3, s); }
        if (r && p.chance(0.7) && !live.empty())
        {
            size_t k = p.below(live.size()); live.erase(live.begin() + (long)k);
            if (main_pos > (int)k) main_pos--;
            PROBE("a registered thread exited");
            if (p.chance(0.7)) { add(); PROBE("a new thread registered"); }
        }
        rng::prng.seed(seed);
        std::vector<Seq> got(live.size()); Seq gm;
        bool parallel = p.chance(0.5);
        for (size_t i = 0; i < live.size(); i++)
        {
            int pos = (int)i + (main_pos >= 0 && main_pos <= (int)i);
            auto f = [&got, i, n, s2 = script + (uint64_t)pos] { draw_mixed(s2, n, got[i]); };
            if (parallel) live[i]->post(f); else live[i]->run(f);
        }
        if (main_pos >= 0) draw_mixed(script + (uint64_t)main_pos, n, gm);
        for (auto& a : live) a->wait();
        auto cmp = [&](int pos, const Seq& s)
        {
            NoSim _;
            auto it = expect.find(pos);
            if (it == expect.end()) { expect[pos] = s; return; }
            PROBE("sequence compared");
            size_t len = std::min(it->second.v.size(), s.v.size());
            for (size_t j = 0; j < len; j++) if (it->second.v[j] != s.v[j]) failf("reseed-differs", "after seeding with the same value, live thread %d draws a different value at position %zu", pos, j);
            if (it->second.v.size() != s.v.size()) failf("reseed-differs", "after seeding with the same value, live thread %d draws sequences of different length", pos);
        };
        for (size_t i = 0; i < live.size(); i++) cmp((int)i + (main_pos >= 0 && main_pos <= (int)i), got[i]);
        if (main_pos >= 0) cmp(main_pos, gm);
    }
}

SCENARIO(C08, exits, 2, false, setup_rng, "threads that have finished drawing exit while another thread seeds the generator: the remaining threads still repeat the same sequences")
{
    Prng& p = ctx.rng;
    uint64_t seed = p.next(), script = p.next();
    (void)rng::prng(); // the seeding thread is registered first
    std::unique_ptr<Actor> stay; if (p.chance(0.5)) { stay = std::make_unique<Actor>(); stay->run([] { (void)rng::randomBool(); }); }
    std::vector<Seq> expect(2); bool have = false;
    int rounds = p.range(2, 5);
    for (int r = 0; r < rounds; r++)
    {
        int k = p.range(1, 3), m = p.range(1, 3);
        std::atomic<int> drawn{ 0 }; std::atomic<bool> go{ false };
        std::vector<std::thread> ts;
        for (int i = 0; i < k; i++) { int h = p.range(0, 3); ts.emplace_back([&, h, s = p.next()] { Seq q; draw_mixed(s, h + 1, q); drawn.fetch_add(1); while (!go.load()) sim_yield(); }); }
        while (drawn.load() != k) sim_yield();
        go.store(true); // from here on the threads only exit
        for (int i = 0; i < m; i++) rng::prng.seed(seed + (uint64_t)i + 1);
        rng::prng.seed(seed);
        std::vector<Seq> got(2);
        if (p.chance(0.3)) { for (auto& t : ts) t.join(); ts.clear(); }
        draw_mixed(script, 4, got[0]);
        if (stay) stay->run([&] { draw_mixed(script + 1, 4, got[1]); });
        for (auto& t : ts) t.join();
        NoSim _;
        for (int i = 0; i < 2; i++) if (have && got[(size_t)i].v != expect[(size_t)i].v) failf("reseed-differs", "after seeding with the same value while other threads were exiting, live thread %d draws different values", i);
        if (have) PROBE("sequence compared after concurrent exits");
        expect = std::move(got); have = true;
    }
}

struct Draws { std::vector<uint64_t> v; uint64_t from, to; };
SCENARIO(C08, streams, 3, false, setup_rng, "threads start, draw and exit at any time: no two threads alive together draw common values")
{
    Prng& p = ctx.rng;
    std::vector<std::unique_ptr<Draws>> all;
    if (p.chance(0.6)) rng::prng.seed(p.next());
    auto draw = [&all](int n, bool yield, int helper)
    {
        Draws* d; { NoSim _; all.push_back(std::make_unique<Draws>()); d = all.back().get(); d->v.reserve((size_t)n); d->from = sim_seq(); }
        for (int i = 0; i < n; i++)
        {
            uint64_t x = rng::prng();
            { NoSim _; d->v.push_back(x); }
            if (helper == 1) (void)rng::randomBool();
            if (helper == 2) (void)rng::randomNormal(0.0, 1.0);
            if (yield && i % 3 == 0) sim_yield();
        }
        NoSim _; d->to = sim_seq();
    };
    int waves = p.range(1, 4); bool yield = p.chance(0.5);
    if (p.chance(0.4)) execution_threads((size_t)p.range(2, 4));
    for (int w = 0; w < waves; w++)
    {
        int k = p.range(1, 4);
        std::vector<std::thread> ts;
        for (int i = 0; i < k; i++) { int n = p.range(1, 40), h = p.range(0, 2); ts.emplace_back([&draw, n, h, yield] { draw(n, yield, h); }); }
        if (p.chance(0.5)) draw(p.range(1, 40), yield, 0);
        if (p.chance(0.3)) { int n = p.range(1, 20); detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator((size_t)p.range(2, 8)), [&](size_t) { draw(n, false, 0); }); }
        for (auto& t : ts) t.join();
        if (p.chance(0.3)) rng::prng.seed(p.next());
    }
    NoSim _;
    std::map<uint64_t, std::pair<const Draws*, size_t>> seen;
    uint64_t total = 0;
    for (auto& d : all) for (size_t i = 0; i < d->v.size(); i++)
    {
        total++;
        auto [it, ok] = seen.emplace(d->v[i], std::pair{ d.get(), i });
        if (!ok)
        {
            const Draws* o = it->second.first;
            if (o != d.get() && o->from < d->to && d->from < o->to) failf("overlapping-streams", "value %016llx was drawn by two threads that were alive at the same time", (unsigned long long)d->v[i]);
            if (o == d.get()) failf("overlapping-streams", "value %016llx was drawn twice by one thread", (unsigned long long)d->v[i]);
        }
    }
    if (total > 100) PROBE("more than 100 draws");
}

SCENARIO(C08, long_streams, 0.3, false, setup_rng, "as streams with thousands of draws per thread, which finds streams that start close to each other")
{
    Prng& p = ctx.rng;
    ctx.cfg.race = 0;
    int k = p.range(2, 5); size_t n = (size_t)p.range(2000, 6000);
    std::vector<std::vector<uint64_t>> v((size_t)k);
    for (auto& x : v) x.resize(n);
    rng::prng.seed(p.next());
    {
        std::vector<std::thread> ts;
        for (int i = 0; i < k; i++) ts.emplace_back([&, i] { for (auto& x : v[(size_t)i]) x = rng::prng(); });
        for (auto& t : ts) t.join();
    }
    NoSim _;
    std::vector<uint64_t> a; for (auto& x : v) a.insert(a.end(), x.begin(), x.end());
    std::sort(a.begin(), a.end());
    if (std::adjacent_find(a.begin(), a.end()) != a.end()) failf("overlapping-streams", "%d threads drew a common value within %zu draws each", k, n);
}

// ---------------------------------------------------------------- C22
void setup_ext(Ctx& c) { static const double ps[] = { 0.02, 0.1, 0.3, 0.5, 0.6 }; c.cfg.p_rng = ps[c.rng.below(5)]; c.cfg.strategy = SIM_S_DEFAULT; c.cfg.mem_period = 0; }
void setup_ext_mt(Ctx& c) { setup_ext(c); c.cfg.strategy = SIM_S_RANDOM; }

double interesting(Prng& p)
{
    static const double t[] = { 0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, -1e-300, 5e-324, 1e10, -1e10, 1e300, -1e300, 3.0, 100.0, 1e-12, 0.1, 1.0 / 3 };
    return p.chance(0.6) ? t[p.below(17)] : p.real(-1000, 1000);
}
template<typename T> void check_real(Prng& p)
{
    T a, b;
    int m = (int)p.below(3);
    if (m == 0) { a = (T)interesting(p); b = (T)interesting(p); if (!std::isfinite(a)) a = 0; if (!std::isfinite(b)) b = 1; if (a > b) std::swap(a, b); }
    else { a = (T)interesting(p); if (!std::isfinite(a)) a = 0; b = a; int k = p.range(1, 20); for (int i = 0; i < k; i++) b = std::nextafter(b, std::numeric_limits<T>::max()); if (m == 2) b = b + std::abs(b) * (T)p.real(); }
    for (int i = 0; i < 20; i++)
    {
        T x = rng::randomReal<T>(a, b);
        CHECK(a == b ? x == a : (a <= x && x < b), "real-out-of-range", "randomReal<%s>(%.17g, %.17g) = %.17g is not in the half-open interval", sizeof(T) == 4 ? "float" : "double", (double)a, (double)b, (double)x);
        T u = rng::randomReal<T>();
        CHECK(0 <= u && u < 1, "real-out-of-range", "randomReal<%s>() = %.17g is not in [0, 1)", sizeof(T) == 4 ? "float" : "double", (double)u);
    }
}
template<typename T> T any_int(Prng& p)
{
    switch (p.below(5)) { case 0: return std::numeric_limits<T>::min(); case 1: return std::numeric_limits<T>::max(); case 2: return (T)(std::numeric_limits<T>::max() - (T)p.below(5)); case 3: return (T)p.below(10); default: return (T)p.next(); }
}
template<typename T> void check_int(Prng& p)
{
    T a = any_int<T>(p), b = any_int<T>(p); if (a > b) std::swap(a, b);
    if (p.chance(0.3)) b = a;
    for (int i = 0; i < 20; i++)
    {
        T x = (T)rng::randomInt<T>(a, b);
        CHECK(a <= x && x <= b, "int-out-of-range", "randomInt(%lld, %lld) = %lld", (long long)a, (long long)b, (long long)x);
    }
}
template<typename T> void check_binomial(Prng& p)
{
    static const int ns[] = { 0, 1, 2, 5, 6, 7, 20, 49, 50, 51, 52, 100, 127 };
    static const double pr[] = { 0.0, 1.0, 1e-300, 1e-9, 0.01, 0.1, 0.19, 0.2, 0.5, 0.9, 0.999999, 0.9999999999999999 };
    T n = (T)ns[p.below(13)]; double q = pr[p.below(12)];
    if (sizeof(T) > 1 && p.chance(0.2)) n = (T)p.range(1000, 30000);
    for (int i = 0; i < 6; i++)
    {
        T x = rng::randomBinomial<T>(n, q);
        CHECK(0 <= x && x <= n, "binomial-out-of-range", "randomBinomial(%lld, %.17g) = %lld", (long long)n, q, (long long)x);
    }
}
template<typename T> void check_unique(Prng& p, bool huge)
{
    using U = std::make_unsigned_t<T>;
    T lo; uint64_t len; uint64_t maxlen = (uint64_t)std::numeric_limits<U>::max();
    if (huge) len = std::min<uint64_t>(65536 + p.below(p.chance(0.5) ? 10 : 100000), maxlen); else { static const int ls[] = { 0, 1, 2, 3, 5, 10, 63, 64, 65, 128, 200 }; len = (uint64_t)ls[p.below(11)]; if (sizeof(T) > 1 && p.chance(0.15)) len = 1000 + p.below(64000); }
    len = std::min(len, maxlen);
    switch (p.below(3)) { case 0: lo = std::numeric_limits<T>::min(); break; case 1: lo = (T)((U)std::numeric_limits<T>::max() - (U)len); break; default: lo = (uint64_t)std::numeric_limits<T>::max() >= len ? 0 : std::numeric_limits<T>::min(); }
    T hi = (T)((U)lo + (U)len);
    uint64_t count = p.chance(0.2) ? len : p.chance(0.1) ? 0 : p.below(std::min<uint64_t>(len, p.chance(0.5) ? 12 : len) + 1);
    if (count > 3000) count = huge ? 3000 : count;
    auto v = rng::sampleUnique<T>(lo, hi, (size_t)count);
    NoSim _;
    if (v.size() != count) failf("unique-wrong-count", "sampleUnique(%lld, %lld, %llu) returned %zu values", (long long)lo, (long long)hi, (unsigned long long)count, v.size());
    std::vector<T> s(v.begin(), v.end()); std::sort(s.begin(), s.end());
    for (T x : s) if (x < lo || x >= hi) failf("unique-out-of-range", "sampleUnique(%lld, %lld, %llu) returned %lld", (long long)lo, (long long)hi, (unsigned long long)count, (long long)x);
    auto d = std::adjacent_find(s.begin(), s.end());
    if (d != s.end()) failf("unique-duplicate", "sampleUnique(%lld, %lld, %llu) returned %lld twice", (long long)lo, (long long)hi, (unsigned long long)count, (long long)*d);
    if (huge) PROBE("huge range sampled"); if (count * 10 >= len * 6 && count > 2) PROBE("most of a range sampled");
}
template<typename R> void check_cdf(Prng& p)
{
    int n = p.chance(0.3) ? p.range(20, 300) : p.range(1, 8); std::vector<R> c; R s = 0;
    for (int i = 0; i < n; i++) { s += p.chance(0.3) ? (R)0 : (R)p.real(); c.push_back(s); }
    if (p.chance(0.5) && s > 0) for (auto& x : c) x /= s;
    if (p.chance(0.2)) c.back() = std::nextafter(c.back(), std::numeric_limits<R>::max());
    for (int i = 0; i < 12; i++)
    {
        size_t k = rng::sampleCdf(std::span<const R>(c));
        CHECK(k < c.size(), "cdf-index-out-of-range", "sampleCdf of %zu values returned index %zu", c.size(), k);
    }
}
void helpers(Prng& p)
{
    int n = p.range(4, 10);
    for (int i = 0; i < n; i++)
    {
        switch (p.below(12))
        {
        case 0: check_real<double>(p); break;
        case 1: check_real<float>(p); break;
        case 2: check_int<int>(p); check_int<uint64_t>(p); break;
        case 3: check_int<int64_t>(p); check_int<short>(p); check_int<unsigned char>(p); break;
        case 4: check_binomial<int>(p); break;
        case 5: check_binomial<long>(p); check_binomial<signed char>(p); break;
        case 6: check_unique<int>(p, false); check_unique<size_t>(p, false); break;
        case 7: check_unique<signed char>(p, false); check_unique<unsigned char>(p, false); check_unique<long>(p, false); break;
        case 8: check_unique<int>(p, true); break;
        case 9: check_unique<size_t>(p, p.chance(0.5)); break;
        case 10: check_cdf<double>(p); check_cdf<float>(p); break;
        default:
        {
            std::vector<int> r((size_t)p.range(1, 9));
            for (int k = 0; k < 10; k++)
            {
                auto ix = rng::randomIndex(r); CHECK(ix < r.size(), "index-out-of-range", "randomIndex of a range of %zu elements returned %zu", r.size(), (size_t)ix);
                auto it = rng::randomElement(r.begin(), r.end()); CHECK(it >= r.begin() && it < r.end(), "index-out-of-range", "randomElement returned an iterator outside of the range");
            }
            double m = interesting(p), sd = std::abs(interesting(p)); double x = rng::randomNormal(m, sd);
            CHECK(!std::isnan(x), "normal-nan", "randomNormal(%g, %g) is not a number", m, sd);
            int po = rng::randomPoisson<int>(p.chance(0.5) ? p.real(0.01, 11) : p.real(12, 500)); CHECK(po >= 0, "poisson-negative", "randomPoisson returned %d", po);
        }
        }
    }
}
SCENARIO(C22, extremes, 4, false, setup_ext, "every helper with boundary arguments while generator outputs are replaced by extreme ones") { helpers(ctx.rng); }
SCENARIO(C22, threads, 1, false, setup_ext_mt, "as extremes, on several threads at once")
{
    std::vector<std::thread> ts; int n = ctx.rng.range(2, 3);
    for (int i = 0; i < n; i++) { uint64_t s = ctx.rng.next(); ts.emplace_back([s] { Prng q(s); helpers(q); }); }
    for (auto& t : ts) t.join();
}
void setup_plain(Ctx& c) { c.cfg.strategy = SIM_S_DEFAULT; c.cfg.mem_period = 0; }
SCENARIO(C22, coverage, 1, false, setup_plain, "every value of a small range is produced within a bounded number of draws")
{
    Prng& p = ctx.rng;
    rng::prng.seed(p.next());
    int lo = p.range(-4, 4), k = p.range(1, 6), hi = lo + k - 1;
    std::vector<int> c1((size_t)k), c2((size_t)k), c3((size_t)k), c4((size_t)k), c5((size_t)k); int b[2] = { 0, 0 };
    std::vector<int> el((size_t)k); std::vector<double> cdf; for (int i = 0; i < k; i++) cdf.push_back((i + 1.0) / k);
    size_t cnt = (size_t)p.range(1, k);
    for (int i = 0; i < 700; i++)
    {
        c1[(size_t)(rng::randomInt(lo, hi) - lo)]++;
        c2[rng::randomIndex(el)]++;
        c3[(size_t)(rng::randomElement(el.begin(), el.end()) - el.begin())]++;
        c4[rng::sampleCdf(std::span<const double>(cdf))]++;
        for (int x : rng::sampleUnique(lo, hi + 1, cnt)) c5[(size_t)(x - lo)]++;
        b[rng::randomBool()]++;
    }
    for (int i = 0; i < k; i++)
        CHECK(c1[(size_t)i] && c2[(size_t)i] && c3[(size_t)i] && c4[(size_t)i] && c5[(size_t)i], "value-never-produced", "value %d of a range of %d values was not produced in 700 draws (int %d, index %d, element %d, cdf %d, unique %d)", i, k, c1[(size_t)i], c2[(size_t)i], c3[(size_t)i], c4[(size_t)i], c5[(size_t)i]);
    CHECK(b[0] && b[1], "value-never-produced", "randomBool never returned %s", b[0] ? "true" : "false");
}

// ---------------------------------------------------------------- distributions
// Draws of all threads together; every test is a bound of 8 standard deviations.
struct Sample
{
    std::string what; std::vector<double> x;
    double n() const { return (double)x.size(); }
    double mean(int k = 1) const { double s = 0; for (double v : x) s += std::pow(v, k); return s / n(); }
    void is(const char* q, double got, double want, double sd, double slack = 0) const
    {
        CHECK(std::abs(got - want) <= 8 * sd + slack + 1e-9 * std::abs(want), "distribution", "%s: %s is %.6g in %zu draws, expected %.6g +- %.2g", what.c_str(), q, got, x.size(), want, sd);
    }
    void freq(const char* q, double count, double p) const { is(q, count / n(), p, std::sqrt(p * (1 - p) / n()), 8 / n()); }
    // u: values that should be uniform on [0, 1)
    void uniform() const
    {
        is("the mean", mean(), 0.5, std::sqrt(1 / 12.0 / n())); is("the mean square", mean(2), 1 / 3.0, std::sqrt(4 / 45.0 / n()));
        double bin[16] = {}; for (double v : x) bin[std::min(15, (int)(v * 16))]++;
        for (int i = 0; i < 16; i++) freq("the frequency of a sixteenth of the range", bin[i], 1 / 16.0);
    }
};

SCENARIO(C24, distributions, 1, false, setup_rng, "many draws of one helper by several threads at once: moments and frequencies against the documented distribution")
{
    Prng& p = ctx.rng;
    int nt = p.range(1, 4); size_t N = p.chance(0.08) ? 40000 : 2400, per = N / (size_t)nt;
    int kind = p.range(0, 11); bool pool = p.chance(0.3); double mix = p.chance(0.5) ? 0.4 : 0; uint64_t mixseed = p.next();
    // the first draws after a seed: the generator is seeded again and again, with consecutive or unrelated seeds
    size_t reseed = p.chance(0.2) ? (size_t)p.range(1, 4) : 0; uint64_t step = p.chance(0.5) ? 1 : p.next() | 1, at = p.chance(0.3) ? 0 : p.next();
    if (reseed) { nt = 1; per = N; pool = false; }
    Sample s; char b[200] = ""; std::function<double()> draw;
    double a = 0, w = 1; int n = 0; double q = 0; int64_t lo = 0, hi = 0; std::vector<double> cdf, pmf; size_t cnt = 0; std::vector<int> el;
    {
        NoSim _;
        static const double scales[] = { 1, 1e-9, 1e6, 1e300 };
        switch (kind)
        {
        case 0: std::snprintf(b, sizeof b, "randomBool()"); break;
        case 1: lo = p.range(-10, 10); hi = lo + p.range(0, 30); std::snprintf(b, sizeof b, "randomInt(%lld, %lld)", (long long)lo, (long long)hi); break;
        case 2: lo = p.chance(0.5) ? std::numeric_limits<int64_t>::min() / 2 : 0; hi = p.chance(0.5) ? std::numeric_limits<int64_t>::max() / 2 : 0x300000000ll; std::snprintf(b, sizeof b, "randomInt(%lld, %lld)", (long long)lo, (long long)hi); break;
        case 3: if (p.chance(0.5)) { a = p.real(-5, 5) * scales[p.below(3)]; w = p.real(0.5, 3) * scales[p.below(4)]; w = std::max(w, 1e-4 * std::abs(a)); } std::snprintf(b, sizeof b, "randomReal(%g, %g)", a, a + w); break;
        case 4: std::snprintf(b, sizeof b, "randomReal()"); break;
        case 5: a = p.real(-5, 5) * scales[p.below(3)]; w = p.real(0.1, 10) * scales[p.below(3)]; w = std::max(w, 1e-4 * std::abs(a)); std::snprintf(b, sizeof b, "randomNormal(%g, %g)", a, w); break;
        case 6: a = p.chance(0.5) ? p.real(0.2, 11) : p.real(12, 300); std::snprintf(b, sizeof b, "randomPoisson(%g)", a); break;
        case 7: n = p.chance(0.4) ? p.range(1, 5) : p.chance(0.5) ? p.range(6, 60) : p.range(61, 2000); q = p.chance(0.15) ? 0 : p.chance(0.15) ? 1 : p.real(); std::snprintf(b, sizeof b, "randomBinomial(%d, %g)", n, q); break;
        case 8: lo = p.range(-5, 5); n = p.range(1, p.chance(0.2) ? 300 : 12); hi = lo + n; cnt = (size_t)p.range(0, n); std::snprintf(b, sizeof b, "sampleUnique(%lld, %lld, %zu)", (long long)lo, (long long)hi, cnt); break;
        case 9: { n = p.chance(0.4) ? p.range(20, 250) : p.range(1, 9); double t = 0; for (int i = 0; i < n; i++) { double v = p.chance(0.2) && i + 1 < n ? 0 : p.real(0.05, 1); pmf.push_back(v); t += v; } double c = 0; for (int i = 0; i < n; i++) { c += pmf[(size_t)i] /= t; cdf.push_back(c); } cdf.back() = 1; if (n > 60) per = 40000 / (size_t)nt; std::snprintf(b, sizeof b, "sampleCdf of %d values", n); break; }
        case 10: n = p.chance(0.5) ? p.range(300, 65535) : p.range(65536, 3000000); lo = p.chance(0.5) ? 0 : -p.range(0, n); hi = lo + n; cnt = (size_t)(p.chance(0.03) && n < 100000 ? p.range(n / 2, n) : p.chance(0.2) ? p.range(1, std::min(n, 500)) : p.range(1, 8)); per = std::max<size_t>(std::min(per, (size_t)(n < 65536 ? 4000000 : 60000) / ((size_t)(n < 65536 ? n : 0) + cnt) / (size_t)nt), 2); std::snprintf(b, sizeof b, "sampleUnique(%lld, %lld, %zu)", (long long)lo, (long long)hi, cnt); break;
        default: n = p.range(1, 12); el.resize((size_t)n); std::iota(el.begin(), el.end(), 0); std::snprintf(b, sizeof b, "randomIndex/randomElement of %d", n);
        }
        s.what = b;
    }
    if (reseed) PROBE("first draws after a seed");
    workload(std::to_string(nt) + (pool ? " pool threads: " : " threads: ") + s.what + (mix ? ", mixed with other draws" : "") + (reseed ? ", seeded before every " + std::to_string(reseed) + " draws" : ""));
    rng::prng.seed(p.next());
    std::vector<std::vector<double>> got((size_t)nt); std::vector<std::vector<std::vector<int>>> sets((size_t)nt);
    auto body = [&](size_t t)
    {
        auto& g = got[t]; { NoSim _; g.reserve(per); }
        Prng other(mixseed + t);
        for (size_t i = 0; i < per; i++)
        {
            double v = 0;
            if (reseed && i % reseed == 0) rng::prng.seed(at += step);
            if (mix && other.chance(mix)) switch (other.range(0, 4)) // unrelated draws in between
            {
            case 0: (void)rng::randomBool(); break;
            case 1: (void)rng::randomNormal(7.0, 3.0); break;
            case 2: (void)rng::randomPoisson<int>(other.chance(0.5) ? 2.5 : 40.0); break;
            case 3: (void)rng::randomReal<float>(); break;
            default: (void)rng::randomInt(0, 2);
            }
            switch (kind)
            {
            case 0: v = rng::randomBool(); break;
            case 1: v = (double)rng::randomInt<int>((int)lo, (int)hi); break;
            case 2: v = ((double)rng::randomInt<int64_t>(lo, hi) - (double)lo) / ((double)hi - (double)lo); break;
            case 3: v = (rng::randomReal(a, a + w) - a) / ((a + w) - a); break;
            case 4: v = rng::randomReal(); break;
            case 5: v = (rng::randomNormal(a, w) - a) / w; break;
            case 6: v = rng::randomPoisson<int>(a); break;
            case 7: v = rng::randomBinomial<int>(n, q); break;
            case 8: { auto r = rng::sampleUnique<int>((int)lo, (int)hi, cnt); NoSim _; sets[t].emplace_back(r.begin(), r.end()); break; }
            case 9: v = (double)rng::sampleCdf(std::span<const double>(cdf)); break;
            case 10: { auto r = rng::sampleUnique<int>((int)lo, (int)hi, cnt); NoSim _; sets[t].emplace_back(r.begin(), r.end()); break; }
            default: v = i % 2 ? (double)rng::randomIndex(el) : (double)*rng::randomElement(el.begin(), el.end());
            }
            g.push_back(v);
        }
    };
    if (pool) { execution_threads((size_t)nt); detail::parallel_for(detail::iota_iterator(size_t(0)), detail::iota_iterator((size_t)nt), body); }
    else { std::vector<std::thread> ts; for (size_t t = 0; t < (size_t)nt; t++) ts.emplace_back([&, t] { body(t); }); for (auto& t : ts) t.join(); }
    NoSim _;
    for (auto& g : got) s.x.insert(s.x.end(), g.begin(), g.end());
    auto count = [&](double v) { return (double)std::count(s.x.begin(), s.x.end(), v); };
    double M = s.n();
    switch (kind)
    {
    case 0:
        s.freq("the frequency of true", count(1), 0.5);
        for (size_t lag : { 1, 2, 3, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128 }) { double same = 0, m = 0; for (auto& g : got) for (size_t i = lag; i < g.size(); i++) { same += g[i] == g[i - lag]; m++; } if (m > 300) s.is("the frequency of equal values at a distance", same / m, 0.5, std::sqrt(0.25 / m), 8 / m); }
        break;
    case 1: for (double v = (double)lo; v <= (double)hi; v++) s.freq("the frequency of a value", count(v), 1 / (double)(hi - lo + 1)); break;
    case 2: case 3: case 4: s.uniform(); for (auto& g : got) { double c = 0, m = 0; for (size_t i = 1; i < g.size(); i++) { c += (g[i] - 0.5) * (g[i - 1] - 0.5); m++; } if (m > 300) s.is("the correlation of successive draws", c / m * 12, 0, 1 / std::sqrt(m)); } break;
    case 5:
    {
        s.is("the mean in standard deviations", s.mean(), 0, 1 / std::sqrt(M)); s.is("the variance", s.mean(2), 1, std::sqrt(2 / M)); s.is("the third moment", s.mean(3), 0, std::sqrt(15 / M)); 
        double one = 0, two = 0; for (double v : s.x) { one += std::abs(v) < 1; two += std::abs(v) < 2; }
        s.freq("the share within one standard deviation", one, 0.6826895); s.freq("the share within two standard deviations", two, 0.9544997);
        for (auto& g : got) { double c = 0, m = 0; for (size_t i = 1; i < g.size(); i++) { c += g[i] * g[i - 1]; m++; } if (m > 300) s.is("the correlation of successive draws", c / m, 0, 1 / std::sqrt(m)); }
        break;
    }
    case 6:
        s.is("the mean", s.mean(), a, std::sqrt(a / M)); s.is("the variance", s.mean(2) - s.mean() * s.mean(), a, std::sqrt((a + 2 * a * a) / M), a * 0.02);
        if (a < 3) s.freq("the frequency of 0", count(0), std::exp(-a));
        break;
    case 7:
        if (n <= 5) { double c = 1; for (int k = 0; k <= n; k++) { s.freq("the frequency of a value", count(k), c * std::pow(q, k) * std::pow(1 - q, n - k)); c = c * (n - k) / (k + 1); } }
        else { double v = n * q * (1 - q); s.is("the mean", s.mean(), n * q, std::sqrt(v / M), q == 0 || q == 1 ? 0 : v >= 9 ? 0.02 * std::sqrt(v) : std::min(0.03 * n, 0.5 * std::sqrt(v) + 0.1));
            double var = s.mean(2) - s.mean() * s.mean(), noise = 8 * v * std::sqrt(2 / M);
            if (v >= 9) CHECK(var > 0.85 * v - noise && var < 1.35 * v + 0.2 + noise, "distribution", "%s: the variance is %.6g in %zu draws, expected about %.6g", b, var, s.x.size(), v); }
        break;
    case 8:
    {
        std::vector<double> in((size_t)n); double m = 0, first2 = 0; bool dup = false;
        for (auto& v : sets) for (auto& r : v) { m++; for (int x : r) in[(size_t)(x - lo)]++; bool f0 = false, f1 = false; for (int x : r) { f0 = f0 || x == lo; f1 = f1 || x == hi - 1; } first2 += f0 && f1; dup = dup || r.size() != cnt; }
        CHECK(!dup, "distribution", "%s returned another number of values", b);
        for (int i = 0; i < n; i++) s.freq("the frequency of a value", in[(size_t)i], (double)cnt / n);
        if (n > 1) s.freq("the frequency of the first and last value together", first2, (double)cnt * ((double)cnt - 1) / ((double)n * (n - 1)));
        break;
    }
    case 9:
    {
        std::vector<double> c((size_t)n); for (double v : s.x) { CHECK(v >= 0 && v < n, "distribution", "%s returned %g", b, v); c[(size_t)v]++; }
        double sum = 0, x = 0, rest_p = 0, rest_c = 0; int df = -1;
        auto term = [&](double q, double k) { double e = q * M; x += (k - e) * (k - e) / e; df++; };
        for (int i = 0; i < n; i++)
        {
            double q = pmf[(size_t)i], k = c[(size_t)i]; sum += k;
            s.freq("the frequency of an index", k, q); s.freq("the frequency of an index or a smaller one", sum, std::min(cdf[(size_t)i], 1.0));
            CHECK(i == 0 || cdf[(size_t)i] > cdf[(size_t)i - 1] || k == 0, "distribution", "%s: index %d has probability 0 but was returned %g times", b, i, k);
            if (q * M < 8) { rest_p += q; rest_c += k; } else term(q, k);
        }
        if (rest_p * M >= 8) term(rest_p, rest_c);
        if (df > 0) { double k = df, z = (std::cbrt(x / k) - (1 - 2 / (9 * k))) / std::sqrt(2 / (9 * k)); CHECK(z < 9, "distribution", "%s: the indices do not have the given distribution (chi-square %.1f with %g degrees of freedom)", b, x, k); }
        break;
    }
    case 10:
    {
        // values of large ranges, without replacement: the errors are at most those of independent ones
        s.x.clear();
        for (auto& v : sets) for (auto& r : v)
        {
            CHECK(r.size() == cnt, "distribution", "%s returned %zu values", b, r.size());
            for (int x : r) { CHECK(x >= lo && x < hi, "distribution", "%s returned %d", b, x); s.x.push_back(((double)x - (double)lo + 0.5) / n); }
            std::sort(r.begin(), r.end()); CHECK(std::adjacent_find(r.begin(), r.end()) == r.end(), "distribution", "%s returned a value twice", b);
        }
        if (n >= 4000) s.uniform();
        else { s.is("the mean", s.mean(), 0.5, std::sqrt(1 / 12.0 / s.n())); }
        break;
    }
    default: for (int i = 0; i < n; i++) s.freq("the frequency of an element", count(i), 1.0 / n);
    }
}

} // namespace
