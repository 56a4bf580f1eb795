// A user defined encoding: genes that own memory (copies can fail), optionally chromosomes of different lengths.
#include "ga_box.hpp"
#include <core/ga_traits.hpp>
#include <crossover/crossover_base.hpp>
#include <mutation/mutation_base.hpp>

namespace sim {

struct Gene
{
    std::unique_ptr<int> v;
    Gene() : v(std::make_unique<int>(0)) {}
    explicit Gene(double d) : v(std::make_unique<int>((int)d)) {}
    Gene(const Gene& g) : v(g.v ? std::make_unique<int>(*g.v) : nullptr) {}
    Gene(Gene&&) noexcept = default;
    Gene& operator=(const Gene& g) { if (this != &g) { auto n = g.v ? std::make_unique<int>(*g.v) : nullptr; v = std::move(n); } return *this; }
    Gene& operator=(Gene&&) noexcept = default;
    int get() const { return v ? *v : -1; }              // -1: a gene that was moved away
    explicit operator double() const { return get(); }
    friend bool operator==(const Gene& a, const Gene& b) { return a.get() == b.get(); }
    friend bool operator<(const Gene& a, const Gene& b) { return a.get() < b.get(); }
};
}

template<> struct std::hash<sim::Gene> { size_t operator()(const sim::Gene& g) const noexcept { return (size_t)g.get() * 0x9e3779b97f4a7c15ull; } };

namespace sim {

struct CustCross final : gapp::crossover::Crossover<Gene>
{
    bool var;
    explicit CustCross(gapp::Probability pc = 0.8, bool var = false) : Crossover(pc), var(var) {}
    bool allow_variable_chrom_length() const noexcept override { return var; }
    gapp::CandidatePair<Gene> crossover(const gapp::GA<Gene>&, const gapp::Candidate<Gene>& a, const gapp::Candidate<Gene>& b) const override
    {
        size_t k = gapp::rng::randomInt<size_t>(0, std::min(a.chromosome.size(), b.chromosome.size()));
        gapp::Candidate<Gene> x, y;
        x.chromosome.assign(a.chromosome.begin(), a.chromosome.begin() + (ptrdiff_t)k); x.chromosome.insert(x.chromosome.end(), b.chromosome.begin() + (ptrdiff_t)k, b.chromosome.end());
        y.chromosome.assign(b.chromosome.begin(), b.chromosome.begin() + (ptrdiff_t)k); y.chromosome.insert(y.chromosome.end(), a.chromosome.begin() + (ptrdiff_t)k, a.chromosome.end());
        return { std::move(x), std::move(y) };
    }
};
struct CustMut final : gapp::mutation::Mutation<Gene>
{
    bool var;
    explicit CustMut(gapp::Probability pm, bool var = false) : Mutation(pm), var(var) {}
    bool allow_variable_chrom_length() const noexcept override { return var; }
    void mutate(const gapp::GA<Gene>& ga, const gapp::Candidate<Gene>&, gapp::Chromosome<Gene>& c) const override
    {
        for (auto& g : c) if (gapp::rng::randomReal() < mutation_rate()) g = Gene(gapp::rng::randomInt(0, 9));
        if (!var || gapp::rng::randomReal() >= mutation_rate()) return;
        if (gapp::rng::randomBool()) { if (c.size() > 1) c.erase(c.begin() + (ptrdiff_t)gapp::rng::randomIndex(c)); }
        else if (c.size() < ga.chrom_len() + 3) c.emplace_back(gapp::rng::randomInt(0, 9));
    }
};
}

template<> struct gapp::GaTraits<sim::Gene>
{
    using DefaultCrossover = sim::CustCross;
    using DefaultMutation  = sim::CustMut;
    static Probability defaultMutationRate(size_t chrom_len) { return 1.0 / (double)chrom_len; }
};

namespace sim {

struct CustGA final : gapp::GA<Gene>
{
    using GA::GA;
    Obs* obs = nullptr; const Config* cfg = nullptr;
    void attach(Obs* o, const Config* c) { obs = o; cfg = c; }
    void initialize() override
    {
        UserCall u(*obs, FN_GENERATE);
        NoSim _;
        if (obs->flags & F_LIFECYCLE && (++obs->ga_inits != 1 || obs->generated)) failf("initialize-count", "initialize() of the derived GA was called %d times, after %d generated candidates", obs->ga_inits, obs->generated);
    }
    gapp::Candidate<Gene> generateCandidate() const override
    {
        UserCall u(*obs, FN_GENERATE);
        {
            NoSim _; obs->generated++;
            if (obs->flags & F_LIFECYCLE && obs->ga_inits != 1) failf("initialize-count", "a candidate was generated after %d calls of initialize() in this run", obs->ga_inits);
        }
        gapp::Candidate<Gene> c;
        size_t n = chrom_len();
        if (cfg->var) n = gapp::rng::randomInt<size_t>(1, n + 3);
        for (size_t i = 0; i < n; i++) c.chromosome.emplace_back(gapp::rng::randomInt(0, 9));
        return c;
    }
};

struct CustOps {
    static constexpr Enc enc = CUST;
    static std::unique_ptr<gapp::crossover::Crossover<Gene>> cross(const Config& c) { return std::make_unique<CustCross>(c.pc, c.var); }
    static std::unique_ptr<gapp::mutation::Mutation<Gene>> mutate(const Config& c) { return std::make_unique<CustMut>(c.pm, c.var); }
};
std::unique_ptr<Box> make_cust(const Config& c, Obs* o) { return std::make_unique<BoxImpl<CustGA, CustOps>>(c, o); }
}
