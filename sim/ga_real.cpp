#include "ga_box.hpp"
#include <encoding/real.hpp>
namespace sim {
struct RealOps {
    static constexpr Enc enc = REAL;
    static std::unique_ptr<gapp::crossover::Crossover<gapp::RealGene>> cross(const Config& c)
    {
        using namespace gapp::crossover::real;
        switch (c.cx % 4) { case 0: return std::make_unique<Arithmetic>(c.pc); case 1: return std::make_unique<BLXa>(c.pc, c.cxp); case 2: return std::make_unique<SimulatedBinary>(c.pc, c.cxp * 8); default: return std::make_unique<Wright>(c.pc); }
    }
    static std::unique_ptr<gapp::mutation::Mutation<gapp::RealGene>> mutate(const Config& c)
    {
        using namespace gapp::mutation::real;
        switch (c.mut % 5) { case 0: return std::make_unique<Uniform>(c.pm); case 1: return std::make_unique<NonUniform>(c.pm, c.mutp * 4); case 2: return std::make_unique<Gauss>(c.pm, c.mutp * 6 + 0.1); case 3: return std::make_unique<Polynomial>(c.pm, c.mutp * 40); default: return std::make_unique<Boundary>(c.pm); }
    }
    static void tune_cross(auto& x, const auto& ref)
    {
        using namespace gapp::crossover::real;
        tune<BLXa>(x, ref, [](auto& a, auto& b) { a.alpha(b.alpha()); });
        tune<SimulatedBinary>(x, ref, [](auto& a, auto& b) { a.eta(b.eta()); });
    }
    static void tune_mutate(auto& x, const auto& ref)
    {
        using namespace gapp::mutation::real;
        tune<NonUniform>(x, ref, [](auto& a, auto& b) { a.beta(b.beta()); });
        tune<Gauss>(x, ref, [](auto& a, auto& b) { a.sigma(b.sigma()); });
        tune<Polynomial>(x, ref, [](auto& a, auto& b) { a.eta(b.eta()); });
    }
};
std::unique_ptr<Box> make_real(const Config& c, Obs* o) { return std::make_unique<BoxImpl<gapp::RCGA, RealOps>>(c, o); }
}
