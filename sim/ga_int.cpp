#include "ga_box.hpp"
#include <encoding/integer.hpp>
namespace sim {
struct IntOps {
    static constexpr Enc enc = INT;
    static std::unique_ptr<gapp::crossover::Crossover<gapp::IntegerGene>> cross(const Config& c)
    {
        using namespace gapp::crossover::integer;
        switch (c.cx % 4) { case 0: return std::make_unique<SinglePoint>(c.pc); case 1: return std::make_unique<TwoPoint>(c.pc); case 2: return std::make_unique<NPoint>(c.pc, c.npoint); default: return std::make_unique<Uniform>(c.pc, c.cxp); }
    }
    static std::unique_ptr<gapp::mutation::Mutation<gapp::IntegerGene>> mutate(const Config& c) { return std::make_unique<gapp::mutation::integer::Uniform>(c.pm); }
    static void tune_cross(auto& x, const auto& ref)
    {
        using namespace gapp::crossover::integer;
        tune<NPoint>(x, ref, [](auto& a, auto& b) { a.num_crossover_points(b.num_crossover_points()); });
        tune<Uniform>(x, ref, [](auto& a, auto& b) { a.swap_probability(b.swap_probability()); });
    }
};
std::unique_ptr<Box> make_int(const Config& c, Obs* o) { return std::make_unique<BoxImpl<gapp::IntegerGA, IntOps>>(c, o); }
}
