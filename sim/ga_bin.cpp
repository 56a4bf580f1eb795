#include "ga_box.hpp"
#include <encoding/binary.hpp>
namespace sim {
struct BinOps {
    static constexpr Enc enc = BIN;
    static std::unique_ptr<gapp::crossover::Crossover<gapp::BinaryGene>> cross(const Config& c)
    {
        using namespace gapp::crossover::binary;
        switch (c.cx % 4) { case 0: return std::make_unique<SinglePoint>(c.pc); case 1: return std::make_unique<TwoPoint>(c.pc); case 2: return std::make_unique<NPoint>(c.pc, c.npoint); default: return std::make_unique<Uniform>(c.pc, c.cxp); }
    }
    static std::unique_ptr<gapp::mutation::Mutation<gapp::BinaryGene>> mutate(const Config& c) { return std::make_unique<gapp::mutation::binary::Flip>(c.pm); }
    static void tune_cross(auto& x, const auto& ref)
    {
        using namespace gapp::crossover::binary;
        tune<NPoint>(x, ref, [](auto& a, auto& b) { a.num_crossover_points(b.num_crossover_points()); });
        tune<Uniform>(x, ref, [](auto& a, auto& b) { a.swap_probability(b.swap_probability()); });
    }
};
std::unique_ptr<Box> make_bin(const Config& c, Obs* o) { return std::make_unique<BoxImpl<gapp::BinaryGA, BinOps>>(c, o); }
}
