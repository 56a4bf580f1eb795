#include "ga_box.hpp"
#include <encoding/permutation.hpp>
namespace sim {
struct PermOps {
    static constexpr Enc enc = PERM;
    static std::unique_ptr<gapp::crossover::Crossover<gapp::PermutationGene>> cross(const Config& c)
    {
        using namespace gapp::crossover::perm;
        switch (c.cx % 6) { case 0: return std::make_unique<Order1>(c.pc); case 1: return std::make_unique<Order2>(c.pc); case 2: return std::make_unique<Position>(c.pc); case 3: return std::make_unique<Cycle>(c.pc); case 4: return std::make_unique<Edge>(c.pc); default: return std::make_unique<PMX>(c.pc); }
    }
    static std::unique_ptr<gapp::mutation::Mutation<gapp::PermutationGene>> mutate(const Config& c)
    {
        using namespace gapp::mutation::perm;
        switch (c.mut % 5) { case 0: return std::make_unique<Inversion>(c.pm, c.mutp); case 1: return std::make_unique<Swap2>(c.pm); case 2: return std::make_unique<Swap3>(c.pm); case 3: return std::make_unique<Shuffle>(c.pm, c.mutp); default: return std::make_unique<Shift>(c.pm, c.mutp); }
    }
    static void tune_mutate(auto& x, const auto& ref)
    {
        using namespace gapp::mutation::perm;
        tune<Inversion>(x, ref, [](auto& a, auto& b) { a.range_max(b.range_max()); });
        tune<Shuffle>(x, ref, [](auto& a, auto& b) { a.range_max(b.range_max()); });
        tune<Shift>(x, ref, [](auto& a, auto& b) { a.range_max(b.range_max()); });
    }
};
std::unique_ptr<Box> make_perm(const Config& c, Obs* o) { return std::make_unique<BoxImpl<gapp::PermutationGA, PermOps>>(c, o); }
}
