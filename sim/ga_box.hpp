// A GA of the library with instrumented user functions, one instantiation per encoding.
#pragma once
#include "ga.hpp"
#include <core/ga_base.hpp>
#include <core/ga_traits.hpp>
#include <algorithm/single_objective.hpp>
#include <algorithm/nsga2.hpp>
#include <algorithm/nsga3.hpp>
#include <utility/rng.hpp>
#include <utility/thread_pool.hpp>

namespace sim {

template<typename T> Chrom to_chrom(const std::vector<T>& c) { return Chrom(c.begin(), c.end()); }
template<typename T> std::vector<T> from_chrom(const Chrom& c) { std::vector<T> r; for (double x : c) r.push_back((T)x); return r; }

template<typename T> std::vector<Cand> to_cands(const std::vector<gapp::Candidate<T>>& v)
{
    std::vector<Cand> r; r.reserve(v.size());
    for (const auto& c : v) r.push_back(Cand{ to_chrom(c.chromosome), Fit(c.fitness.begin(), c.fitness.end()), c.is_evaluated });
    return r;
}

template<typename T>
struct SimFitness final : gapp::FitnessFunctionBase<T>
{
    Obs* o; const Config* cfg;
    SimFitness(const Problem& p, Obs* o, const Config* c) : gapp::FitnessFunctionBase<T>(p.len, p.dynamic ? gapp::FitnessFunctionInfo::Type::Dynamic : gapp::FitnessFunctionInfo::Type::Static), o(o), cfg(c) {}
    gapp::FitnessVector invoke(const gapp::Chromosome<T>& c) const override
    {
        UserCall u(*o, FN_FITNESS);
        Chrom ch = to_chrom(c);
        Fit f = o->on_fitness(ch);
        if (cfg->user_rng) { (void)gapp::rng::randomInt(0, 10); (void)gapp::rng::randomNormal(0.0, 1.0); (void)gapp::rng::randomBool(); }
        if ((ch.size() + (uint64_t)f[0]) % 2) sim_yield();
        Chrom again = to_chrom(c);
        if (again != ch) { NoSim _; if (o->flags & F_FITNESS) failf("modified-while-evaluated", "a chromosome was changed while the fitness function was looking at it: %s, then %s", str(ch).c_str(), str(again).c_str()); }
        return gapp::FitnessVector(f.begin(), f.end());
    }
};

// a stop condition that can be passed by value
struct StopVal final : gapp::stopping::StopCondition
{
    std::unique_ptr<gapp::stopping::StopCondition> in;
    explicit StopVal(std::unique_ptr<gapp::stopping::StopCondition> p) : in(std::move(p)) {}
    StopVal(StopVal&&) = default;
    void initialize(const gapp::GaInfo& ga) override { in->initialize(ga); }
    bool stop_condition(const gapp::GaInfo& ga) override { return (*in)(ga); }
};

template<typename Op, typename Base, typename Set>
void tune(Base& x, const Base& ref, Set set) { auto* a = dynamic_cast<Op*>(&x); auto* b = dynamic_cast<const Op*>(&ref); if (a && b) set(*a, *b); }

template<typename GAT, typename Ops>
struct BoxImpl final : Box
{
    using T = typename GAT::GeneType;
    static constexpr bool bounded = gapp::is_bounded<T>;
    std::unique_ptr<GAT> ga;

    BoxImpl(const Config& c, Obs* o)
    {
        cfg = c; obs = o;
        static Problem dummy; NoSim* n = nullptr; (void)n;
        build();
    }

    void build()
    {
        auto alg = make_algorithm(cfg, obs, 0);
        const bool callables = cfg.cx == 7 || cfg.mut == 7;
        int path = cfg.path ? cfg.path : cfg.default_ops || (cfg.npoint % 2 && !callables) ? (alg || !cfg.default_ops ? 2 : 1) : 1;
        if (callables && path > 1) path = 3;
        bool stop_given = false;
        const bool stop_lambda = cfg.user_stop_lambda && cfg.stop.kind == 0;
        if (cfg.default_ops)
        {
            if (path == 1) { ga = std::make_unique<GAT>(cfg.pop); if (alg) ga->algorithm(std::move(alg)); }
            else ga = std::make_unique<GAT>(cfg.pop, std::move(alg));
            if (cfg.explicit_pm) ga->mutation_rate(cfg.pm);
        }
        else if (path == 2)
        {
            if (alg) ga = std::make_unique<GAT>(cfg.pop, std::move(alg), cross(), mutate());
            else if (cfg.npoint % 3 == 0 && !stop_lambda) { ga = std::make_unique<GAT>(cfg.pop, cross(), mutate(), wrap_stop(cfg, obs)); stop_given = true; }
            else ga = std::make_unique<GAT>(cfg.pop, cross(), mutate());
        }
        else if (path == 4)
        {
            if (stop_lambda) { ga = std::make_unique<GAT>(cfg.pop, std::move(alg), cross(), mutate(), nullptr); no_stop(); }
            else { ga = std::make_unique<GAT>(cfg.pop, std::move(alg), cross(), mutate(), wrap_stop(cfg, obs)); stop_given = true; }
        }
        else if (path == 5 && cfg.cx == 8 && cfg.mut == 8 && cfg.cache % 2 && !stop_lambda)
        {
            stop_given = true;
            StopVal stop(wrap_stop(cfg, obs));
            if (cfg.algo == A_NSGA2) ga = std::make_unique<GAT>(cfg.pop, gapp::algorithm::NSGA2{}, DefCross{ cfg.pc }, DefMut{ cfg.pm }, std::move(stop));
            else { ga = std::make_unique<GAT>(cfg.pop, DefCross{ cfg.pc }, DefMut{ cfg.pm }, std::move(stop)); if (alg) ga->algorithm(std::move(alg)); }
        }
        else if (path == 5 && cfg.cx == 8 && cfg.mut == 8)
        {
            if (cfg.algo == A_NSGA2) ga = std::make_unique<GAT>(cfg.pop, gapp::algorithm::NSGA2{}, DefCross{ cfg.pc }, DefMut{ cfg.pm });
            else { ga = std::make_unique<GAT>(cfg.pop, DefCross{ cfg.pc }, DefMut{ cfg.pm }); if (alg) ga->algorithm(std::move(alg)); }
        }
        else
        {
            if (path == 3) ga = std::make_unique<GAT>(cfg.pop, std::move(alg));
            else { ga = std::make_unique<GAT>(cfg.pop); if (alg) ga->algorithm(std::move(alg)); else ga->algorithm(nullptr); }
            set_cross(); set_mutate();
        }
        if constexpr (requires { ga->attach(obs, &cfg); }) ga->attach(obs, &cfg);
        if (cfg.repair != REP_NONE) set_repair();
        ga->cache_size(cfg.cache);
        ga->keep_all_optimal_solutions(cfg.keep_all);
        ga->max_gen(cfg.max_gen);
        if (!stop_given) { no_stop(); set_stop(); }
        set_callback();
    }
    // without a stop condition, or with a nullptr, there is no early stop
    void no_stop() { NoSim _; if (!dynamic_cast<const gapp::stopping::NoEarlyStop*>(&ga->stop_condition())) failf("setting", "a GA that no stop condition was set for has one"); }

    // The operators and their parameters, either constructed with them, or with others that are then set (odd cfg.path > 1).
    static Config detuned(Config c) { c.pc = 1 - c.pc; c.pm = 1 - c.pm; c.npoint++; c.cxp = 0.4; c.mutp = 0.3; return c; }
    bool by_setters() const { return cfg.path > 1 && cfg.path % 2; }
    std::unique_ptr<gapp::crossover::Crossover<T>> ops_cross()
    {
        if (!by_setters()) return Ops::cross(cfg);
        auto x = Ops::cross(detuned(cfg)), ref = Ops::cross(cfg);
        x->crossover_rate(ref->crossover_rate());
        if constexpr (requires { Ops::tune_cross(*x, *ref); }) Ops::tune_cross(*x, *ref);
        return x;
    }
    std::unique_ptr<gapp::mutation::Mutation<T>> ops_mutate()
    {
        if (!by_setters()) return Ops::mutate(cfg);
        auto x = Ops::mutate(detuned(cfg)), ref = Ops::mutate(cfg);
        x->mutation_rate(ref->mutation_rate());
        if constexpr (requires { Ops::tune_mutate(*x, *ref); }) Ops::tune_mutate(*x, *ref);
        return x;
    }
    using DefCross = typename gapp::GaTraits<T>::DefaultCrossover;
    using DefMut   = typename gapp::GaTraits<T>::DefaultMutation;
    std::unique_ptr<gapp::crossover::Crossover<T>> cross() { if (cfg.cx == 8) return std::make_unique<DefCross>(cfg.pc); return ops_cross(); }
    std::unique_ptr<gapp::mutation::Mutation<T>> mutate() { if (cfg.mut == 8) return std::make_unique<DefMut>(cfg.pm); return ops_mutate(); }
    void set_cross()
    {
        if (cfg.cx == 7) { ga->crossover_method(typename GAT::CrossoverCallable([this](const gapp::GA<T>& g, const gapp::Candidate<T>& a, const gapp::Candidate<T>& b) { return user_cross(g, a, b); })); ga->crossover_rate(cfg.pc); }
        else if (cfg.cx == 8 && cfg.path) ga->crossover_method(DefCross{ cfg.pc });
        else ga->crossover_method(cross());
    }
    void set_mutate()
    {
        if (cfg.mut == 7) { ga->mutation_method(typename GAT::MutationCallable([this](const gapp::GA<T>& g, const gapp::Candidate<T>& c, gapp::Chromosome<T>& ch) { user_mutate(g, c, ch); })); if (!cfg.default_pm) ga->mutation_rate(cfg.pm); }
        else if (cfg.mut == 8 && cfg.path) ga->mutation_method(DefMut{ cfg.pm });
        else ga->mutation_method(mutate());
    }
    void set_repair() { ga->repair_function([this](const gapp::GA<T>&, const gapp::Chromosome<T>& c) { return user_repair(c); }); }
    void set_stop()
    {
        if (cfg.user_stop_lambda && cfg.stop.kind == 0) { ga->stop_condition([this](const gapp::GaInfo& i) { UserCall u(*obs, FN_STOP); obs->on_stop(i, i.generation_cntr() + 1 >= i.max_gen(), i.max_gen()); return false; }); }
        else ga->stop_condition(wrap_stop(cfg, obs));
    }
    void set_callback()
    {
        ga->on_generation_end([this](const gapp::GaInfo& i)
        {
            UserCall u(*obs, FN_CALLBACK);
            auto pop = to_cands(ga->population());
            if (cfg.user_stop_lambda && cfg.stop.kind == 0) { NoSim _; obs->stop_inits = 1; }
            obs->on_generation(i, std::move(pop), [this] { return get_metrics(*ga); });
        });
    }

    void reconfigure(const Config& to, Prng p, bool fail) override
    {
        using Step = std::function<void()>;
        std::vector<std::vector<Step>> groups(9);
        {
            NoSim _;
            cfg = to;
            auto junk = [&] { return p.chance(0.4); };
            size_t n = (size_t)p.range(1, 20); bool b = p.chance(0.5); double rate = p.real();
            if (junk()) groups[0].push_back([this, n] { ga->population_size(n); });
            groups[0].push_back([this] { ga->population_size(cfg.pop); });
            if (junk()) groups[1].push_back([this, n] { ga->max_gen(n); });
            groups[1].push_back([this] { ga->max_gen(cfg.max_gen); });
            if (junk()) groups[2].push_back([this, n] { ga->cache_size(n); });
            groups[2].push_back([this] { ga->cache_size(cfg.cache); });
            if (junk()) groups[3].push_back([this, b] { ga->keep_all_optimal_solutions(b); });
            groups[3].push_back([this] { ga->keep_all_optimal_solutions(cfg.keep_all); });
            if (junk()) groups[4].push_back([this, b] { if (b) ga->algorithm(gapp::algorithm::NSGA2{}); else ga->algorithm(nullptr); });
            groups[4].push_back([this, b] { auto alg = make_algorithm(cfg, obs, 0); if (!alg && b) ga->algorithm(nullptr); else if (cfg.algo == A_NSGA2 && b) ga->algorithm(gapp::algorithm::NSGA2{}); else ga->algorithm(std::move(alg)); });
            if (!cfg.default_ops)
            {
                if (junk()) groups[5].push_back([this, rate] { ga->crossover_rate(rate); });
                groups[5].push_back([this] { set_cross(); });
                if (junk()) { groups[5].push_back([this, rate] { ga->crossover_rate(rate); }); groups[5].push_back([this] { ga->crossover_rate(cfg.pc); }); }
                if (junk()) groups[6].push_back([this, rate] { ga->mutation_rate(rate); });
                groups[6].push_back([this] { set_mutate(); });
                if (junk() && !cfg.default_pm) { groups[6].push_back([this, rate] { ga->mutation_rate(rate); }); groups[6].push_back([this] { ga->mutation_rate(cfg.pm); }); }
            }
            else if (cfg.explicit_pm) groups[6].push_back([this] { ga->mutation_rate(cfg.pm); });
            if (junk()) groups[7].push_back([this, b] { if (b) ga->stop_condition(nullptr); else ga->stop_condition([](const gapp::GaInfo&) { return true; }); });
            groups[7].push_back([this] { set_stop(); });
            if (junk()) groups[8].push_back([this, b] { if (b) ga->repair_function(nullptr); else ga->repair_function([](const gapp::GA<T>&, const gapp::Chromosome<T>& c) { return c; }); });
            groups[8].push_back([this] { if (cfg.repair == REP_NONE) ga->repair_function(nullptr); else set_repair(); });
        }
        std::vector<size_t> at(9);
        for (;;)
        {
            size_t g;
            { NoSim _; std::vector<size_t> left; for (size_t i = 0; i < 9; i++) if (at[i] < groups[i].size()) left.push_back(i); if (left.empty()) break; g = left[p.below(left.size())]; }
            Step& s = groups[g][at[g]++];
            // a setter that fails is repeated
            for (int tries = 0; ; tries++)
            {
                int old = sim_alloc_faults_enable(fail && tries < 3);
                try { s(); sim_alloc_faults_enable(old); break; }
                catch (const std::bad_alloc&) { sim_alloc_faults_enable(old); PROBE("setter failed"); if (tries > 2) throw; }
            }
        }
    }

    void move_object(int how) override
    {
        std::vector<Cand> pop, sols; { NoSim _; pop = to_cands(ga->population()); sols = to_cands(ga->solutions()); }
        if (how == 0) ga = std::make_unique<GAT>(std::move(*ga));
        else if (how == 1) { auto g = std::make_unique<GAT>(3); *g = std::move(*ga); ga = std::move(g); }
        else { GAT g(5); std::swap(g, *ga); ga = std::make_unique<GAT>(2); std::swap(*ga, g); }
        NoSim _;
        if (!(pop == to_cands(ga->population())) || !(sols == to_cands(ga->solutions()))) failf("move-loses", "the population or the solutions of a moved GA differ");
    }

    void check_settings(const Problem* solved) override
    {
        NoSim _;
        auto eq = [](const char* w, double got, double want) { if (got != want) failf("setting", "%s of the GA is %.17g, it was set to %.17g", w, got, want); };
        eq("population_size()", (double)ga->population_size(), (double)cfg.pop);
        eq("max_gen()", (double)ga->max_gen(), (double)cfg.max_gen);
        eq("keep_all_optimal_solutions()", ga->keep_all_optimal_solutions(), cfg.keep_all);
        eq("crossover_rate()", ga->crossover_rate(), cfg.default_ops ? (double)DefCross{}.crossover_rate() : cfg.pc);
        bool def = (cfg.default_ops && !cfg.explicit_pm) || (!cfg.default_ops && cfg.mut == 7 && cfg.default_pm);
        if (!def) eq("mutation_rate()", ga->mutation_rate(), cfg.pm);
        else if (solved) eq("the deduced mutation_rate()", ga->mutation_rate(), gapp::GaTraits<T>::defaultMutationRate(solved->len));
        if (solved)
        {
            eq("chrom_len()", (double)ga->chrom_len(), (double)solved->len);
            eq("num_objectives()", (double)ga->num_objectives(), solved->nobj);
            const auto* f = ga->fitness_function();
            if (!f) failf("setting", "fitness_function() is a nullptr after a run");
            eq("fitness_function()->is_dynamic()", f->is_dynamic(), solved->dynamic);
            eq("fitness_function()->chrom_len()", (double)f->chrom_len(), (double)solved->len);
            if constexpr (bounded)
            {
                const auto& b = ga->gene_bounds();
                eq("the size of gene_bounds()", (double)b.size(), (double)solved->len);
                for (size_t i = 0; i < b.size(); i++) { eq("a lower bound in gene_bounds()", (double)b[i].lower(), (double)(T)solved->lb[i]); eq("an upper bound in gene_bounds()", (double)b[i].upper(), (double)(T)solved->ub[i]); }
            }
        }
        const auto* a = &ga->algorithm();
        int got = dynamic_cast<const gapp::algorithm::NSGA2*>(a) ? A_NSGA2 : dynamic_cast<const gapp::algorithm::NSGA3*>(a) ? A_NSGA3 : A_SOGA;
        int want = cfg.algo != A_DEFAULT ? cfg.algo : solved ? (solved->nobj == 1 ? A_SOGA : A_NSGA3) : got;
        static const char* names[] = { "", "SingleObjective", "NSGA2", "NSGA3" };
        if (got != want) failf("setting", "the GA uses %s%s, not %s, for %d objectives", names[got], cfg.algo == A_DEFAULT ? " by default" : "", names[want], solved ? solved->nobj : 0);
    }

    gapp::CandidatePair<T> user_cross(const gapp::GA<T>&, const gapp::Candidate<T>& a, const gapp::Candidate<T>& b)
    {
        UserCall u(*obs, FN_CROSSOVER);
        { Chrom x = to_chrom(a.chromosome), y = to_chrom(b.chromosome); NoSim _; obs->well_formed(x, "crossover function"); obs->well_formed(y, "crossover function"); }
        gapp::CandidatePair<T> r{ a, b };
        if constexpr (Ops::enc == PERM) std::swap(r.first, r.second);
        else for (size_t i = 0; i < a.chromosome.size(); i++) if (gapp::rng::randomBool()) { T t = r.first.chromosome[i]; r.first.chromosome[i] = r.second.chromosome[i]; r.second.chromosome[i] = t; }
        return r;
    }

    void user_mutate(const gapp::GA<T>&, const gapp::Candidate<T>&, gapp::Chromosome<T>& c)
    {
        UserCall u(*obs, FN_MUTATION);
        { Chrom x = to_chrom(c); NoSim _; obs->well_formed(x, "mutation function"); }
        if (cfg.nested && gapp::rng::randomBool()) nested();
        if (gapp::rng::randomReal() >= cfg.pm || c.empty()) return;
        size_t i = gapp::rng::randomIndex(c);
        if constexpr (Ops::enc == BIN) c[i] = (T)(1 - c[i]);
        else if constexpr (Ops::enc == PERM) std::swap(c[i], c[gapp::rng::randomIndex(c)]);
        else if constexpr (Ops::enc == CUST) c[i] = T(gapp::rng::randomInt(0, 9));
        else if constexpr (Ops::enc == INT) c[i] = gapp::rng::randomInt((T)obs->prob->lb[i], (T)obs->prob->ub[i]);
        else c[i] = obs->prob->lb[i] + (obs->prob->ub[i] - obs->prob->lb[i]) * gapp::rng::randomReal();
    }

    // a user function that runs a small GA of its own
    void nested()
    {
        PROBE("nested GA");
        Obs o2; Problem p2; Config c2;
        {
            NoSim _;
            o2.flags = obs->flags & (F_FITNESS | F_OPTIMAL);
            p2 = *obs->prob; p2.dynamic = p2.var = false; p2.initial.clear(); p2.gens = 2; p2.explicit_gens = true; p2.fseed ^= 0x55;
            p2.kind = 0;
            c2 = cfg; c2.var = false; c2.pop = 4; c2.nested = false; c2.repair = REP_NONE; c2.algo = A_DEFAULT; c2.proto = 0; c2.cx = 0; c2.mut = 7; c2.pc = 0; c2.pm = 0.5; c2.npoint = 2; c2.cache = 0; c2.keep_all = false; c2.stop = StopSpec{}; c2.user_stop_lambda = false; c2.metrics = 0; c2.default_ops = false;
        }
        BoxImpl inner(c2, &o2);
        inner.solve(p2);
    }

    gapp::Chromosome<T> user_repair(const gapp::Chromosome<T>& c)
    {
        UserCall u(*obs, FN_REPAIR);
        Chrom x = to_chrom(c);
        { NoSim _; obs->well_formed(x, "repair function"); }
        gapp::Chromosome<T> r = c;
        if (cfg.repair == REP_CHANGE && !r.empty())
        {
            if constexpr (Ops::enc == BIN) { if (r[0] == 0 && r.back() == 0) r[0] = 1; }
            else if constexpr (Ops::enc == PERM) { if (r.size() > 1 && r[0] == r.size() - 1) std::swap(r[0], r.back()); }
            else if constexpr (Ops::enc == CUST) { if (r[0] == T(0.0)) r[0] = T(1.0); }
            else if (r[0] == (T)obs->prob->lb[0]) r[0] = (T)obs->prob->ub[0];
        }
        Chrom y = to_chrom(r);
        NoSim _;
        obs->cur.repaired.push_back(y);
        return r;
    }

    Result solve(const Problem& p) override
    {
        Result r;
        obs->begin_solve(cfg, p);
        std::vector<Cand> sols, getter;
        try
        {
            set_metrics(*ga, cfg, obs, p.nobj);
            gapp::Population<T> init;
            for (const auto& c : p.initial)
            {
                init.push_back(gapp::Candidate<T>(from_chrom<T>(c)));
                if (!p.resume) continue;
                Fit f; { NoSim _; f = p.value(c, p.dynamic ? 99 : 0); }
                init.back().fitness.assign(f.begin(), f.end());
                init.back().is_evaluated = true;
            }
            gapp::Candidates<T> res;
            uint64_t v = p.fseed % 3;
            if constexpr (bounded)
            {
                gapp::BoundsVector<T> b; bool uni = true;
                for (size_t i = 0; i < p.len; i++) { b.push_back({ (T)p.lb[i], (T)p.ub[i] }); uni = uni && p.lb[i] == p.lb[0] && p.ub[i] == p.ub[0]; }
                if (p.explicit_gens)
                {
                    if (v == 0 && uni && p.fseed % 2) res = ga->solve(std::make_unique<SimFitness<T>>(p, obs, &cfg), b[0], p.gens, std::move(init));
                    else if (v == 0) res = ga->solve(std::make_unique<SimFitness<T>>(p, obs, &cfg), b, p.gens, std::move(init));
                    else if (v == 1 && uni) res = ga->solve(SimFitness<T>(p, obs, &cfg), b[0], p.gens, std::move(init));
                    else res = ga->solve(SimFitness<T>(p, obs, &cfg), b, p.gens, std::move(init));
                }
                else
                {
                    if (v == 0 && uni && p.fseed % 2) res = ga->solve(std::make_unique<SimFitness<T>>(p, obs, &cfg), b[0], std::move(init));
                    else if (v == 0) res = ga->solve(std::make_unique<SimFitness<T>>(p, obs, &cfg), b, std::move(init));
                    else if (v == 1 && uni) res = ga->solve(SimFitness<T>(p, obs, &cfg), b[0], std::move(init));
                    else res = ga->solve(SimFitness<T>(p, obs, &cfg), b, std::move(init));
                }
            }
            else
            {
                if (p.explicit_gens)
                {
                    if (v == 0) res = ga->solve(std::make_unique<SimFitness<T>>(p, obs, &cfg), p.gens, std::move(init));
                    else res = ga->solve(SimFitness<T>(p, obs, &cfg), p.gens, std::move(init));
                }
                else
                {
                    if (v == 0) res = ga->solve(std::make_unique<SimFitness<T>>(p, obs, &cfg), std::move(init));
                    else res = ga->solve(SimFitness<T>(p, obs, &cfg), std::move(init));
                }
            }
            { NoSim _; obs->inside = false; }
            { NoSim _; sols = to_cands(res); getter = to_cands(ga->solutions()); }
        }
        catch (const UserErr& e) { r.threw = r.user = true; r.id = e.n; }
        catch (const std::bad_alloc&) { r.threw = r.oom = true; }
        obs->end_solve(r.threw);
        NoSim _;
        if (r.threw) { if (r.user && std::find(obs->thrown_ids.begin(), obs->thrown_ids.end(), r.id) == obs->thrown_ids.end()) failf("wrong-exception", "solve threw an exception that no user function threw during this run"); }
        else if (obs->thrown) failf("exception-lost", "%d user functions threw during the run but solve returned normally", obs->thrown);
        if ((obs->flags & (F_LIFECYCLE | F_EXCEPTION)) && ga->max_gen() != cfg.max_gen) failf("max-gen", "max_gen() is %zu after the run, it was set to %zu", ga->max_gen(), cfg.max_gen);
        if (!r.threw)
        {
            r.sols = sols;
            obs->check_solutions(sols, getter);
            if ((obs->flags & F_METRICS)) obs->check_metrics(get_metrics(*ga));
            obs->add_digest();
            std::sort(sols.begin(), sols.end(), [](const Cand& a, const Cand& b) { return a.chrom < b.chrom; });
            for (auto& c : sols) { for (double d : c.chrom) obs->digest.add(d); for (double d : c.fit) obs->digest.add(d); }
            obs->digest.note("sols(%zu):%llx", sols.size(), (unsigned long long)obs->digest.h);
        }
        return r;
    }

    size_t max_gen() const override { return ga->max_gen(); }
};

} // namespace sim
