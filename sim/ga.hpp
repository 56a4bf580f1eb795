// Shared description, observer and oracles of simulated GA runs.
#pragma once
#include "harness.hpp"
#include <core/ga_info.hpp>
#include <stop_condition/stop_condition.hpp>
#include <stop_condition/composite.hpp>
#include <metrics/metrics.hpp>
#include <algorithm/algorithm.hpp>
#include <memory>
#include <functional>
#include <map>
#include <set>
#include <deque>

namespace sim {

using Chrom = std::vector<double>;
using Fit   = std::vector<double>;

enum Enc { BIN, INT, PERM, REAL, CUST };
enum Algo { A_DEFAULT, A_SOGA, A_NSGA2, A_NSGA3 };
enum Sel { S_ROULETTE, S_TOURNAMENT, S_RANK, S_SIGMA, S_BOLTZMANN, S_LAMBDA, S_COUNT };
enum Repl { R_BEST, R_ELITISM, R_CHILDREN, R_LAMBDA, R_COUNT };
enum Repair { REP_NONE, REP_IDENTITY, REP_CHANGE };

// flags: which oracles are active in a scenario
enum : uint32_t {
    F_FITNESS = 1, F_WELLFORMED = 2, F_OPTIMAL = 4, F_LIFECYCLE = 8, F_REPLACEMENT = 16,
    F_STOP = 32, F_METRICS = 64, F_EXCEPTION = 128
};

struct StopSpec {
    int kind = 0;              // 0 none, 1 evals, 2 value, 3 mean stall, 4 best stall, 5 AND, 6 OR, 7 NOT, 8 user lambda
    size_t n = 0; double delta = 0; Fit threshold; int which = 0;
    std::shared_ptr<StopSpec> a, b;
};

struct Problem {
    uint64_t fseed = 1; int kind = 0; int nobj = 1; size_t len = 4; bool dynamic = false;
    double scale = 1;
    std::vector<double> lb, ub;          // bounded encodings
    size_t gens = 3; bool explicit_gens = true;
    std::vector<Chrom> initial; bool resume = false;   // resume: the initial candidates are already evaluated, as those of an earlier run
    Enc enc = BIN; bool var = false;     // var: chromosomes of different lengths
    Fit value(const Chrom& c, uint64_t epoch) const;
};

struct Config {
    Enc enc = BIN; size_t pop = 6;
    Algo algo = A_DEFAULT; Sel sel = S_TOURNAMENT; Repl repl = R_BEST; size_t elite = 1; int refgen = 0;
    bool default_ops = false;            // constructor without operators: defaults derived from the problem
    int big = 0;                         // large population, chromosomes or number of generations
    int path = 0;                        // how the GA object is constructed
    bool default_pm = false, explicit_pm = false;  // callable mutation without a set rate; default operators with a set mutation rate
    int cx = 0, mut = 0; double pc = 0.8, pm = 0.2; double cxp = 0.5, mutp = 0.5; size_t npoint = 2;
    Repair repair = REP_NONE; size_t cache = 0; bool keep_all = false;
    StopSpec stop; bool user_stop_lambda = false;
    uint32_t metrics = 0;                // bit mask
    size_t max_gen = 4;
    bool var = false;                    // user encoding: chromosomes of different lengths
    bool user_rng = false;               // user functions draw random numbers
    bool nested = false;                 // user functions run another GA
    int proto = 0;                       // 1: user defined algorithm, 2: user defined selection and replacement methods (around the built-in ones)
    std::string describe() const; 
};
std::string describe(const Problem&);
Config  random_config(Prng& p, int nobj);
Problem random_problem(Prng& p, const Config& c, int nobj, bool allow_dynamic);
int     random_nobj(Prng& p);

struct UserErr { int n; };

struct Cand { Chrom chrom; Fit fit; bool evaluated; bool operator==(const Cand& o) const { return chrom == o.chrom && fit == o.fit; } };

struct Gen {
    std::vector<Cand> pop; std::vector<Fit> fmat; size_t evals = 0;
    std::vector<Cand> evaluated;         // fitness calls since the previous generation
    std::vector<Chrom> repaired;         // children as returned by the repair function
    uint64_t epoch = 0;
};

// per-metric copies of what the library recorded
struct MetricData {
    std::vector<Fit> fmin, fmax, fmean, fvar, fstd, nadir; std::vector<double> hv, autohv; std::vector<size_t> evals; uint32_t present = 0;
    size_t n_min = 0, n_max = 0, n_mean = 0, n_var = 0, n_std = 0, n_nadir = 0, n_hv = 0, n_auto = 0, n_evals = 0;
};

struct Obs;
// Bracket of one call of user supplied code.
enum Fn { FN_FITNESS, FN_REPAIR, FN_CROSSOVER, FN_MUTATION, FN_CALLBACK, FN_METRIC, FN_STOP, FN_SELECT, FN_REPLACE, FN_GENERATE, FN_COUNT };
struct UserCall { Obs& o; Fn fn; UserCall(Obs& o, Fn fn); ~UserCall(); UserCall(const UserCall&) = delete; };

struct Obs {
    const Config* cfg = nullptr; const Problem* prob = nullptr;
    uint32_t flags = 0; double p_throw = 0; double p_yield = 0.1; uint32_t throw_mask = ~0u;
    // state of the current solve call
    bool running = false, inside = false; int solver_tid = -1; int active = 0; int active_worker = 0; int thrown = 0; std::vector<int> thrown_ids;
    uint64_t epoch = 0; uint64_t fitness_calls = 0, calls_at_gen = 0;
    std::vector<Gen> gens; Gen cur;
    int callbacks = 0, metric_updates = 0, metric_inits = 0, stops = 0; bool stop_true = false; int stop_inits = 0; int ga_inits = 0, generated = 0;
    int alg_inits = 0, alg_prepares = 0, alg_nexts = 0; size_t alg_selects = 0;   // user defined algorithms and methods
    std::vector<Chrom> replaced_expect; bool have_expect = false; std::vector<Fit> replace_fmat;
    std::set<Chrom> cached_all; bool cache_pending = false;
    std::vector<std::vector<bool>> shown;    // user lambda stop parts
    uint64_t draw_digest = 0;
    Digest digest;
    size_t expected_max_gen = 0;
    size_t last_stop_completed = 0;

    void begin_solve(const Config& c, const Problem& p);
    void end_solve(bool threw);
    void maybe_throw(Fn fn);
    void well_formed(const Chrom& c, const char* where);
    Fit  on_fitness(const Chrom& c);                       // under UserCall
    void on_generation(const gapp::GaInfo& ga, std::vector<Cand> pop, const std::function<MetricData()>& md);
    void on_metric(const gapp::GaInfo& ga);
    void on_alg_init(const gapp::GaInfo& ga); void on_alg_prepare(const gapp::GaInfo& ga, const gapp::FitnessMatrix& f); void on_alg_select(const gapp::FitnessMatrix& f); void on_alg_next(const gapp::FitnessMatrix& f);
    void on_stop(const gapp::GaInfo& ga, bool result, size_t max_gen);
    void check_solutions(const std::vector<Cand>& sols, const std::vector<Cand>& getter);
    void check_replacement(const Gen& prev, const Gen& now);
    void check_metrics(const MetricData& md);
    void add_digest();
};

// oracles
bool dominates(const Fit& a, const Fit& b);                // a dominates b
std::vector<size_t> naive_ranks(const std::vector<Fit>& f);
double naive_hypervolume(std::vector<Fit> pts, const Fit& ref);
bool close(double a, double b, double tol = 1e-9);
bool eval_stop_oracle(const StopSpec& s, const std::vector<Gen>& gens);   // state recomputed from the whole history
std::string str(const Fit& f);

// a GA object of the library together with its instrumentation
struct Result { bool threw = false; bool user = false, oom = false; int id = 0; std::vector<Cand> sols; };
struct Box {
    virtual ~Box() = default;
    virtual Result solve(const Problem& p) = 0;            // runs on the calling thread; catches what solve throws
    virtual size_t max_gen() const = 0;
    virtual void reconfigure(const Config& to, Prng p, bool fail) = 0;   // with setters, in a generated order; fail: while allocations fail
    virtual void move_object(int how) = 0;
    virtual void check_settings(const Problem* solved) = 0;
    Obs* obs = nullptr; Config cfg;
};
std::unique_ptr<Box> make_bin(const Config& c, Obs* o);
std::unique_ptr<Box> make_int(const Config& c, Obs* o);
std::unique_ptr<Box> make_perm(const Config& c, Obs* o);
std::unique_ptr<Box> make_real(const Config& c, Obs* o);
std::unique_ptr<Box> make_cust(const Config& c, Obs* o);
std::unique_ptr<Box> make_box(const Config& c, Obs* o);

// stop conditions / metrics / algorithms shared by all encodings
std::unique_ptr<gapp::stopping::StopCondition> make_stop(const StopSpec& s, Obs* o);
std::unique_ptr<gapp::stopping::StopCondition> wrap_stop(const Config& c, Obs* o);
std::unique_ptr<gapp::algorithm::Algorithm> make_algorithm(const Config& c, Obs* o, int nobj);
void set_metrics(gapp::GaInfo& ga, const Config& c, Obs* o, int nobj);
MetricData get_metrics(const gapp::GaInfo& ga);

enum { M_BASIC = 1, M_STATS = 2, M_NADIR = 4, M_HV = 8, M_AUTOHV = 16 };

void warm_up();          // every execution thread draws once, in a fixed order
void set_threads(size_t n);
size_t random_threads(Prng& p);

} // namespace sim
