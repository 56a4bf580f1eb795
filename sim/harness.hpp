// Scenario registry and helpers shared by all simulated workloads.
#pragma once
#include "rt.h"
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <vector>
#include <string>

struct Prng {
    uint64_t s;
    explicit Prng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
    bool chance(double p) { return (double)(next() >> 11) * 0x1p-53 < p; }
    double real() { return (double)(next() >> 11) * 0x1p-53; }
    double real(double a, double b) { return a + (b - a) * real(); }
};

struct Ctx {
    uint64_t wseed = 0;       // seed of the workload (independent of the schedule)
    Prng rng;                 // workload choices
    bool reference = false;   // this is the undisturbed reference execution of the workload
    bool has_ref = false; uint64_t ref_digest = 0; const char* ref_text = "";
    SimConfig cfg{};
    bool thorough = false;
    std::string text;         // human readable description of the workload
};

struct Scenario {
    const char* prop; const char* name; double weight; bool needs_ref;
    void (*setup)(Ctx&);      // chooses fault kinds; runs in the driver, before the run
    void (*run)(Ctx&);        // runs inside the simulation
    const char* about;
};
std::vector<Scenario>& scenarios();
struct Register { Register(Scenario s) { scenarios().push_back(s); } };
#define SCENARIO(PROP, NAME, WEIGHT, REF, SETUP, ABOUT) \
    static void run_##PROP##_##NAME(Ctx& ctx); \
    static Register reg_##PROP##_##NAME(Scenario{ #PROP, #NAME, WEIGHT, REF, SETUP, run_##PROP##_##NAME, ABOUT }); \
    static void run_##PROP##_##NAME(Ctx& ctx)

const char* probe_name(int i);
int  probe_id(const char* name);     // stable within one executable
#define PROBE(name) do { static const int id_ = probe_id(name); sim_probe(id_); } while (0)

[[noreturn]] void failf(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(cond, cls, ...) do { if (!(cond)) { sim_quiet_enter(); failf(cls, __VA_ARGS__); } } while (0)

void workload(const std::string& text);          // describes the generated workload (evidence and reports)

struct Digest {
    uint64_t h = 0xcbf29ce484222325ull; std::string text;
    void add(uint64_t v) { h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 31; }
    void add(double d) { if (d == 0) d = 0; uint64_t u; std::memcpy(&u, &d, 8); add(u); }
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
};
void publish_digest(const Digest& d);            // reference run: store it; other runs: fails with `cls` when it differs
void compare_digest(Ctx& ctx, const Digest& d, const char* cls);
