// Driver: forks one child per simulated run, collects outcomes, minimises and replays failures.
#include "harness.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <cstdlib>
#include <cerrno>
#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>
#include <time.h>

std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
static std::vector<std::string>& probe_names() { static std::vector<std::string> s; return s; }
static char (*g_probe_shared)[48] = nullptr;
static char* g_work = nullptr;
static constexpr size_t WORK_MAX = 6000;
void workload(const std::string& s)
{
    NoSim _;
    size_t n = std::strlen(g_work);
    std::snprintf(g_work + n, WORK_MAX - n, "%s%s", n ? "; " : "", s.c_str());
}
int probe_id(const char* name)
{
    NoSim _;
    for (int i = 0; i < SIM_PROBES; i++)
    {
        if (!g_probe_shared) return 0;
        if (g_probe_shared[i][0] == 0) { std::snprintf(g_probe_shared[i], 48, "%s", name); return i; }
        if (!std::strcmp(g_probe_shared[i], name)) return i;
    }
    return SIM_PROBES - 1;
}
const char* probe_name(int i) { return g_probe_shared[i]; }

void failf(const char* cls, const char* fmt, ...)
{
    sim_quiet_enter();
    char b[2600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    sim_fail(cls, b);
    abort();
}
void Digest::note(const char* fmt, ...)
{
    char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (text.size() < 3900) text += b;
}

static SimResult* g_res = nullptr;
static SimResult* g_ref = nullptr;
void publish_digest(const Digest& d) { g_res->digest = d.h; std::snprintf(g_res->digest_text, sizeof g_res->digest_text, "%s", d.text.c_str()); }
void compare_digest(Ctx& ctx, const Digest& d, const char* cls)
{
    NoSim _;
    publish_digest(d);
    if (ctx.reference || !ctx.has_ref) return;
    if (d.h != ctx.ref_digest)
    {
        const char* a = ctx.ref_text; const char* b = g_res->digest_text;
        size_t k = 0; while (a[k] && a[k] == b[k]) k++;
        size_t from = k > 60 ? k - 60 : 0;
        failf(cls, "the run differs from the reference execution of the same workload; reference: ...%.300s | this run: ...%.300s", a + from, b + from);
    }
}

static uint64_t mix(uint64_t a, uint64_t b) { Prng p(a * 0x9E3779B97F4A7C15ull + b); p.next(); return p.next() ^ b; }
static uint64_t shash(const char* s) { uint64_t h = 1469598103934665603ull; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; } return h; }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void default_cfg(SimConfig& c, uint64_t sseed)
{
    Prng p(sseed);
    std::memset(&c, 0, sizeof c);
    c.seed = p.next();
    static const uint32_t strat[] = { SIM_S_RANDOM, SIM_S_RANDOM, SIM_S_PCT, SIM_S_PCT, SIM_S_STARVE, SIM_S_ROUNDROBIN, SIM_S_BURST, SIM_S_BURST };
    c.strategy = strat[p.below(8)];
    static const double ps[] = { 0.02, 0.1, 0.3, 0.7 };
    c.p_switch = ps[p.below(4)];
    c.pct_depth = 1 + (uint32_t)p.below(12);
    c.pct_len = 1ull << (5 + p.below(11));
    c.quantum = 1u << p.below(8);
    static const uint64_t mp[] = { 0, 0, 30, 300, 3000, 20000 };
    c.mem_period = mp[p.below(6)];
    static const double st[] = { 0, 0.05, 0.3, 0.6 };
    c.p_stale = st[p.below(4)];
    static const double sp[] = { 0, 0.01, 0.1 };
    c.p_spurious = sp[p.below(3)];
    c.p_casfail = p.chance(0.5) ? 0.1 : 0;
    c.nprocs = 1;
    c.race = 0;
    c.soft_steps = 200000; c.hard_steps = 400000;
    c.env = p.next() >> 1;
}

static int g_errfd = -1;
static bool g_thorough = false;
static std::string g_only;

struct Plan { const Scenario* sc; uint64_t wseed, sseed; };
static bool make_plan(const char* prop, uint64_t seed, uint64_t index, Plan& pl)
{
    uint64_t rs = mix(mix(seed, shash(prop)), index);
    double tot = 0;
    std::vector<const Scenario*> v;
    for (auto& s : scenarios()) if (!std::strcmp(s.prop, prop) && (g_only.empty() || g_only == s.name)) { v.push_back(&s); tot += s.weight; }
    if (v.empty()) return false;
    std::sort(v.begin(), v.end(), [](auto a, auto b) { return std::strcmp(a->name, b->name) < 0; });
    Prng p(rs);
    double x = p.real() * tot;
    pl.sc = v.back();
    for (auto s : v) { if (x < s->weight) { pl.sc = s; break; } x -= s->weight; }
    pl.wseed = p.next(); pl.sseed = p.next();
    return true;
}

struct RunOut { uint32_t outcome; std::string cls, msg; uint64_t hash, sched_hash, steps; };

static void child_main(const Plan& pl, bool reference, const SimDecision* dec, uint64_t ndec, bool replay)
{
    static Ctx ctx;
    ctx.wseed = pl.wseed; ctx.rng = Prng(pl.wseed); ctx.reference = reference; ctx.thorough = g_thorough;
    default_cfg(ctx.cfg, pl.sseed);
    if (pl.sc->setup) pl.sc->setup(ctx);
    if (reference)
    {
        SimConfig& c = ctx.cfg; c.strategy = SIM_S_DEFAULT; c.mem_period = 0; c.p_stale = c.p_spurious = c.p_casfail = c.p_alloc = c.p_create = c.p_rng = 0; c.alloc_at = c.create_at = 0; c.race = 0; c.env = 0;
    }
    else if (g_ref->outcome == SIM_OK) { ctx.has_ref = pl.sc->needs_ref; ctx.ref_digest = g_ref->digest; ctx.ref_text = g_ref->digest_text; }
    if (replay) { ctx.cfg.replay = dec; ctx.cfg.replay_len = ndec; ctx.cfg.replay_mode = 1; }
    static const Scenario* sc; sc = pl.sc;
    // a run that stops reaching scheduling points burns processor time; the wall-clock limit is only for one that blocks
    struct itimerval it = {}; it.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &it, nullptr);
    alarm(100);
    sim_run(&ctx.cfg, [](void* p) { sc->run(*(Ctx*)p); }, &ctx);
    _exit(96);
}

static void clear_result(SimResult* r)
{
    uint64_t n = r->ndecisions; if (n > SIM_MAX_DECISIONS) n = SIM_MAX_DECISIONS;
    std::memset((void*)r, 0, offsetof(SimResult, decisions) + n * sizeof(SimDecision));
}

static void fork_run(const Plan& pl, bool reference, const SimDecision* dec, uint64_t ndec, bool replay, SimResult* into, RunOut& out)
{
    clear_result(into);
    g_work[0] = 0;
    if (ftruncate(g_errfd, 0)) {} lseek(g_errfd, 0, SEEK_SET);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(g_errfd, 2);
        g_res = into;
        sim_init_shared(into);
        child_main(pl, reference, dec, ndec, replay);
        _exit(95);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} // the child has an alarm
    out.outcome = into->outcome;
    if (out.outcome == SIM_RUNNING)
    {
        out.outcome = SIM_VIOLATION;
        if (WIFSIGNALED(st)) std::snprintf(into->cls, sizeof into->cls, "crash-signal-%d", WTERMSIG(st));
        else std::snprintf(into->cls, sizeof into->cls, "exit-%d", WEXITSTATUS(st));
        std::snprintf(into->msg, sizeof into->msg, "the simulated process died");
    }
    out.cls = into->cls; out.msg = into->msg; out.hash = into->hash; out.sched_hash = into->sched_hash; out.steps = into->steps;
    if (out.outcome == SIM_VIOLATION || out.outcome == SIM_ERROR)
    {
        char b[600]; lseek(g_errfd, 0, SEEK_SET); ssize_t n = read(g_errfd, b, sizeof b - 1);
        if (n > 0) { b[n] = 0; for (char* c = b; *c; c++) if (*c == '\n' || *c == '"' || *c == '\\') *c = ' '; out.msg += " | stderr: "; out.msg += b; }
    }
}

static void full_run(const Plan& pl, const SimDecision* dec, uint64_t ndec, bool replay, RunOut& out)
{
    g_ref->outcome = 0;
    if (pl.sc->needs_ref)
    {
        RunOut ro;
        fork_run(pl, true, nullptr, 0, false, g_ref, ro);
        if (ro.outcome == SIM_VIOLATION || ro.outcome == SIM_ERROR) // the undisturbed execution itself fails
        {
            out = ro; out.cls = "reference-" + ro.cls;
            std::memcpy((void*)g_res, (void*)g_ref, offsetof(SimResult, decisions)); g_res->ndecisions = 0;
            return;
        }
    }
    SimResult* r = g_res;
    fork_run(pl, false, dec, ndec, replay, r, out);
}

static std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) o += ' '; else o += (char)c; }
    return o;
}
static const char* kind_names[] = { "switch", "preempt", "resume", "stale-read", "spurious-wakeup", "notify-choice", "weak-cas-failure", "alloc-failure", "thread-create-failure", "user-exception", "rng-extreme", "timeout" };

static void print_out(FILE* f, const char* prop, uint64_t seed, uint64_t index, const Plan& pl, const RunOut& o, const SimResult* r, bool decisions)
{
    fprintf(f, "{\"prop\":\"%s\",\"seed\":%llu,\"index\":%llu,\"scenario\":\"%s\",\"outcome\":%u,\"cls\":\"%s\",\"msg\":\"%s\",\"workload\":\"%s\",\"hash\":\"%016llx\",\"sched_hash\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"accesses\":%llu,\"threads\":%llu,\"ndecisions\":%llu",
        prop, (unsigned long long)seed, (unsigned long long)index, pl.sc->name, o.outcome, jesc(o.cls).c_str(), jesc(o.msg).c_str(), jesc(g_work).c_str(), (unsigned long long)o.hash, (unsigned long long)o.sched_hash,
        (unsigned long long)r->steps, (unsigned long long)r->switches, (unsigned long long)r->accesses, (unsigned long long)r->threads, (unsigned long long)r->ndecisions);
    if (decisions)
    {
        fprintf(f, ",\"decisions\":[");
        uint64_t n = std::min<uint64_t>(r->ndecisions, SIM_MAX_DECISIONS);
        for (uint64_t i = 0; i < n; i++) fprintf(f, "%s[%u,%u,%llu,%llu]", i ? "," : "", r->decisions[i].tid, r->decisions[i].kind, (unsigned long long)r->decisions[i].idx, (unsigned long long)r->decisions[i].value);
        fprintf(f, "]");
    }
    fprintf(f, "}\n");
}

static bool load_decisions(const char* path, std::vector<SimDecision>& v)
{
    FILE* f = fopen(path, "r"); if (!f) return false;
    unsigned a, b; unsigned long long c, d;
    while (fscanf(f, "%u %u %llu %llu", &a, &b, &c, &d) == 4) v.push_back({ a, b, c, d });
    fclose(f); return true;
}

int main(int argc, char** argv)
{
    std::map<std::string, std::string> a;
    std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i] + 2] = argv[i + 1];
    auto num = [&](const char* k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
    auto unum = [&](const char* k, uint64_t d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 10) : d; };
    if (mode == "list") { for (auto& s : scenarios()) printf("%s %s %g %s\n", s.prop, s.name, s.weight, s.about); return 0; }
    std::string prop = a["prop"]; uint64_t seed = unum("seed", 1);
    g_thorough = a["tier"] == "thorough";
    g_only = a["only"];
    int cpu = (int)num("cpu", 0);
    {
        cpu_set_t avail; CPU_ZERO(&avail); sched_getaffinity(0, sizeof avail, &avail);
        int n = 0; std::vector<int> l; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &avail)) { l.push_back(i); n++; }
        cpu_set_t s; CPU_ZERO(&s); CPU_SET(l[(size_t)cpu % l.size()], &s); sched_setaffinity(0, sizeof s, &s);
    }
    auto share = [](size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(97); } return p; };
    g_res = (SimResult*)share(sizeof(SimResult)); g_ref = (SimResult*)share(sizeof(SimResult));
    g_probe_shared = (char(*)[48])share(SIM_PROBES * 48);
    g_work = (char*)share(WORK_MAX);
    g_errfd = memfd_create("err", 0);
    struct rlimit rl { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    FILE* out = a.count("out") ? fopen(a["out"].c_str(), "w") : stdout;
    if (!out) { perror("out"); return 97; }

    if (mode == "one")
    {
        Plan pl; if (!make_plan(prop.c_str(), seed, unum("index", 0), pl)) { fprintf(stderr, "no scenario\n"); return 97; }
        std::vector<SimDecision> dec; bool replay = a.count("replay");
        if (replay && !load_decisions(a["replay"].c_str(), dec)) { fprintf(stderr, "cannot read decisions\n"); return 97; }
        int n = (int)num("repeat", 1);
        for (int i = 0; i < n; i++)
        {
            RunOut o; full_run(pl, dec.data(), dec.size(), replay, o);
            print_out(out, prop.c_str(), seed, unum("index", 0), pl, o, g_res, a.count("dump"));
            if (a.count("digest")) fprintf(out, "%s\n", g_res->digest_text);
        }
        fflush(out);
        return 0;
    }
    if (mode == "minimize")
    {
        Plan pl; if (!make_plan(prop.c_str(), seed, unum("index", 0), pl)) return 97;
        RunOut o; full_run(pl, nullptr, 0, false, o);
        if (o.outcome != SIM_VIOLATION) { fprintf(stderr, "no violation to minimise\n"); return 98; }
        std::string cls = o.cls;
        uint64_t n0 = g_res->ndecisions;
        std::vector<SimDecision> cur(g_res->decisions, g_res->decisions + std::min<uint64_t>(n0, SIM_MAX_DECISIONS));
        double t0 = now(), budget = num("time", 60); int tries = 0;
        auto fails = [&](const std::vector<SimDecision>& d) { RunOut q; tries++; full_run(pl, d.data(), d.size(), true, q); return q.outcome == SIM_VIOLATION && q.cls == cls; };
        bool exact = n0 <= SIM_MAX_DECISIONS && fails(cur);
        if (exact)
        {
            std::vector<SimDecision> none;
            if (fails(none)) cur.clear();
            // drop whole kinds first
            for (uint32_t k = 0; k < SIM_D_KINDS && !cur.empty(); k++)
            {
                std::vector<SimDecision> t; for (auto& d : cur) if (d.kind != k) t.push_back(d);
                if (t.size() != cur.size() && fails(t)) cur = t;
            }
            size_t chunk = std::max<size_t>(1, cur.size() / 2);
            while (!cur.empty() && now() - t0 < budget)
            {
                bool any = false;
                for (size_t i = 0; i < cur.size() && now() - t0 < budget;)
                {
                    std::vector<SimDecision> t(cur.begin(), cur.begin() + (long)i);
                    size_t e = std::min(cur.size(), i + chunk);
                    t.insert(t.end(), cur.begin() + (long)e, cur.end());
                    if (fails(t)) { cur = t; any = true; } else i += chunk;
                }
                if (chunk == 1) { if (!any) break; } else chunk = std::max<size_t>(1, chunk / 2);
            }
        }
        RunOut f; full_run(pl, cur.data(), cur.size(), exact, f);
        print_out(out, prop.c_str(), seed, unum("index", 0), pl, f, g_res, false);
        fprintf(out, "{\"exact\":%s,\"tries\":%d,\"original\":%llu,\"minimised\":[", exact ? "true" : "false", tries, (unsigned long long)n0);
        for (size_t i = 0; i < cur.size(); i++) fprintf(out, "%s[%u,%u,%llu,%llu]", i ? "," : "", cur[i].tid, cur[i].kind, (unsigned long long)cur[i].idx, (unsigned long long)cur[i].value);
        fprintf(out, "]}\n"); fflush(out);
        return 0;
    }
    if (mode != "batch") { fprintf(stderr, "usage: batch|one|minimize|list\n"); return 97; }

    double t0 = now(), limit = num("time", 10);
    uint64_t from = unum("from", 0), stride = unum("stride", 1), maxn = unum("max", ~0ull), maxviol = unum("maxviol", 2);
    uint64_t runs = 0, ok = 0, skip = 0, viol = 0, errs = 0, steps = 0, switches = 0, accesses = 0, vtime = 0, rng = 0, allocs = 0, fired[SIM_D_KINDS] = {}, fruns[SIM_D_KINDS] = {}, nondet = 0, unconfirmed = 0, verified = 0, maxthr = 0;
    std::vector<uint64_t> probes(SIM_PROBES);
    std::set<uint64_t> hashes; std::map<std::string, uint64_t> bysc; std::map<std::string, std::pair<uint64_t, std::string>> fails;
    std::vector<std::string> lines, errlines, samples;
    uint64_t det_every = unum("det", 97);
    uint64_t idx = from;
    const char* stop = a.count("stop") ? a["stop"].c_str() : nullptr;
    for (; runs < maxn && now() - t0 < limit && !(stop && access(stop, F_OK) == 0); idx += stride)
    {
        Plan pl; if (!make_plan(prop.c_str(), seed, idx, pl)) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 97; }
        RunOut o; full_run(pl, nullptr, 0, false, o);
        runs++; bysc[pl.sc->name]++;
        SimResult* r = g_res;
        steps += r->steps; switches += r->switches; accesses += r->accesses; vtime += r->vtime; rng += r->rng_draws; allocs += r->allocs; maxthr = std::max(maxthr, r->threads);
        for (int k = 0; k < SIM_D_KINDS; k++) { fired[k] += r->fired[k]; fruns[k] += r->fired[k] != 0; }
        for (int k = 0; k < SIM_PROBES; k++) probes[k] += r->probes[k] != 0;
        hashes.insert(r->sched_hash ^ shash(pl.sc->name));
        if (samples.size() < 3 && o.outcome == SIM_OK && r->switches) samples.push_back(std::string(pl.sc->name) + " run #" + std::to_string(idx) + ": " + std::to_string(r->threads) + " threads, " + std::to_string(r->steps) + " steps, " + std::to_string(r->switches) + " switches, " + std::to_string(r->ndecisions) + " decisions; " + g_work);
        if (o.outcome == SIM_OK) ok++;
        else if (o.outcome == SIM_SKIP) { skip++; std::string key = std::string("skip:") + pl.sc->name + ":" + o.msg; bysc[key]++; }
        else if (o.outcome == SIM_ERROR) { errs++; if (errlines.size() < 5) errlines.push_back(std::string(pl.sc->name) + " #" + std::to_string(idx) + ": " + o.msg); }
        else
        {
            // gate: the same seed must reproduce the same event log twice
            RunOut o2, o3; full_run(pl, nullptr, 0, false, o2); full_run(pl, nullptr, 0, false, o3);
            bool hang = o.cls == "hang" || o.cls == "reference-hang";
            bool same = o2.cls == o.cls && o3.cls == o.cls && ((o.hash == o2.hash && o.hash == o3.hash) || hang);
            if (!same && hang) { unconfirmed++; continue; } // a starved process, not the program
            if (!same) { nondet++; if (errlines.size() < 5) errlines.push_back(std::string("not reproducible: ") + pl.sc->name + " #" + std::to_string(idx) + " " + o.cls + " / " + o2.cls + " / " + o3.cls + ": " + o.msg); }
            else
            {
                viol++;
                char* buf = nullptr; size_t len = 0; FILE* m = open_memstream(&buf, &len);
                print_out(m, prop.c_str(), seed, idx, pl, o, r, false); fclose(m);
                lines.push_back(std::string(buf, len));
                if (viol >= maxviol) break;
            }
        }
        if (det_every && o.outcome == SIM_OK && runs % det_every == 1)
        {
            uint64_t h = o.hash, d = r->digest;
            RunOut o2; full_run(pl, nullptr, 0, false, o2); verified++;
            if (o2.cls == "hang" || o2.cls == "reference-hang") unconfirmed++;
            else if (o2.hash != h || g_res->digest != d || o2.outcome != SIM_OK) { nondet++; if (errlines.size() < 5) errlines.push_back(std::string("not deterministic: ") + pl.sc->name + " #" + std::to_string(idx)); }
        }
    }
    fprintf(out, "{\"runs\":%llu,\"ok\":%llu,\"skip\":%llu,\"errors\":%llu,\"violations\":%llu,\"nondet\":%llu,\"unconfirmed\":%llu,\"det_verified\":%llu,\"steps\":%llu,\"switches\":%llu,\"accesses\":%llu,\"vtime\":%llu,\"rng_draws\":%llu,\"allocs\":%llu,\"max_threads\":%llu,\"distinct\":%zu,\"wall\":%.3f",
        (unsigned long long)runs, (unsigned long long)ok, (unsigned long long)skip, (unsigned long long)errs, (unsigned long long)viol, (unsigned long long)nondet, (unsigned long long)unconfirmed, (unsigned long long)verified, (unsigned long long)steps, (unsigned long long)switches, (unsigned long long)accesses, (unsigned long long)vtime, (unsigned long long)rng, (unsigned long long)allocs, (unsigned long long)maxthr, hashes.size(), now() - t0);
    fprintf(out, ",\"fired\":{"); for (int k = 0; k < SIM_D_KINDS; k++) fprintf(out, "%s\"%s\":[%llu,%llu]", k ? "," : "", kind_names[k], (unsigned long long)fired[k], (unsigned long long)fruns[k]);
    fprintf(out, "},\"scenarios\":{"); bool first = true; for (auto& [k, v] : bysc) { fprintf(out, "%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v); first = false; }
    fprintf(out, "},\"probes\":{"); first = true; for (int k = 0; k < SIM_PROBES; k++) if (g_probe_shared[k][0]) { fprintf(out, "%s\"%s\":%llu", first ? "" : ",", jesc(g_probe_shared[k]).c_str(), (unsigned long long)probes[k]); first = false; }
    fprintf(out, "},\"error_lines\":["); first = true; for (auto& e : errlines) { fprintf(out, "%s\"%s\"", first ? "" : ",", jesc(e).c_str()); first = false; }
    fprintf(out, "],\"samples\":["); first = true; for (auto& e : samples) { fprintf(out, "%s\"%s\"", first ? "" : ",", jesc(e).c_str()); first = false; }
    fprintf(out, "],\"found\":["); first = true; for (auto& l : lines) { fprintf(out, "%s%s", first ? "" : ",", l.c_str()); first = false; }
    fprintf(out, "],\"hashes\":["); first = true; size_t hn = 0; for (auto h : hashes) { if (hn++ >= 200000) break; fprintf(out, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(out, "]}\n");
    fflush(out);
    return 0;
}
