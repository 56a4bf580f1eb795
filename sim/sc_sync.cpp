// C17-C18: locks, latch, task queue and the read-copy-update object.
#include "harness.hpp"
#include <utility/spinlock.hpp>
#include <utility/shared_spinlock.hpp>
#include <utility/latch.hpp>
#include <utility/concurrent_queue.hpp>
#include <utility/rcu.hpp>
#include <thread>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <algorithm>
#include <unordered_set>
#include <deque>

using namespace gapp;

namespace {

void setup_sync(Ctx& c) { c.cfg.race = 1; c.cfg.soft_steps = 20000; c.cfg.hard_steps = 200000; }

// ---------------------------------------------------------------- spinlock
SCENARIO(C17, spinlock, 2, false, setup_sync, "mutual exclusion and visibility of the exclusive lock, lock and try_lock mixed")
{
    Prng& p = ctx.rng;
    detail::spinlock lock;
    long a = 0, b = 0;             // only touched inside of the lock; watched by the race detector
    int inside = 0; long total = 0;
    int n = p.range(2, 5), ops = p.range(1, 6);
    double ptry = p.chance(0.5) ? 0.4 : 0;
    std::vector<std::thread> ts;
    for (int t = 0; t < n; t++)
    {
        uint64_t seed = p.next();
        ts.emplace_back([&, seed]
        {
            Prng q(seed);
            for (int i = 0; i < ops; i++)
            {
                bool tr = q.chance(ptry), yield = q.chance(0.5);
                if (tr) { if (!lock.try_lock()) { PROBE("try_lock failed"); continue; } }
                else lock.lock();
                { NoSim _; if (inside++) failf("not-exclusive", "two threads hold the spinlock"); total++; }
                long x = a, y = b;
                CHECK(x == 2 * y, "stale-data", "a critical section does not see the complete effect of the previous one");
                a = x + 2;
                if (yield) sim_yield();
                b = y + 1;
                { NoSim _; inside--; }
                lock.unlock();
            }
        });
    }
    for (auto& t : ts) t.join();
    CHECK(b == total && a == 2 * total, "lost-update", "%ld critical sections ran but the counter is %ld", total, b);
    CHECK(lock.try_lock(), "not-released", "the lock is still taken after every holder released it");
    CHECK(!lock.try_lock(), "not-exclusive", "try_lock succeeded on a lock that is held");
    lock.unlock();
}

// ---------------------------------------------------------------- shared spinlock
SCENARIO(C17, shared_spinlock, 3, false, setup_sync, "readers or one writer, visibility and progress of the shared lock, all lock functions mixed")
{
    Prng& p = ctx.rng;
    detail::shared_spinlock lock;
    long a = 0, b = 0, writes = 0;
    int readers = 0, writers = 0, max_readers = 0;
    int n = p.range(2, 5), ops = p.range(1, 5);
    double pw = p.chance(0.3) ? 1.0 : p.real(0.2, 0.7), ptry = p.chance(0.5) ? 0.4 : 0;
    std::vector<std::thread> ts;
    for (int t = 0; t < n; t++)
    {
        uint64_t seed = p.next();
        ts.emplace_back([&, seed]
        {
            Prng q(seed);
            for (int i = 0; i < ops; i++)
            {
                bool w = q.chance(pw), tr = q.chance(ptry), yield = q.chance(0.6);
                if (w)
                {
                    if (tr) { if (!lock.try_lock()) { PROBE("try_lock failed"); continue; } } else lock.lock();
                    { NoSim _; if (writers++ || readers) failf("not-exclusive", "a writer holds the lock together with %d writers and %d readers", writers - 1, readers); writes++; }
                    long x = a, y = b;
                    CHECK(x == 2 * y, "stale-data", "a writer sees a half-done update");
                    a = x + 2; if (yield) sim_yield(); b = y + 1;
                    { NoSim _; writers--; }
                    lock.unlock();
                }
                else
                {
                    if (tr) { if (!lock.try_lock_shared()) { PROBE("try_lock_shared failed"); continue; } } else lock.lock_shared();
                    { NoSim _; readers++; if (writers) failf("not-exclusive", "a reader holds the lock together with a writer"); max_readers = std::max(max_readers, readers); if (max_readers > 1) PROBE("readers overlap"); }
                    long x = a; if (yield) sim_yield(); long y = b;
                    CHECK(x == 2 * y, "stale-data", "a reader sees a half-done update: %ld %ld", x, y);
                    { NoSim _; readers--; if (writers) failf("not-exclusive", "a writer got the lock while a reader holds it"); }
                    lock.unlock_shared();
                }
            }
        });
    }
    for (auto& t : ts) t.join();
    CHECK(b == writes, "lost-update", "%ld write sections ran but the counter is %ld", writes, b);
    CHECK(lock.try_lock(), "not-released", "the lock is still taken after every holder released it");
    CHECK(!lock.try_lock_shared(), "not-exclusive", "a reader was admitted next to a writer");
    CHECK(!lock.try_lock(), "not-exclusive", "a second writer was admitted");
    lock.unlock();
    CHECK(lock.try_lock_shared() && lock.try_lock_shared(), "not-released", "the free lock does not admit two readers");
    CHECK(!lock.try_lock(), "not-exclusive", "a writer was admitted next to readers");
    lock.unlock_shared(); lock.unlock_shared();
    CHECK(lock.try_lock(), "not-released", "the lock is still taken after the readers left");
    lock.unlock();
}

// ---------------------------------------------------------------- latch
SCENARIO(C17, latch, 2, false, setup_sync, "waiters return only after all counts, and see everything written before them")
{
    Prng& p = ctx.rng;
    int n = p.range(0, 5), waiters = p.range(1, 3);
    std::vector<uint32_t> cnt; uint32_t total = 0;
    for (int i = 0; i < n; i++) { cnt.push_back((uint32_t)p.range(1, 3)); total += cnt.back(); }
    auto latch = std::make_unique<detail::latch>(total);
    std::vector<long> data((size_t)n + 1, 0);
    uint32_t counted = 0;          // counts whose count_down has at least been called
    std::vector<std::thread> ts;
    for (int i = 0; i < n; i++)
    {
        bool split = p.chance(0.4), one = cnt[(size_t)i] == 1 && p.chance(0.5);
        ts.emplace_back([&, i, split, one]
        {
            uint32_t c = cnt[(size_t)i];
            data[(size_t)i] = i + 100;
            if (split) for (uint32_t k = 0; k < c; k++) { { NoSim _; counted++; } latch->count_down(); }
            else { { NoSim _; counted += c; } if (one) latch->count_down(); else latch->count_down(c); }
        });
    }
    auto check = [&](const char* how)
    {
        { NoSim _; if (counted != total) failf("released-early", "%s returned after %u of %u counts", how, counted, total); }
        for (int i = 0; i < n; i++) { long d = data[(size_t)i]; CHECK(d == i + 100, "stale-data", "%s does not see the write of thread %d", how, i); }
    };
    for (int i = 0; i < waiters; i++)
    {
        bool tr = p.chance(0.4);
        ts.emplace_back([&, tr] { if (tr) { while (!latch->try_wait()) std::this_thread::yield(); check("try_wait"); } else { latch->wait(); check("wait"); } });
    }
    latch->wait();
    check("wait");
    CHECK(latch->try_wait(), "not-released", "try_wait fails after all counts");
    for (auto& t : ts) t.join();
}

// ---------------------------------------------------------------- task queue
struct Op { int kind; int val; int res; uint64_t inv, ret; };   // kind: 0 emplace, 1 take, 2 close, 3 empty, 4 closed
const char* op_name(int k) { static const char* n[] = { "emplace", "take", "close", "empty", "closed" }; return n[k]; }

// Linearizability against a FIFO queue (search over histories of at most 64 operations, with memoisation).
struct QueueLin
{
    const std::vector<Op>& h;
    std::unordered_set<std::string> seen; uint64_t nodes = 0; bool gave_up = false;
    explicit QueueLin(const std::vector<Op>& hist) : h(hist) {}
    bool go(uint64_t done, std::deque<int>& q, bool closed)
    {
        if (done == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) return true;
        if (++nodes > 400000) { gave_up = true; return true; }
        std::string key((const char*)&done, 8); key += (char)closed; for (int v : q) { key += (char)v; }
        if (!seen.insert(key).second) return false;
        uint64_t minret = ~0ull;
        for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1)) minret = std::min(minret, h[i].ret);
        for (size_t i = 0; i < h.size(); i++)
        {
            if ((done >> i & 1) || h[i].inv > minret) continue;
            const Op& o = h[i];
            uint64_t d2 = done | 1ull << i;
            switch (o.kind)
            {
            case 0: if (o.res == 0) { if (closed && go(d2, q, closed)) return true; } else if (!closed) { q.push_back(o.val); if (go(d2, q, closed)) return true; q.pop_back(); } break;
            case 1: if (o.res < 0) { if (closed && q.empty() && go(d2, q, closed)) return true; } else if (!q.empty() && q.front() == o.res) { q.pop_front(); if (go(d2, q, closed)) return true; q.push_front(o.res); } break;
            case 2: if (go(d2, q, true)) return true; break;
            case 3: if ((bool)o.res == q.empty() && go(d2, q, closed)) return true; break;
            case 4: if ((bool)o.res == closed && go(d2, q, closed)) return true; break;
            }
        }
        return false;
    }
};

struct Item { int v; long* payload; };
SCENARIO(C17, queue, 4, false, setup_sync, "histories of emplace/take/close/empty/closed by several producers and consumers are linearizable to a FIFO")
{
    Prng& p = ctx.rng;
    auto queue = std::make_unique<detail::concurrent_queue<Item>>();
    std::vector<std::vector<Op>> hist(12);
    std::vector<long> payload(64, 0);
    int producers = p.range(1, 3), consumers = p.range(1, 3), next = 0;
    std::vector<std::thread> ts;
    // quota: each consumer stops after its share of the elements, and the queue is only closed after that
    bool quota = p.chance(0.35); std::vector<int> share(3), amount(3); int total = 0;
    for (int t = 0; t < producers; t++) { amount[(size_t)t] = p.range(1, 4); total += amount[(size_t)t]; }
    for (int i = 0; i < total; i++) share[(size_t)p.range(0, consumers - 1)]++;
    for (int t = 0; t < producers; t++)
    {
        int n = amount[(size_t)t], base = next; next += n; bool peek = p.chance(0.3);
        ts.emplace_back([&, t, n, base, peek]
        {
            for (int i = 0; i < n; i++)
            {
                payload[(size_t)(base + i)] = base + i + 7;
                Op o{ 0, base + i, 0, sim_seq(), 0 };
                o.res = queue->emplace(Item{ base + i, &payload[(size_t)(base + i)] });
                o.ret = sim_seq(); { NoSim _; hist[(size_t)t].push_back(o); }
                if (peek) { Op e{ 3, 0, 0, sim_seq(), 0 }; e.res = queue->empty(); e.ret = sim_seq(); NoSim _; hist[(size_t)t].push_back(e); }
            }
        });
    }
    for (int t = 0; t < consumers; t++)
    {
        bool peek = p.chance(0.3); size_t slot = (size_t)(producers + t);
        ts.emplace_back([&, t, peek, slot]
        {
            for (int left = quota ? share[(size_t)t] : 1 << 20; left > 0; left--)
            {
                if (peek) { Op e{ 4, 0, 0, sim_seq(), 0 }; e.res = queue->closed(); e.ret = sim_seq(); NoSim _; if (hist[slot].size() < 6) hist[slot].push_back(e); }
                Op o{ 1, 0, -1, sim_seq(), 0 };
                auto r = queue->take();
                o.ret = sim_seq();
                if (r) { o.res = r->v; long d = *r->payload; CHECK(d == r->v + 7, "stale-data", "the consumer does not see what the producer wrote before emplace"); }
                { NoSim _; hist[slot].push_back(o); }
                if (!r) return;
            }
        });
    }
    size_t cs = (size_t)(producers + consumers);
    bool early = p.chance(0.6);
    if (quota) { PROBE("queue consumers with quotas"); for (auto& t : ts) t.join(); CHECK(queue->empty() && !queue->closed(), "not-drained", "elements are left although every one was taken"); }
    else if (!early) for (int i = 0; i < producers; i++) ts[(size_t)i].join();
    int yields = p.range(0, 3); for (int i = 0; i < yields; i++) sim_yield();
    int closes = p.chance(0.3) ? 2 : 1;
    for (int i = 0; i < closes; i++) { Op c{ 2, 0, 0, sim_seq(), 0 }; queue->close(); c.ret = sim_seq(); NoSim _; hist[cs].push_back(c); }
    { Op o{ 0, 50, 0, sim_seq(), 0 }; o.res = queue->emplace(Item{ 50, nullptr }); o.ret = sim_seq(); CHECK(!o.res, "accepted-after-close", "an element was accepted after close() had returned"); NoSim _; hist[cs].push_back(o); }
    for (auto& t : ts) if (t.joinable()) t.join();
    CHECK(queue->empty() && queue->closed(), "not-drained", "elements are left in the closed queue although consumers ran until it was empty");
    NoSim _;
    std::vector<Op> h; for (auto& v : hist) h.insert(h.end(), v.begin(), v.end());
    if (h.size() > 60) sim_skip("history too long");
    std::sort(h.begin(), h.end(), [](const Op& a, const Op& b) { return a.inv < b.inv; });
    std::vector<int> acc, taken;
    for (auto& o : h) { if (o.kind == 0 && o.res) acc.push_back(o.val); if (o.kind == 1 && o.res >= 0) taken.push_back(o.res); }
    std::sort(acc.begin(), acc.end()); std::sort(taken.begin(), taken.end());
    if (acc != taken) failf("not-exactly-once", "%zu elements were accepted, %zu were taken (or one was taken twice)", acc.size(), taken.size());
    QueueLin lin(h); std::deque<int> q;
    if (!lin.go(0, q, false))
    {
        std::string s; char b[64];
        for (auto& o : h) { snprintf(b, sizeof b, "%s(%d)=%d[%llu,%llu] ", op_name(o.kind), o.val, o.res, (unsigned long long)o.inv, (unsigned long long)o.ret); s += b; }
        failf("not-linearizable", "no FIFO order explains the history: %s", s.c_str());
    }
    if (lin.gave_up) PROBE("linearizability search gave up"); else PROBE("history linearized");
    if (early) PROBE("closed while producing");
    for (auto& o : h) if (o.kind == 0 && !o.res && o.val != 50) { PROBE("emplace rejected by racing close"); break; }
}

// ---------------------------------------------------------------- RCU
struct RcuVal
{
    static inline long live = 0, made = 0;
    long ver, a, b; long* heap;
    explicit RcuVal(long v) : ver(v), a(v * 3), b(v * 5), heap(new long(v * 7)) { NoSim _; live++; made++; }
    RcuVal(RcuVal&& o) noexcept : ver(o.ver), a(o.a), b(o.b), heap(o.heap) { o.heap = nullptr; NoSim _; live++; made++; }
    ~RcuVal() { ver = a = b = -1; delete heap; NoSim _; live--; }
};
void setup_rcu(Ctx& c) { setup_sync(c); static const double st[] = { 0, 0.1, 0.4, 0.8 }; c.cfg.p_stale = st[c.rng.below(4)]; c.cfg.race = c.rng.chance(0.5); }

void rcu_run(Ctx& ctx, bool churn)
{
    Prng& p = ctx.rng;
    RcuVal::live = RcuVal::made = 0;
    long nwriters = p.chance(0.7) ? 1 : 2;
    {
        detail::rcu_obj<RcuVal> obj(1L);
        std::unique_ptr<detail::rcu_obj<RcuVal>> other; if (p.chance(0.3)) other = std::make_unique<detail::rcu_obj<RcuVal>>(1L);
        int nreaders = p.range(1, 3), reads = p.range(1, 4), writes = p.range(1, 4);
        std::vector<std::thread> ts;
        auto read = [&](detail::rcu_obj<RcuVal>& o, long& last, int style, bool yield)
        {
            if (style == 0) o.lock_shared(); else if (style == 1) { while (!o.try_lock_shared()) sim_yield(); } else o.lock_shared();
            {
                const RcuVal& v = style == 2 ? *o : o.get();
                long ver = v.ver; if (yield) sim_yield(); long a = v.a, b = v.b, h = *v.heap;
                CHECK(ver > 0 && a == ver * 3 && b == ver * 5 && h == ver * 7, "torn-object", "a reader sees a half-written or destroyed object: version %ld with %ld %ld %ld", ver, a, b, h);
                if (nwriters == 1) { CHECK(ver >= last, "went-back", "a reader sees version %ld after version %ld", ver, last); if (ver > last && last > 0) PROBE("reader saw an update"); last = ver; }
            }
            o.unlock_shared();
        };
        for (int t = 0; t < nreaders; t++)
        {
            uint64_t seed = p.next();
            ts.emplace_back([&, seed]
            {
                Prng q(seed); long last = 0, lasto = 0;
                for (int i = 0; i < reads; i++)
                {
                    if (other && q.chance(0.4)) read(*other, lasto, (int)q.below(3), q.chance(0.5));
                    else read(obj, last, (int)q.below(3), q.chance(0.7));
                    if (churn && q.chance(0.5)) { uint64_t s2 = q.next(); PROBE("reader thread started during run"); std::thread([&, s2] { Prng r(s2); long l = 0; read(obj, l, (int)r.below(3), r.chance(0.5)); }).join(); }
                }
            });
        }
        for (long w = 1; w < nwriters; w++) ts.emplace_back([&] { for (int i = 0; i < writes; i++) obj = RcuVal(100L + i); });
        for (int i = 0; i < writes; i++)
        {
            long v = 2 + i;
            if (other && p.chance(0.3)) *other = RcuVal(v);
            if (p.chance(0.5)) obj = RcuVal(v); else obj = v;
            if (p.chance(0.2)) obj.wait_for_readers();
            if (p.chance(0.3)) { long l = 0; read(obj, l, 0, false); if (nwriters == 1) CHECK(l == v, "own-write-lost", "the writer reads version %ld after storing version %ld", l, v); }
        }
        for (auto& t : ts) t.join();
        CHECK(RcuVal::live == (other ? 2 : 1), "not-freed-once", "%ld objects are alive after the updates, expected only the current ones", RcuVal::live);
    }
    CHECK(RcuVal::live == 0, "not-freed-once", "%ld objects are alive after the shared object was destroyed", RcuVal::live);
}
SCENARIO(C18, readers, 3, false, setup_rcu, "long-lived readers against one or two writers, with the weak memory model of C++ atomics") { rcu_run(ctx, false); }
SCENARIO(C18, churn, 2, false, setup_rcu, "as readers, with reader threads that start and exit while writers synchronize") { rcu_run(ctx, true); }

// the writer returns only when no reader that might hold the old object is left in its section
SCENARIO(C18, grace_period, 2, false, setup_rcu, "an update does not return while a reader that saw the replaced object is inside its section, and returns once it left")
{
    Prng& p = ctx.rng;
    struct Slot { long ver = 0; bool inside = false; };
    int nreaders = p.range(1, 3), rounds = p.range(1, 3);
    std::vector<Slot> slots((size_t)nreaders);
    long stored = 1;
    detail::rcu_obj<long> obj(1L);
    std::vector<std::thread> ts;
    for (int t = 0; t < nreaders; t++)
    {
        int n = p.range(1, 4); bool yield = p.chance(0.7);
        ts.emplace_back([&, t, n, yield]
        {
            Slot& s = slots[(size_t)t];
            for (int i = 0; i < n; i++)
            {
                obj.lock_shared();
                { long v = obj.get(); NoSim _; s.ver = v; s.inside = true; }
                if (yield) { sim_yield(); sim_yield(); }
                long again = *obj; (void)again;
                { NoSim _; s.inside = false; }
                obj.unlock_shared();
            }
        });
    }
    for (int i = 0; i < rounds; i++)
    {
        long v = ++stored;
        obj = v;
        NoSim _;
        for (int t = 0; t < nreaders; t++) if (slots[(size_t)t].inside && slots[(size_t)t].ver < v) failf("grace-period", "the update to version %ld returned while reader %d still uses version %ld", v, t, slots[(size_t)t].ver);
        for (int t = 0; t < nreaders; t++) if (slots[(size_t)t].inside) PROBE("update overtook a reader");
    }
    for (auto& t : ts) t.join();
}

} // namespace
