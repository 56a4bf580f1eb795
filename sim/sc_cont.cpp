// C21: the containers of the library against simple models, with failing allocations and failing element operations.
#include "harness.hpp"
#include <utility/small_vector.hpp>
#include <utility/circular_buffer.hpp>
#include <utility/cache.hpp>
#include <utility/dynamic_bitset.hpp>
#include <utility/matrix.hpp>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <deque>
#include <compare>
#include <new>
#include <list>

using namespace gapp;

namespace {

void setup_cont(Ctx& c)
{
    c.cfg.race = 0;
    bool faults = c.rng.chance(0.8);
    c.cfg.alloc_at = faults && c.rng.chance(0.5) ? 1 + c.rng.below(1ull << (1 + c.rng.below(8))) : 0;
    c.cfg.alloc_burst = 1 + c.rng.below(3);
    c.cfg.p_alloc = faults && c.rng.chance(0.6) ? (c.rng.chance(0.5) ? 0.02 : 0.15) : 0;
}

// ---------------------------------------------------------------- elements that watch their own lifetime
struct ElemError { };
std::unordered_set<const void*>* g_live = nullptr;   // addresses of the live elements
double g_throw = 0; bool g_armed = false;

void born(const void* p) { NoSim _; if (!g_live->insert(p).second) failf("element-overwritten", "an element is constructed in the place of one that was not destroyed"); }
void dead(const void* p) { NoSim _; if (!g_live->erase(p)) failf("element-lifetime", "an object that is not a live element is destroyed"); }
void alive(const void* p, const char* what) { NoSim _; if (!g_live->count(p)) failf("element-lifetime", "%s of an object that is not a live element", what); }
void may_throw() { if (g_armed && g_throw > 0 && sim_user_fault(g_throw)) { PROBE("element operation threw"); throw ElemError{}; } }

// Kind 0: moving never fails, 1: moving may fail, 2: can only be copied
template<int Kind>
struct Elem
{
    int* v;                      // owned; null after being moved from
    Elem() : v(make(0)) { enter(); }
    Elem(int x) : v(make(x)) { enter(); }
    Elem(const Elem& o) : v((alive(&o, "copy"), o.v ? make(*o.v) : make(-1))) { enter(); }
    Elem(Elem&& o) noexcept(Kind == 0) requires(Kind != 2) : v(nullptr)
    {
        alive(&o, "move"); if constexpr (Kind == 1) may_throw();
        v = o.v; o.v = nullptr; born(this);
    }
    Elem& operator=(const Elem& o)
    {
        alive(this, "assignment"); alive(&o, "copy");
        int* n = make(o.v ? *o.v : -1); delete v; v = n; return *this;
    }
    Elem& operator=(Elem&& o) noexcept(Kind == 0) requires(Kind != 2)
    {
        alive(this, "assignment"); alive(&o, "move"); if constexpr (Kind == 1) may_throw();
        if (this != &o) { delete v; v = o.v; o.v = nullptr; }
        return *this;
    }
    ~Elem() { dead(this); delete v; }
    int get() const { alive(this, "read"); return v ? *v : -1; }
    operator int() const { return get(); }
    friend bool operator==(const Elem& a, const Elem& b) { return a.get() == b.get(); }
    friend std::strong_ordering operator<=>(const Elem& a, const Elem& b) { return a.get() <=> b.get(); }
private:
    static int* make(int x) { may_throw(); return new int(x); }
    void enter() { born(this); }
};

template<typename T> inline constexpr bool tracked = !std::is_arithmetic_v<T>;

// an input iterator (single pass) over ints
struct Feed
{
    using iterator_concept = std::input_iterator_tag; using iterator_category = std::input_iterator_tag;
    using value_type = int; using difference_type = std::ptrdiff_t; using pointer = const int*; using reference = int;
    const int* p = nullptr;
    int operator*() const { return *p; }
    Feed& operator++() { ++p; return *this; }
    Feed operator++(int) { Feed f = *this; ++p; return f; }
    friend bool operator==(const Feed& a, const Feed& b) { return a.p == b.p; }
};

struct World                     // fault switches and accounting of one run
{
    uint64_t blocks; std::unordered_set<const void*> live;
    World(Prng& p) : blocks(0) { g_live = &live; g_throw = p.chance(0.6) ? (p.chance(0.5) ? 0.02 : 0.15) : 0; g_armed = false; sim_alloc_faults_enable(0); }
    ~World() { g_live = nullptr; }
};

// runs one operation with faults; returns whether it threw
template<typename F>
bool attempt(F&& f)
{
    bool threw = false;
    int old = sim_alloc_faults_enable(1); g_armed = true;
    try { f(); }
    catch (const ElemError&) { threw = true; }
    catch (const std::bad_alloc&) { threw = true; }
    g_armed = false; sim_alloc_faults_enable(old);
    if (threw) PROBE("operation threw");
    return threw;
}

std::string str(const std::vector<int>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ' '; s += std::to_string(v[i]); } return s + "]"; }

template<typename C> std::vector<int> contents(const C& c) { std::vector<int> r; for (const auto& x : c) r.push_back((int)x); return r; }

// everything the iterators and the element access of a container must satisfy; eq compares an element with the i-th one of the model
template<typename C, typename Eq>
void check_access_of(Prng& p, C& c, size_t n, Eq eq, const char* last)
{
    auto seq = [&](auto first, auto end, bool reverse, const char* what)
    {
        size_t k = 0; for (auto it = first; it != end; ++it, ++k) { if (k >= n) break; CHECK(eq(*it, reverse ? n - 1 - k : k), "container-iteration", "%s: element %zu is wrong when iterating with %s", last, k, what); }
        CHECK(k == n && (size_t)std::abs((long)(end - first)) == n, "container-iteration", "%s: iterating with %s gives %zu of %zu elements", last, what, k, n);
        k = n; for (auto it = end; k > 0; ) { --it; --k; CHECK(eq(*it, reverse ? n - 1 - k : k), "container-iteration", "%s: element %zu is wrong when iterating backwards with %s", last, k, what); if (k == 0) CHECK(it == first && !(it != first), "container-iteration", "%s: %s does not begin at the first element", last, what); }
    };
    seq(c.begin(), c.end(), false, "begin/end"); seq(c.cbegin(), c.cend(), false, "cbegin/cend");
    if constexpr (requires { c.rbegin(); *c.rbegin(); }) { seq(c.rbegin(), c.rend(), true, "rbegin/rend"); seq(c.crbegin(), c.crend(), true, "crbegin/crend"); }
    auto b = c.begin(); auto e = c.end();
    CHECK(e - b == (long)n && b - e == -(long)n, "container-iteration", "%s: the distances between begin and end are %ld and %ld, the size is %zu", last, (long)(e - b), (long)(b - e), n);
    size_t i = p.below(n + 1), j = p.below(n + 1); long d = (long)j - (long)i;
    auto x = b + (long)i; auto y = x; y += d; auto z = (long)i + b; auto v = y - d; auto u = y; u -= d;
    CHECK(x == z && x == v && x == u && y - x == d && x - y == -d && (x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j) && (x == y) == (i == j) && (x != y) == (i != j), "container-iteration", "%s: the iterators to elements %zu and %zu of %zu have wrong differences or order", last, i, j, n);
    if (i < n)
    {
        auto q = x; auto r = q++; auto s = q--; CHECK(r == x && q == x && s - x == 1 && eq(*r, i) && eq(b[(long)i], i) && eq(y[-d], i), "container-iteration", "%s: increments or indexing of an iterator to element %zu of %zu are wrong", last, i, n);
        CHECK(eq(c[i], i), "container-contents", "%s: element %zu is wrong", last, i);
        CHECK(eq(c.front(), 0) && eq(c.back(), n - 1), "container-contents", "%s: the first or last element is wrong", last);
        if constexpr (requires { c.at(i); }) CHECK(eq(c.at(i), i), "container-contents", "%s: at(%zu) is wrong", last, i);
    }
    if constexpr (requires { c.at(n); }) { int oor = 0; for (size_t k : { n, n + 1 + p.below(5), ~(size_t)0 }) { try { (void)c.at(k); } catch (const std::out_of_range&) { oor++; } } CHECK(oor == 3, "container-result", "%s: at() of an index that is too large does not throw", last); }
    CHECK(c.size() == n && c.empty() == (n == 0), "container-contents", "%s: size is %zu, expected %zu", last, (size_t)c.size(), n);
}
template<typename C, typename Eq>
void check_access(Prng& p, C& c, size_t n, Eq eq, const char* last)
{
    check_access_of(p, c, n, eq, last); check_access_of(p, std::as_const(c), n, eq, last);
    CHECK(std::as_const(c).begin() == typename C::const_iterator(c.begin()), "container-iteration", "%s: conversion of an iterator", last);
}

// ---------------------------------------------------------------- small_vector
template<typename T, size_t S>
void run_small_vector(Ctx& ctx)
{
    Prng& p = ctx.rng; World w(p); using V = small_vector<T, S>;
    uint64_t blocks; { NoSim _; blocks = sim_live_blocks(); }
    {
        constexpr int N = 3; std::unique_ptr<V> c[N]; std::vector<int> m[N];
        for (auto& x : c) x = std::make_unique<V>();
        int ops = p.range(5, ctx.thorough ? 150 : 60), nextv = 1; const char* last = "";
        auto total = [&] { size_t t = 0; for (auto& x : c) t += x->size(); return t; };
        for (int op = 0; op < ops; op++)
        {
            int a = p.range(0, N - 1), b = p.range(0, N - 1); V& v = *c[a]; auto& mv = m[a];
            std::vector<int> want = mv, want_b = m[b]; bool strong = false, source_kept = true, b_changes = false; bool threw = false; bool moved_from_b = false;
            size_t n = mv.size(), at = p.below(n + 1), cnt = p.chance(0.3) ? p.below(3) : p.below(3 * S + 4);
            bool self = n > 0 && p.chance(0.3); size_t si = n ? p.below(n) : 0; int val = self ? mv[si] : nextv++;
            std::vector<int> src; { NoSim _; for (size_t i = 0, k = p.below(2 * S + 3); i < k; i++) src.push_back(nextv++); }
            std::vector<T> tsrc; { for (int x : src) tsrc.emplace_back(x); }
            if (n > 40 && p.chance(0.5)) { last = "clear"; v.clear(); want.clear(); }
            else switch (p.range(0, 27))
            {
            case 0: case 1: case 2: last = "push_back(const&)"; strong = true; want.push_back(val);
                if (self) threw = attempt([&] { v.push_back(v[si]); });
                else { T x(val); threw = attempt([&] { v.push_back(x); }); } break;
            case 3: last = "push_back(&&)"; strong = true; want.push_back(nextv); { T x(nextv++); threw = attempt([&] { v.push_back(std::move(x)); }); } break;
            case 4: last = "emplace_back"; strong = true; want.push_back(nextv); threw = attempt([&] { v.emplace_back(nextv); }); nextv++; break;
            case 5: if (!n) continue; last = "pop_back"; want.pop_back(); v.pop_back(); break;
            case 6: last = "resize(n)"; strong = true; want.resize(cnt, 0); threw = attempt([&] { v.resize(cnt); }); break;
            case 7: last = "resize(n, value)"; strong = true; want.resize(cnt, val);
                if (self) threw = attempt([&] { v.resize(cnt, v[si]); }); else { T x(val); threw = attempt([&] { v.resize(cnt, x); }); } break;
            case 8: case 9: last = "insert(pos, const&)"; strong = at == n; want.insert(want.begin() + (long)at, val);
                { T x(val); threw = attempt([&] { auto it = self ? v.insert(v.cbegin() + at, v[si]) : v.insert(v.cbegin() + at, x); CHECK((size_t)(it - v.begin()) == at, "container-result", "insert returned a wrong position"); }); } break;
            case 10: last = "insert(pos, &&)"; strong = false; want.insert(want.begin() + (long)at, nextv); { T x(nextv++); threw = attempt([&] { auto it = v.insert(v.cbegin() + at, std::move(x)); CHECK((size_t)(it - v.begin()) == at, "container-result", "insert returned a wrong position"); }); } break;
            case 11: case 12: last = "insert(pos, n, value)"; want.insert(want.begin() + (long)at, cnt, val);
                { T x(val); threw = attempt([&] { auto it = self ? v.insert(v.cbegin() + at, cnt, v[si]) : v.insert(v.cbegin() + at, cnt, x); CHECK((size_t)(it - v.begin()) == at, "container-result", "insert returned a wrong position"); }); } break;
            case 13: case 14: last = "insert(pos, first, last)"; want.insert(want.begin() + (long)at, src.begin(), src.end()); threw = attempt([&] { auto it = v.insert(v.cbegin() + at, tsrc.begin(), tsrc.end()); CHECK((size_t)(it - v.begin()) == at, "container-result", "insert returned a wrong position"); }); break;
            case 15: last = "insert(pos, input iterators)"; want.insert(want.begin() + (long)at, src.begin(), src.end()); threw = attempt([&] { auto it = v.insert(v.cbegin() + at, Feed{ src.data() }, Feed{ src.data() + src.size() }); CHECK((size_t)(it - v.begin()) == at, "container-result", "insert returned a wrong position"); }); break;
            case 16: if (!n) continue; last = "erase(pos)"; at = p.below(n); want.erase(want.begin() + (long)at); threw = attempt([&] { auto it = v.erase(v.cbegin() + at); CHECK((size_t)(it - v.begin()) == at, "container-result", "erase returned a wrong position"); }); break;
            case 17: { last = "erase(first, last)"; size_t e = at + p.below(n - at + 1); want.erase(want.begin() + (long)at, want.begin() + (long)e); threw = attempt([&] { auto it = v.erase(v.cbegin() + at, v.cbegin() + e); CHECK((size_t)(it - v.begin()) == at, "container-result", "erase returned a wrong position"); }); } break;
            case 18: last = "assign(n, value)"; want.assign(cnt, val); { T x(val); threw = attempt([&] { if (self) v.assign(cnt, v[si]); else v.assign(cnt, x); }); } break;
            case 19: last = "assign(first, last)"; want = src; threw = attempt([&] { v.assign(tsrc.begin(), tsrc.end()); }); break;
            case 20: last = "assign(input iterators)"; want = src; threw = attempt([&] { v.assign(Feed{ src.data() }, Feed{ src.data() + src.size() }); }); break;
            case 21: last = "reserve"; strong = true; threw = attempt([&] { v.reserve(cnt); }); if (!threw) CHECK(v.capacity() >= cnt, "container-result", "the capacity is %zu after reserve(%zu)", v.capacity(), cnt); break;
            case 22: last = "shrink_to_fit"; strong = true; threw = attempt([&] { v.shrink_to_fit(); }); break;
            case 23: last = "copy assignment"; want = m[b]; threw = attempt([&] { v = *c[b]; }); if (a == b) strong = true; break;
            case 24: last = "move assignment"; want = m[b]; moved_from_b = a != b; threw = attempt([&] { v = std::move(*c[b]); }); if (a == b) want = mv; break;
            case 25: last = "swap"; want = m[b]; want_b = mv; b_changes = a != b; threw = attempt([&] { v.swap(*c[b]); }); break;
            case 26: last = "construction"; { std::unique_ptr<V> x; int k = p.range(0, 5);
                threw = attempt([&] {
                    switch (k) {
                    case 0: { T t(val); x = std::make_unique<V>(cnt, t); } want.assign(cnt, val); break;
                    case 1: x = std::make_unique<V>(cnt); want.assign(cnt, 0); break;
                    case 2: x = std::make_unique<V>(tsrc.begin(), tsrc.end()); want = src; break;
                    case 3: x = std::make_unique<V>(Feed{ src.data() }, Feed{ src.data() + src.size() }); want = src; break;
                    case 4: x = std::make_unique<V>(*c[b]); want = m[b]; break;
                    default: if constexpr (std::is_constructible_v<V, std::initializer_list<T>>) { x = std::make_unique<V>(std::initializer_list<T>{ T(1), T(2), T(3) }); } want = { 1, 2, 3 }; break;
                    } });
                if (threw) want = mv; else c[a] = std::move(x); strong = true; } break;
            default: last = "move construction"; { std::unique_ptr<V> x; threw = attempt([&] { x = std::make_unique<V>(std::move(*c[b])); }); if (threw) { moved_from_b = true; source_kept = false; want = a == b ? want : mv; } else { want = m[b]; moved_from_b = a != b; c[a] = std::move(x); } } break;
            }
            NoSim _;
            V& v2 = *c[a]; auto got = contents(v2);
            tsrc.clear();
            if (!threw) CHECK(got == want, "container-contents", "%s: the vector holds %s, expected %s (before: %s)", last, str(got).c_str(), str(want).c_str(), str(mv).c_str());
            else if (strong) CHECK(got == mv, "strong-guarantee", "%s failed and changed the vector from %s to %s", last, str(mv).c_str(), str(got).c_str());
            m[a] = got; (void)source_kept;
            if (a != b)
            {
                auto gb = contents(*c[b]);
                if (b_changes && !threw) CHECK(gb == want_b, "container-contents", "%s: the other vector holds %s, expected %s", last, str(gb).c_str(), str(want_b).c_str());
                else if (!b_changes && !moved_from_b) CHECK(gb == m[b], "container-contents", "%s changed another vector from %s to %s", last, str(m[b]).c_str(), str(gb).c_str());
                m[b] = gb;
            }
            V& vv = *c[a];
            CHECK(vv.size() == m[a].size() && vv.empty() == m[a].empty() && vv.capacity() >= vv.size() && vv.capacity() >= S, "container-contents", "%s: size %zu, capacity %zu, elements %zu", last, vv.size(), vv.capacity(), m[a].size());
            if constexpr (tracked<T>) CHECK(w.live.size() == total(), "element-leak", "%s: %zu elements are alive, the vectors hold %zu%s", last, w.live.size(), total(), threw ? " (the operation failed)" : "");
            if (!m[a].empty())
            {
                CHECK((int)vv.front() == m[a].front() && (int)vv.back() == m[a].back() && (int)vv[m[a].size() / 2] == m[a][m[a].size() / 2] && (int)*vv.rbegin() == m[a].back() && (int)*(vv.data() + m[a].size() - 1) == m[a].back(), "container-contents", "%s: element access differs from iteration", last);
            }
            const V& cv = vv;
            if (!m[a].empty()) CHECK((int)cv.front() == m[a].front() && (int)cv.back() == m[a].back() && (int)cv[m[a].size() / 2] == m[a][m[a].size() / 2] && (int)cv.at(m[a].size() - 1) == m[a].back() && (int)vv.at(m[a].size() / 2) == m[a][m[a].size() / 2] && (int)*cv.rbegin() == m[a].back() && (int)*(cv.data()) == m[a].front() && cv.end() - cv.begin() == vv.cend() - vv.cbegin(), "container-contents", "%s: element access of the constant vector differs from iteration", last);
            int oor = 0; try { (void)vv.at(m[a].size()); } catch (const std::out_of_range&) { oor++; } try { (void)cv.at(m[a].size()); } catch (const std::out_of_range&) { oor++; } CHECK(oor == 2, "container-result", "at() of the size does not throw");
            check_access(p, vv, m[a].size(), [&](const auto& x, size_t i) { return (int)x == m[a][i]; }, last);
            CHECK((vv == *c[b]) == (m[a] == m[b]) && (vv < *c[b]) == (m[a] < m[b]), "container-result", "a comparison is wrong: %s and %s", str(m[a]).c_str(), str(m[b]).c_str());
        }
        for (auto& x : c) x.reset();
        NoSim _; CHECK(w.live.empty(), "element-leak", "%zu elements are alive after all vectors were destroyed", w.live.size());
        for (auto& x : m) { std::vector<int>().swap(x); }
        std::unordered_set<const void*>().swap(w.live);
    }
    NoSim _; CHECK(sim_live_blocks() == blocks, "memory-leak", "%ld memory blocks are left after all vectors were destroyed", (long)(sim_live_blocks() - blocks));
}

// ---------------------------------------------------------------- circular_buffer
struct Ring { std::deque<int> d; size_t cap = 0; std::vector<int> v() const { return { d.begin(), d.end() }; } };

template<typename T>
void run_ring(Ctx& ctx)
{
    Prng& p = ctx.rng; World w(p); using V = detail::circular_buffer<T>;
    uint64_t blocks; { NoSim _; blocks = sim_live_blocks(); }
    {
        const size_t G = p.chance(0.1) ? 8 : 1; if (G > 1) PROBE("large capacity");
        constexpr int N = 2; std::unique_ptr<V> c[N]; Ring m[N];
        for (int i = 0; i < N; i++) { m[i].cap = p.below(7 * G); c[i] = std::make_unique<V>(m[i].cap); }
        int ops = p.range(5, (ctx.thorough ? 150 : 60) * (G > 1 ? 5 : 1)), nextv = 1; const char* last = "";
        for (int op = 0; op < ops; op++)
        {
            int a = p.range(0, N - 1), b = p.range(0, N - 1); V& v = *c[a];
            Ring want = m[a]; const Ring old = m[a]; bool strong = true, threw = false, other = false; Ring want_b = m[b];
            bool self = !old.d.empty() && p.chance(0.3); size_t si = self ? p.below(old.d.size()) : 0; int val = self ? old.d[si] : nextv++;
            auto pb = [&](Ring& r, int x) { r.d.push_back(x); if (r.d.size() > r.cap) r.d.pop_front(); };
            auto pf = [&](Ring& r, int x) { r.d.push_front(x); if (r.d.size() > r.cap) r.d.pop_back(); };
            switch (G > 1 && p.chance(0.85) ? p.range(0, 10) : p.range(0, 17))
            {
            case 0: case 1: case 2: case 3: if (!old.cap) continue; last = "push_back"; pb(want, val); { T x(val); threw = attempt([&] { if (self) v.push_back(v[si]); else v.push_back(x); }); } break;
            case 4: if (!old.cap) continue; last = "push_back(&&)"; pb(want, nextv); { T x(nextv++); threw = attempt([&] { v.push_back(std::move(x)); }); } break;
            case 5: case 6: if (!old.cap) continue; last = "push_front"; pf(want, val); { T x(val); threw = attempt([&] { if (self) v.push_front(v[si]); else v.push_front(x); }); } break;
            case 7: if (!old.cap) continue; last = "emplace_back"; pb(want, nextv); threw = attempt([&] { int g = (int)v.emplace_back(nextv); CHECK(g == nextv, "container-result", "emplace_back returned another element"); }); nextv++; break;
            case 8: if (!old.cap) continue; last = "emplace_front"; pf(want, nextv); threw = attempt([&] { int g = (int)v.emplace_front(nextv); CHECK(g == nextv, "container-result", "emplace_front returned another element"); }); nextv++; break;
            case 9: if (old.d.empty()) continue; last = "pop_back"; want.d.pop_back(); v.pop_back(); break;
            case 10: if (old.d.empty()) continue; last = "pop_front"; want.d.pop_front(); v.pop_front(); break;
            case 11: { last = "set_capacity"; size_t k = p.below(9 * G); want.cap = k; while (want.d.size() > k) want.d.pop_back(); threw = attempt([&] { v.set_capacity(k); }); } break;
            case 12: last = "clear"; want.d.clear(); v.clear(); break;
            case 13: { last = "reset"; strong = false; size_t k = p.below(9 * G); want.cap = k; want.d.clear(); threw = attempt([&] { v.reset(k); });
                if (threw) { NoSim _; CHECK(v.empty() && v.size() == 0, "basic-guarantee", "a failed reset left elements behind"); }
                if (threw) { v.reset(k); threw = false; } } break;
            case 14: last = "copy assignment"; want = m[b]; threw = attempt([&] { v = *c[b]; }); break;
            case 15: if (a == b) continue; last = "move assignment"; want = m[b]; want_b = Ring{}; other = true; v = std::move(*c[b]); want_b.cap = c[b]->capacity(); { NoSim _; auto r = contents(*c[b]); want_b.d.assign(r.begin(), r.end()); } break;
            case 16: last = "swap"; if (a == b) continue; want = m[b]; want_b = m[a]; other = true; v.swap(*c[b]); break;
            default:
            {
                last = "construction"; std::unique_ptr<V> x; int k = p.range(0, 3); size_t cap = p.below(7 * G), len = p.below(9 * G);
                std::vector<T> src; std::vector<int> vals; for (size_t i = 0; i < len; i++) { src.emplace_back(nextv); vals.push_back(nextv++); }
                threw = attempt([&] {
                    if (k == 0) { x = std::make_unique<V>(cap); want = Ring{ {}, cap }; }
                    else if (k == 1) { x = std::make_unique<V>(cap, src.begin(), src.end()); want = Ring{ {}, cap }; size_t s = std::min(cap, len); want.d.assign(vals.end() - (long)s, vals.end()); }
                    else if (k == 2) { x = std::make_unique<V>(*c[b]); want = m[b]; }
                    else { x = std::make_unique<V>(std::move(*c[a])); want = m[a]; }
                });
                if (threw && k == 3) strong = false;
                if (!threw) c[a] = std::move(x);
            } break;
            }
            NoSim _;
            V& vv = *c[a]; auto got = contents(vv);
            if (!threw) CHECK(got == want.v() && vv.capacity() == want.cap, "container-contents", "%s: the buffer holds %s of %zu, expected %s of %zu (before: %s of %zu)", last, str(got).c_str(), vv.capacity(), str(want.v()).c_str(), want.cap, str(old.v()).c_str(), old.cap);
            else if (strong) CHECK(got == old.v() && vv.capacity() == old.cap, "strong-guarantee", "%s failed and changed the buffer from %s of %zu to %s of %zu", last, str(old.v()).c_str(), old.cap, str(got).c_str(), vv.capacity());
            m[a].d.assign(got.begin(), got.end()); m[a].cap = vv.capacity();
            if (a != b) { auto gb = contents(*c[b]); if (other && !threw) CHECK(gb == want_b.v() && c[b]->capacity() == want_b.cap, "container-contents", "%s: the other buffer holds %s, expected %s", last, str(gb).c_str(), str(want_b.v()).c_str()); else CHECK(gb == m[b].v(), "container-contents", "%s changed another buffer", last); m[b].d.assign(gb.begin(), gb.end()); m[b].cap = c[b]->capacity(); }
            size_t total = 0; for (auto& x : c) total += x->size();
            if constexpr (tracked<T>) CHECK(w.live.size() == total, "element-leak", "%s: %zu elements are alive, the buffers hold %zu%s", last, w.live.size(), total, threw ? " (the operation failed)" : "");
            CHECK(vv.size() == m[a].d.size() && vv.full() == (m[a].d.size() == m[a].cap) && vv.empty() == m[a].d.empty(), "container-contents", "%s: wrong size", last);
            if (!m[a].d.empty())
            {
                std::vector<int> rev; for (auto it = vv.rbegin(); it != vv.rend(); ++it) rev.push_back((int)*it); std::reverse(rev.begin(), rev.end());
                CHECK(rev == m[a].v() && (int)vv.front() == m[a].d.front() && (int)vv.back() == m[a].d.back() && (int)vv[m[a].d.size() - 1] == m[a].d.back() && (int)vv.at(0) == m[a].d.front(), "container-contents", "%s: element access differs from iteration", last);
            }
            check_access(p, vv, m[a].d.size(), [&](const auto& x, size_t i) { return (int)x == m[a].d[i]; }, last);
            const auto& cv = vv;
            if (!m[a].d.empty()) CHECK((int)cv.front() == m[a].d.front() && (int)cv.back() == m[a].d.back() && (int)cv[m[a].d.size() / 2] == m[a].d[m[a].d.size() / 2] && (int)cv.at(m[a].d.size() - 1) == m[a].d.back() && (int)vv.at(m[a].d.size() / 2) == m[a].d[m[a].d.size() / 2], "container-contents", "%s: element access of the constant buffer differs from iteration", last);
            int oor = 0; try { (void)vv.at(m[a].d.size()); } catch (const std::out_of_range&) { oor++; } try { (void)cv.at(m[a].d.size()); } catch (const std::out_of_range&) { oor++; } CHECK(oor == 2, "container-result", "at() of the size does not throw");
            CHECK((vv == *c[b]) == (m[a].d == m[b].d), "container-result", "a comparison is wrong");
        }
        for (auto& x : c) x.reset();
        NoSim _; CHECK(w.live.empty(), "element-leak", "%zu elements are alive after all buffers were destroyed", w.live.size());
        std::unordered_set<const void*>().swap(w.live);
    }
    NoSim _; CHECK(sim_live_blocks() == blocks, "memory-leak", "%ld memory blocks are left after all buffers were destroyed", (long)(sim_live_blocks() - blocks));
}

// ---------------------------------------------------------------- fifo_cache
struct CacheModel
{
    size_t cap = 0; std::vector<std::pair<int, int>> e;          // oldest first
    int* find(int k) { for (auto& x : e) if (x.first == k) return &x.second; return nullptr; }
    void put(int k, int v, bool assign) { if (!cap) return; if (int* o = find(k)) { if (assign) *o = v; return; } e.emplace_back(k, v); if (e.size() > cap) e.erase(e.begin()); }
    std::string show() const { std::string s; for (auto& x : e) s += " " + std::to_string(x.first) + ":" + std::to_string(x.second); return s; }
};

std::string key_of(int k) { std::string s = "a key that doesn't fit into a small string "; s += std::to_string(k); return s; }   // copying allocates

template<typename T>
void run_cache(Ctx& ctx)
{
    Prng& p = ctx.rng; World w(p); using V = detail::fifo_cache<std::string, T>;
    const int G = p.chance(0.1) ? 8 : 1; if (G > 1) PROBE("large capacity");
    const int K = 14 * G; std::vector<std::string> keys; for (int i = 0; i < K; i++) keys.push_back(key_of(i));
    uint64_t blocks; { NoSim _; blocks = sim_live_blocks(); }
    {
        constexpr int N = 2; std::unique_ptr<V> c[N]; CacheModel m[N];
        for (int i = 0; i < N; i++) { m[i].cap = p.below((size_t)(7 * G)); c[i] = std::make_unique<V>(m[i].cap); }
        int ops = p.range(5, (ctx.thorough ? 150 : 60) * (G > 1 ? 4 : 1)), nextv = 1; const char* last = "";
        auto matches = [&](V& v, CacheModel& mm, std::string& why)
        {
            if (v.size() != mm.e.size()) { why = "size " + std::to_string(v.size()); return false; }
            for (int k = 0; k < K; k++)
            {
                int* want = mm.find(k); T* got = v.get(keys[(size_t)k]);
                if (!want != !got || (want && *want != (int)*got) || v.contains(keys[(size_t)k]) != !!want) { why = "key " + std::to_string(k); return false; }
            }
            return true;
        };
        for (int op = 0; op < ops; op++)
        {
            int a = p.range(0, N - 1), b = p.range(0, N - 1); V& v = *c[a]; CacheModel old = m[a], want = m[a]; bool threw = false, resync = false;
            std::vector<CacheModel> allowed;       // acceptable states after a failure
            int k = p.range(0, K - 1);
            switch (G > 1 && p.chance(0.8) ? p.range(0, 8) : p.range(0, 13))
            {
            case 0: case 1: case 2: case 3: last = "insert"; want.put(k, nextv, true); { T x(nextv); threw = attempt([&] { v.insert(keys[(size_t)k], x); }); } nextv++; allowed = { old }; break;
            case 4: last = "insert(&&)"; want.put(k, nextv, true); { T x(nextv); std::string ks = keys[(size_t)k]; threw = attempt([&] { v.insert(std::move(ks), std::move(x)); }); } nextv++; allowed = { old }; break;
            case 5: case 6: last = "try_insert"; want.put(k, nextv, false); threw = attempt([&] { v.try_insert(keys[(size_t)k], nextv); }); nextv++; allowed = { old }; break;
            case 7: case 8:
            {
                last = "insert(range)"; std::vector<int> ks; int len = p.range(0, 9 * G);
                for (int i = 0; i < K && (int)ks.size() < len; i++) { int q = p.range(0, K - 1); if (std::find(ks.begin(), ks.end(), q) == ks.end()) ks.push_back(q); }
                if (ks.size() > old.cap) { NoSim _; std::vector<int> fresh; for (int q : ks) if (!old.find(q)) fresh.push_back(q); ks = fresh; }   // both readings of the order agree
                std::vector<std::string> in; for (int q : ks) in.push_back(keys[(size_t)q]);
                int base = nextv; nextv += K + 6;
                { NoSim _; allowed.push_back(want); for (int q : ks) { want.put(q, base + q, true); allowed.push_back(want); }
                  if (ks.size() > old.cap) { CacheModel z = old; allowed.push_back(z); for (size_t i = ks.size() - old.cap; i < ks.size(); i++) { z.put(ks[i], base + ks[i], true); allowed.push_back(z); } } }
                std::unordered_map<std::string, int> val; for (int q : ks) val[keys[(size_t)q]] = base + q;
                threw = attempt([&] { v.insert(in.begin(), in.end(), [&](const std::string& s) { return T(val.at(s)); }); });
            } break;
            case 9: last = "clear"; want.e.clear(); v.clear(); break;
            case 10: { last = "reset"; size_t nc = p.below((size_t)(7 * G)); want.e.clear(); want.cap = nc; threw = attempt([&] { v.reset(nc); }); if (threw) { { NoSim _; CHECK(v.size() <= old.e.size(), "basic-guarantee", "a failed reset left a larger cache"); for (int q = 0; q < K; q++) (void)v.contains(keys[(size_t)q]); } v.reset(nc); threw = false; } } break;
            case 11: last = "copy assignment"; want = m[b]; allowed = { old }; threw = attempt([&] { v = *c[b]; }); break;
            case 12: if (a == b) continue; last = "swap"; want = m[b]; m[b] = m[a]; v.swap(*c[b]); break;
            default: last = "copy and move construction"; { std::unique_ptr<V> x, y; want = m[b]; allowed = { old }; threw = attempt([&] { x = std::make_unique<V>(*c[b]); y = std::make_unique<V>(std::move(*x)); }); if (!threw) c[a] = std::move(y); } break;
            }
            NoSim _;
            (void)resync;
            V& vv = *c[a]; std::string why;
            if (!threw) { CHECK(matches(vv, want, why) && vv.capacity() == want.cap, "container-contents", "%s: the cache is wrong at %s; expected%s of %zu, before%s of %zu", last, why.c_str(), want.show().c_str(), want.cap, old.show().c_str(), old.cap); m[a] = want; }
            else
            {
                bool ok = false; for (auto& z : allowed) if (matches(vv, z, why)) { m[a] = z; ok = true; break; }
                CHECK(ok, "strong-guarantee", "%s failed and left a state it can't have: %s; before%s of %zu", last, why.c_str(), old.show().c_str(), old.cap);
            }
            if (a != b) CHECK(matches(*c[b], m[b], why), "container-contents", "%s: the other cache is wrong at %s", last, why.c_str());
            CHECK(vv.size() <= vv.capacity() && vv.empty() == m[a].e.empty() && vv.full() == (m[a].e.size() == m[a].cap), "container-contents", "%s: size %zu, capacity %zu", last, vv.size(), vv.capacity());
            size_t total = 0; for (auto& x : c) total += x->size();
            if constexpr (tracked<T>) CHECK(w.live.size() == total, "element-leak", "%s: %zu values are alive, the caches hold %zu%s", last, w.live.size(), total, threw ? " (the operation failed)" : "");
            if (p.chance(0.1)) { V e(m[a].cap); for (auto& x : m[a].e) e.insert(keys[(size_t)x.first], T(x.second)); CHECK(e == vv && vv == e, "container-result", "a cache is not equal to one with the same history;%s", m[a].show().c_str()); }
        }
        for (auto& x : c) x.reset();
        NoSim _; CHECK(w.live.empty(), "element-leak", "%zu values are alive after all caches were destroyed", w.live.size());
        std::unordered_set<const void*>().swap(w.live);
    }
    NoSim _; CHECK(sim_live_blocks() == blocks, "memory-leak", "%ld memory blocks are left after all caches were destroyed", (long)(sim_live_blocks() - blocks));
}

// ---------------------------------------------------------------- scenarios
SCENARIO(C21, small_vector, 4, false, setup_cont, "histories of small_vector operations with trivial, movable, throwing and copy-only elements")
{
    int k = ctx.rng.range(0, 7); workload("element kind " + std::to_string(k));
    switch (k)
    {
    case 0: run_small_vector<int, 4>(ctx); break;
    case 1: run_small_vector<double, 1>(ctx); break;
    case 2: run_small_vector<Elem<0>, 4>(ctx); break;
    case 3: run_small_vector<Elem<0>, 1>(ctx); break;
    case 4: run_small_vector<Elem<1>, 4>(ctx); break;
    case 5: run_small_vector<Elem<1>, 2>(ctx); break;
    case 6: run_small_vector<Elem<2>, 3>(ctx); break;
    default: run_small_vector<Elem<0>, 7>(ctx); break;
    }
}
SCENARIO(C21, circular_buffer, 2, false, setup_cont, "histories of circular_buffer operations")
{
    int k = ctx.rng.range(0, 3); workload("element kind " + std::to_string(k));
    switch (k) { case 0: run_ring<int>(ctx); break; case 1: run_ring<Elem<0>>(ctx); break; case 2: run_ring<Elem<1>>(ctx); break; default: run_ring<Elem<2>>(ctx); }
}
SCENARIO(C21, fifo_cache, 2, false, setup_cont, "histories of the FIFO cache")
{
    int k = ctx.rng.range(0, 2); workload("value kind " + std::to_string(k));
    switch (k) { case 0: run_cache<int>(ctx); break; case 1: run_cache<Elem<0>>(ctx); break; default: run_cache<Elem<1>>(ctx); }
}

SCENARIO(C21, bitset, 1, false, setup_cont, "histories of the dynamic bitset")
{
    Prng& p = ctx.rng; World w(p); using V = detail::dynamic_bitset;
    workload("bits");
    uint64_t blocks; { NoSim _; blocks = sim_live_blocks(); }
    {
        V c[2]; std::vector<bool> m[2]; int ops = p.range(5, ctx.thorough ? 150 : 60); const char* last = "";
        auto rsize = [&] { return p.chance(0.3) ? 64 * p.below(8) : p.chance(0.5) ? p.below(70) : p.below(520); };
        for (int op = 0; op < ops; op++)
        {
            int a = p.range(0, 1), b = 1 - a; V& v = c[a]; std::vector<bool> want = m[a]; bool threw = false; bool other = false;
            size_t n = want.size();
            switch (p.range(0, 11))
            {
            case 0: case 1: case 2: { last = "resize"; size_t k = rsize(); bool x = p.chance(0.5); threw = attempt([&] { if (x) v.resize(k, true); else v.resize(k); }); if (!threw) want.resize(k, x); } break;
            case 3: case 4: if (!n) continue; last = "set/clear/flip/assign"; for (int i = 0; i < 4; i++) { size_t at = p.below(n); switch (p.range(0, 3)) { case 0: v[at].set(); want[at] = true; break; case 1: v[at].clear(); want[at] = false; break; case 2: v[at].flip(); want[at] = !want[at]; break; default: { size_t s = p.below(n); v[at] = v[s]; want[at] = (bool)want[s]; } } } break;
            case 5: { last = "fill"; bool x = p.chance(0.5); v.fill(x); want.assign(n, x); } break;
            case 6: last = "clear"; v.clear(); want.clear(); break;
            case 7: last = "complement"; if (v.size() > 256) { v = ~v; want.flip(); } else { v = ~v; want.flip(); } break;
            case 8: last = "copy assignment"; threw = attempt([&] { v = c[b]; }); if (!threw) want = m[b]; else { v = V(); want.clear(); threw = false; } break;
            case 9: { last = "construction"; size_t k = rsize(); int q = p.range(0, 2); std::unique_ptr<V> x; threw = attempt([&] { x = q == 0 ? std::make_unique<V>(k) : std::make_unique<V>(k, q == 1); }); if (!threw) { v = std::move(*x); want.assign(k, q == 1); } } break;
            case 10: last = "move assignment"; v = std::move(c[b]); want = m[b]; other = true; if (p.chance(0.5)) c[b].clear(); else c[b] = V(); break;
            default: last = "swap"; std::swap(v, c[b]); want = m[b]; m[b] = m[a]; break;
            }
            NoSim _;
            if (other) m[b].clear();
            m[a] = want; n = want.size();
            for (int i = 0; i < 2; i++)
            {
                const V& x = c[i]; auto& z = m[i];
                bool eq = x.size() == z.size(); for (size_t k = 0; eq && k < z.size(); k++) eq = x[k] == z[k];
                CHECK(eq, "container-contents", "%s%s: the bits of the bitset are wrong (size %zu, expected %zu)", last, threw ? " (failed)" : "", x.size(), z.size());
                size_t pop = (size_t)std::count(z.begin(), z.end(), true), f1 = (size_t)(std::find(z.begin(), z.end(), true) - z.begin()), f0 = (size_t)(std::find(z.begin(), z.end(), false) - z.begin());
                CHECK(x.popcount() == pop, "container-result", "popcount is %zu, expected %zu", x.popcount(), pop);
                CHECK(x.find_first(true) == f1 && x.find_first(false) == f0, "container-result", "find_first(1) = %zu, expected %zu; find_first(0) = %zu, expected %zu; size %zu", x.find_first(true), f1, x.find_first(false), f0, z.size());
                CHECK(x.any_set() == (pop > 0) && x.none_set() == (pop == 0) && x.all_set() == (pop == z.size()) && x.empty() == z.empty(), "container-result", "a query of the bitset is wrong: %zu of %zu bits are set", pop, z.size());
            }
            CHECK((c[0] == c[1]) == (m[0] == m[1]), "container-result", "a comparison of bitsets is wrong");
        }
        for (auto& x : m) std::vector<bool>().swap(x);
        std::unordered_set<const void*>().swap(w.live);
    }
    NoSim _; CHECK(sim_live_blocks() == blocks, "memory-leak", "%ld memory blocks are left after the bitsets were destroyed", (long)(sim_live_blocks() - blocks));
}

SCENARIO(C21, matrix, 1, false, setup_cont, "histories of the matrix")
{
    Prng& p = ctx.rng; World w(p); using V = detail::Matrix<double>; using M = std::vector<std::vector<double>>;
    workload("matrix");
    uint64_t blocks; { NoSim _; blocks = sim_live_blocks(); }
    {
        V c[2]; M m[2]; int ops = p.range(5, ctx.thorough ? 150 : 60), nextv = 1; const char* last = "";
        for (int op = 0; op < ops; op++)
        {
            int a = p.range(0, 1), b = 1 - a; V& v = c[a]; M want = m[a]; bool threw = false, other = false; M want_b = m[b]; size_t n = want.size(), k = n ? want[0].size() : 1 + p.below(4);
            size_t i = n ? p.below(n) : 0, j = n ? p.below(n) : 0;
            std::vector<double> row; { NoSim _; for (size_t x = 0; x < k; x++) row.push_back(nextv++); }
            switch (p.range(0, 19))
            {
            case 16: { last = "construction from a list"; std::unique_ptr<V> x; double z = nextv; nextv += 6; bool one = p.chance(0.5);
                threw = attempt([&] { if (one) x = std::make_unique<V>(std::initializer_list<std::initializer_list<double>>{ { z, z + 1, z + 2, z + 3, z + 4 } }); else x = std::make_unique<V>(std::initializer_list<std::initializer_list<double>>{ { z, z + 1 }, { z + 2, z + 3 }, { z + 4, z + 5 } }); });
                if (!threw) { v = std::move(*x); if (one) want = { { z, z + 1, z + 2, z + 3, z + 4 } }; else want = { { z, z + 1 }, { z + 2, z + 3 }, { z + 4, z + 5 } }; } } break;
            case 17: if (!n) continue; last = "row swap with a span"; { using std::swap; std::vector<double> r2 = row; if (p.chance(0.5)) swap(std::span<double>(r2), v[i]); else swap(v[i], std::span<double>(r2)); std::swap(want[i], row); CHECK(r2 == row, "container-contents", "a row swap with a span left other values in the span"); } break;
            case 18: { last = "reserve"; size_t r = p.below(12); threw = attempt([&] { v.reserve(r, k); }); } break;
            case 19: last = "element write through an iterator"; if (!n) continue; { size_t y = p.below(k); (*(v.begin() + (long)i))[y] = nextv; want[i][y] = nextv++; } break;
            case 0: case 1: case 2: last = "append_row"; threw = attempt([&] { v.append_row(row); }); if (!threw) want.push_back(row); break;
            case 3: if (!n) continue; last = "pop_back"; v.pop_back(); want.pop_back(); break;
            case 4: if (!n) continue; last = "row assignment"; v[i] = row; want[i] = row; break;
            case 5: if (!n) continue; last = "row to row assignment"; v[i] = v[j]; want[i] = want[j]; break;
            case 6: if (!n || m[b].empty() || m[b][0].size() != k) continue; last = "assignment of a row of another matrix"; { const V& cb = c[b]; size_t z = p.below(m[b].size()); v[i] = cb[z]; want[i] = m[b][z]; } break;
            case 7: if (!n) continue; last = "row swap"; { using std::swap; swap(v[i], v[j]); std::swap(want[i], want[j]); } break;
            case 8: if (!n) continue; last = "element write"; { size_t y = p.below(k); v(i, y) = nextv; want[i][y] = nextv++; } break;
            case 9: { last = "resize"; size_t r = p.below(8); if (r == 0) r = 1; double x = nextv++; threw = attempt([&] { v.resize(r, k, x); }); if (!threw) want.resize(r, std::vector<double>(k, x)); } break;
            case 10: last = "clear"; v.clear(); want.clear(); break;
            case 11: last = "copy assignment"; threw = attempt([&] { v = c[b]; }); if (!threw) want = m[b]; else { v.clear(); want.clear(); threw = false; } break;
            case 12: last = "swap"; v.swap(c[b]); want = m[b]; want_b = m[a]; other = true; break;
            case 13: { last = "construction"; size_t r = p.below(6), q = 1 + p.below(4); std::unique_ptr<V> x; double z = nextv++; threw = attempt([&] { x = std::make_unique<V>(r, q, z); }); if (!threw) { v = std::move(*x); want.assign(r, std::vector<double>(q, z)); } } break;
            case 14: { last = "construction from rows"; const V& cb = c[b]; size_t f = p.below(m[b].size() + 1), l = f + p.below(m[b].size() - f + 1); std::unique_ptr<V> x; threw = attempt([&] { x = std::make_unique<V>(cb.begin() + (long)f, cb.begin() + (long)l); }); if (!threw) { v = std::move(*x); want.assign(m[b].begin() + (long)f, m[b].begin() + (long)l); } } break;
            default: last = "row erasure by swap"; if (!n) continue; { auto r = v.back(); using std::swap; if (i + 1 != n) swap(v[i], r); v.pop_back(); std::swap(want[i], want.back()); want.pop_back(); } break;
            }
            NoSim _;
            m[a] = want; if (other) m[b] = want_b;
            for (int t = 0; t < 2; t++)
            {
                const V& x = c[t]; auto& z = m[t]; size_t kk = z.empty() ? 0 : z[0].size();
                CHECK(x.size() == z.size() && x.nrows() == z.size() && x.empty() == z.empty() && (z.empty() || x.ncols() == kk), "container-contents", "%s%s: the matrix has %zu x %zu elements, expected %zu x %zu", last, threw ? " (failed)" : "", x.nrows(), x.ncols(), z.size(), kk);
                size_t r = 0; for (const auto& rw : x) { std::vector<double> g(rw.begin(), rw.end()); CHECK(r < z.size() && g == z[r] && rw == z[r] && rw.size() == kk, "container-contents", "%s%s: row %zu of the matrix is wrong", last, threw ? " (failed)" : "", r); r++; }
                check_access(p, c[t], z.size(), [&](const auto& rw, size_t q) { return rw == z[q]; }, last);
                if (!z.empty())
                {
                    size_t q = p.below(z.size()); auto same = [&](const double& e, size_t k2) { return e == z[q][k2]; };
                    auto rr = c[t][q]; auto cr = x[q]; check_access_of(p, rr, kk, same, last); check_access_of(p, cr, kk, same, last);
                    std::span<double> sp = rr; std::span<const double> csp = cr; small_vector<double> sv = cr; std::vector<double> vv = rr;
                    CHECK(rr.data() == &c[t](q, 0) && cr.data() == &x(q, 0) && sp.data() == rr.data() && sp.size() == kk && csp.data() == cr.data() && csp.size() == kk && vv == z[q] && std::equal(sv.begin(), sv.end(), z[q].begin(), z[q].end()) && c[t].data() + q * kk == rr.data() && x.data() == &x(0, 0) && rr.ncols() == kk, "container-contents", "%s: the views of row %zu are wrong", last, q);
                    for (size_t y = 0; y < z.size(); y++) CHECK((x[y] == cr) == (z[y] == z[q]) && (c[t][y] == rr) == (z[y] == z[q]), "container-result", "%s: the comparison of rows %zu and %zu is wrong", last, y, q);
                }
                for (size_t q = 0; q < kk; q++) { auto col = x.column(q); for (size_t s = 0; s < z.size(); s++) CHECK(col[s] == z[s][q] && x(s, q) == z[s][q] && x[s][q] == z[s][q], "container-contents", "%s: element (%zu, %zu) is wrong", last, s, q); }
            }
            CHECK((c[0] == c[1]) == (m[0] == m[1]), "container-result", "a comparison of matrices is wrong");
        }
        for (auto& x : m) M().swap(x);
        std::unordered_set<const void*>().swap(w.live);
    }
    NoSim _; CHECK(sim_live_blocks() == blocks, "memory-leak", "%ld memory blocks are left after the matrices were destroyed", (long)(sim_live_blocks() - blocks));
}

} // namespace
