// M01: numeric helpers on every value of small types and on the boundaries of wide ones.
#include "heap.hpp"
#include "Awl/Math.h"
#include "Awl/IntRange.h"
#include "Awl/RangeUtil.h"
#include "Awl/Random.h"
#include <cmath>
#include <limits>
#include <list>
#include <thread>

namespace
{
    void tick(const char* what) { mc::cnt(what) += 1; mc::cnt("executions") += 1; mc::cnt("states") += 1; mc::cnt("transitions") += 1; }

    template <class T> std::vector<T> interesting()
    {
        using L = std::numeric_limits<T>;
        std::vector<T> v;
        if constexpr (sizeof(T) == 1) for (int i = L::min(); i <= L::max(); ++i) v.push_back(T(i));
        else if constexpr (std::is_integral_v<T>) { for (int k = 0; k < 6; ++k) { v.push_back(T(L::min() + k)); v.push_back(T(L::max() - k)); v.push_back(T(k)); v.push_back(T(-k)); } for (unsigned b = 4; b < sizeof(T) * 8 - 1; b += 5) v.push_back(T(T(1) << b)); }
        else v = { T(0), T(-0.0), T(1), T(-1), T(0.5), T(-0.5), T(1.25), T(-1.25), L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::max(), L::lowest(), L::infinity(), -L::infinity() };
        return v;
    }

    template <class T> void signs(const char* name)
    {
        if (!mc::begin_scenario("sign and clamp of " + std::string(name))) return;
        const auto v = interesting<T>();
        for (T x : v) { const int want = x > T(0) ? 1 : x < T(0) ? -1 : 0; if (awl::math::sign(x) != want) mc::fail("sign<%s>(%Lg)", name, (long double)x); tick("signs"); }
        std::vector<T> bounds;
        for (size_t i = 0; i < v.size(); i += sizeof(T) == 1 ? 17 : 1) bounds.push_back(v[i]);
        for (T lo : bounds) for (T hi : bounds)
        {
            if (hi < lo) continue;
            for (T x : v)
            {
                T y = x; awl::math::clamp(y, lo, hi);
                if (y != (x < lo ? lo : x > hi ? hi : x)) mc::fail("clamp<%s>(%Lg, %Lg, %Lg) gives %Lg", name, (long double)x, (long double)lo, (long double)hi, (long double)y);
                tick("clamps");
            }
            // The same with the opposite order.
            for (T x : bounds) { T y = x; awl::math::clamp(y, hi, lo, std::greater<T>()); if (y != (x < lo ? lo : x > hi ? hi : x)) mc::fail("clamp<%s> with another order", name); tick("clamps"); }
        }
    }

    // Only the given order counts: elements which are equivalent but distinguishable stay.
    struct Pair { int key, tag; };
    void clamp_order()
    {
        if (!mc::begin_scenario("clamp by a key")) return;
        auto less = [](const Pair& a, const Pair& b) { return a.key < b.key; };
        for (int x = 0; x < 5; ++x) for (int lo = 0; lo < 5; ++lo) for (int hi = lo; hi < 5; ++hi)
        {
            Pair p{ x, 1 }; const Pair l{ lo, 2 }, h{ hi, 3 };
            awl::math::clamp(p, l, h, less);
            const int key = x < lo ? lo : x > hi ? hi : x, tag = x < lo ? 2 : x > hi ? 3 : 1;
            if (p.key != key || p.tag != tag) mc::fail("clamp of %d between %d and %d gives %d of %d", x, lo, hi, p.key, p.tag);
            tick("clamps");
        }
    }

    template <class I, class F> void rounded(F f)
    {
        const I r = awl::math::round<I>(f);
        if (std::fabs((long double)r - (long double)f) > 0.5L) mc::fail("round of %.20Lg gives %Lg", (long double)f, (long double)r);
        tick("rounded");
    }

    template <class F> void rounding(const char* name, bool th)
    {
        if (!mc::begin_scenario("round of " + std::string(name))) return;
        const int n = th ? 4000 : 400;
        for (int i = -n; i <= n; ++i) for (int q = 0; q < 16; ++q)
        {
            const F f = F(i) + F(q) / 16;
            for (F g : { f, std::nextafter(f, F(-1e9)), std::nextafter(f, F(1e9)) }) { rounded<int>(g); rounded<long long>(g); rounded<short>(g); if (g >= 0) { rounded<unsigned>(g); rounded<size_t>(g); } }
        }
        for (int b = 0; b < 31; ++b) for (int k = -2; k <= 2; ++k) for (int s : { -1, 1 })
        {
            const F f = F(s) * (std::ldexp(F(1), b) + F(k) / 2);
            for (F g : { f, std::nextafter(f, F(-1e30)), std::nextafter(f, F(1e30)) }) { rounded<long long>(g); if (std::fabs(g) < F(2147480000)) rounded<int>(g); }
        }
    }

    template <class F> void angles(const char* name)
    {
        if (!mc::begin_scenario("angles of " + std::string(name))) return;
        const long double pi = std::acos(-1.0L), eps = std::numeric_limits<F>::epsilon();
        const auto near = [&](long double a, long double b) { return std::fabs(a - b) <= 4 * eps * std::fabs(b); };
        if (!near(awl::math::pi<F>(), pi) || !near(awl::math::half_pi<F>(), pi / 2) || !near(awl::math::quarter_pi<F>(), pi / 4)) mc::fail("the constants of %s", name);
        for (int d = -1440; d <= 1440; ++d)
        {
            const F deg = F(d) / 2, rad = awl::math::degrees_to_radians(deg);
            if (!near(rad, (long double)deg * pi / 180) || !near(awl::math::raidans_to_degrees(rad), deg)) mc::fail("%d half degrees", d);
            tick("angles");
        }
    }

    template <class T> void ranges(const char* name)
    {
        if (!mc::begin_scenario("ranges of " + std::string(name))) return;
        using L = std::numeric_limits<T>;
        auto one = [&](T b, T e)
        {
            long long k = (long long)b; size_t n = 0;
            for (T x : awl::make_int_range(b, e)) { if ((long long)x != k++) mc::fail("%s: range from %lld", name, (long long)b); ++n; }
            if (n != size_t((long long)e - (long long)b)) mc::fail("%s: the range from %lld to %lld has %zu elements", name, (long long)b, (long long)e, n);
            tick("ranges");
        };
        for (long long b = -4; b <= 4; ++b) for (long long e = b; e <= 5; ++e) { if (!L::is_signed && b < 0) continue; one(T(b), T(e)); }
        for (int k = 0; k < 4; ++k) { one(L::min(), T(L::min() + k)); one(T(L::max() - k), L::max()); }
        if (sizeof(T) <= 2) one(L::min(), L::max());
        for (T e = 0; e < T(100); ++e) { T k = 0; for (T x : awl::make_count(e)) if (x != k++) mc::fail("%s: make_count", name); if (k != e) mc::fail("%s: make_count(%lld)", name, (long long)e); tick("ranges"); }
    }

    template <class C> void positions(const char* name, int depth)
    {
        if (!mc::begin_scenario("position_changed in " + std::string(name))) return;
        std::vector<int> v;
        std::function<void()> rec = [&]
        {
            C c(v.begin(), v.end());
            size_t i = 0;
            for (auto it = c.begin(); it != c.end(); ++it, ++i)
            {
                const bool less = (i > 0 && !(v[i - 1] < v[i])) || (i + 1 < v.size() && !(v[i] < v[i + 1]));
                const bool greater = (i > 0 && !(v[i - 1] > v[i])) || (i + 1 < v.size() && !(v[i] > v[i + 1]));
                if (awl::position_changed(c, std::less<int>(), it) != less || awl::position_changed(c, std::greater<int>(), it) != greater) mc::fail("element %zu of %zu", i, v.size());
                tick("positions");
            }
            if (int(v.size()) < depth) for (int x = 0; x < 3; ++x) { v.push_back(x); rec(); v.pop_back(); }
        };
        rec();
    }

    void engines()
    {
        if (!mc::begin_scenario("random engines")) return;
        std::mt19937* here = &awl::random();
        std::mt19937* there = nullptr;
        std::thread([&] { there = &awl::random(); if (&awl::random() != there) there = nullptr; }).join();
        if (here != &awl::random() || !there || here == there) mc::fail("one engine per thread");
        const std::mt19937 before = awl::random(); (void)awl::random()();
        if (before == awl::random()) mc::fail("the engine does not advance");
        tick("engines");
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    signs<int8_t>("int8_t"); signs<uint8_t>("uint8_t"); signs<int16_t>("int16_t"); signs<int>("int"); signs<unsigned>("unsigned"); signs<long long>("long long"); signs<uint64_t>("uint64_t"); signs<float>("float"); signs<double>("double");
    clamp_order();
    rounding<float>("float", th); rounding<double>("double", th);
    angles<float>("float"); angles<double>("double"); angles<long double>("long double");
    ranges<int>("int"); ranges<int8_t>("int8_t"); ranges<uint8_t>("uint8_t"); ranges<uint16_t>("uint16_t"); ranges<size_t>("size_t"); ranges<long long>("long long");
    positions<std::vector<int>>("vector", th ? 8 : 6); positions<std::list<int>>("list", th ? 8 : 6);
    engines();
    return mc::finish();
}
