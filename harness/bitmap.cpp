// C05: awl::bitmap against a plain bool vector; sequential enums and their names.
#include "mc.hpp"
#include "menu.hpp"
#include "Awl/BitMap.h"
#include <memory>

namespace e
{
    AWL_SEQUENTIAL_ENUM(E1, Only)
    AWL_SEQUENTIAL_ENUM(E2, A, B)
    AWL_SEQUENTIAL_ENUM(E3, Car, Train, AirPlain)
    AWL_SEQUENTIAL_ENUM(E5,A,Ab ,ABC,
        a_very_long_name_with_underscores_and_123_digits   ,   zz)
    AWL_SEQUENTIAL_ENUM(E9, e0, e1, e2, e3, e4, e5, e6, e7, e8)
    enum class Big : uint8_t {};
    enum class Wide : int {};
}
AWL_ENUM_TRAITS(e, E1)
AWL_ENUM_TRAITS(e, E2)
AWL_ENUM_TRAITS(e, E3)
AWL_ENUM_TRAITS(e, E5)
AWL_ENUM_TRAITS(e, E9)

namespace
{
    template <class Enum, int N, class BM>
    struct Sys : mc::MenuSys<Sys<Enum, N, BM>>
    {
        using Model = std::vector<bool>;
        std::vector<int> flags;                 // positions that are set and reset one by one
        std::vector<Model> operands;
        BM b;
        Model m = Model(N);
        uint64_t last = 0;

        static BM make(const Model& v)
        {
            BM r;
            for (int i = 0; i < N; ++i) if (v[i]) r.set(Enum(i), true);
            return r;
        }
        void same(const BM& x, const Model& v, const char* what)
        {
            bool any = false, all = true;
            int n = 0;
            for (int i = 0; i < N; ++i)
            {
                const bool w = v[i];
                any |= w; all &= w; n += w;
                BM& y = const_cast<BM&>(x);
                if (x.test(Enum(i)) != w || x[Enum(i)] != w || bool(y[Enum(i)]) != w) mc::fail("%s: flag %d is %d, expected %d", what, i, x.test(Enum(i)), (int)w);
            }
            if (x.any() != any || x.none() != !any || x.all() != all || bool(x) != any || int(x.count()) != n) mc::fail("%s: any/none/all/count (%d) are wrong for %d of %d flags", what, int(x.count()), n, N);
            if (int(x.size()) != N) mc::fail("%s: size() = %d of %d", what, int(x.size()), N);
            if (!(x == make(v)) || x != make(v)) mc::fail("%s: not equal to a bitmap with the same flags", what);
        }
        Sys(const std::vector<int>& f, const std::vector<Model>& o) : flags(f), operands(o) {}

        void step(mc::Menu& op)
        {
            for (int f : flags)
            {
                for (int v = 0; v < 2; ++v)
                {
                    if (op("set(%d, %d)", f, v)) { BM& r = b.set(Enum(f), v); if (&r != &b) mc::fail("set() returns something else"); m[f] = v; return; }
                    if (op("[%d] = %d", f, v)) { b[Enum(f)] = v; m[f] = v; return; }
                }
                if (op("|= %d", f)) { if (!mc::g_replaying) { Model w = m; w[f] = true; same(b | Enum(f), w, "| flag"); } b |= Enum(f); m[f] = true; return; }
                if (op("^= %d", f)) { if (!mc::g_replaying) { Model w = m; w[f] = !w[f]; same(b ^ Enum(f), w, "^ flag"); } b ^= Enum(f); m[f] = !m[f]; return; }
                if (op("&= %d", f)) { Model w(N); w[f] = m[f]; if (!mc::g_replaying) { same(b & Enum(f), w, "& flag"); if (bool(b & Enum(f)) != m[f]) mc::fail("& flag as a condition"); } b &= Enum(f); m = w; return; }
                for (int g : flags) if (g <= f && op("= {%d, %d}", f, g)) { b = BM{ Enum(f), Enum(g) }; m = Model(N); m[f] = m[g] = true; return; }
            }
            if (op("initializer lists of one to four flags, in every order"))
            {
                if (mc::g_replaying) return;
                for (int f : flags) { Model w(N); w[f] = true; same(BM{ Enum(f) }, w, "{f}");
                    for (int g : flags) { Model w2 = w; w2[g] = true; same(BM{ Enum(f), Enum(g) }, w2, "{f, g}");
                        for (int i : flags) { Model w3 = w2; w3[i] = true; same(BM{ Enum(f), Enum(g), Enum(i) }, w3, "{f, g, h}");
                            if (flags.size() <= 5) for (int j : flags) { Model w4 = w3; w4[j] = true; same(BM{ Enum(f), Enum(g), Enum(i), Enum(j) }, w4, "{f, g, h, i}"); } } } }
                return;
            }
            if (op("= ~")) { BM c = ~b; Model w = m; w.flip(); if (!mc::g_replaying) same(b, m, "operand of ~"); b = c; m = w; return; }
            if (op("^= itself")) { BM& s = b; b ^= s; m = Model(N); return; }
            if (op("|= itself, &= itself, = itself")) { BM& s = b; b |= s; b &= s; b = s; return; }
            for (size_t k = 0; k < operands.size(); ++k)
            {
                const Model& w = operands[k];
                if (op("binary operators with operand %zu", k))
                {
                    if (mc::g_replaying) return;
                    const BM o = make(w);
                    Model a(N), c(N), d(N);
                    for (int i = 0; i < N; ++i) { a[i] = m[i] || w[i]; c[i] = m[i] && w[i]; d[i] = m[i] != w[i]; }
                    same(b | o, a, "|"); same(b & o, c, "&"); same(b ^ o, d, "^");
                    BM x = b; if (&(x |= o) != &x) mc::fail("|= returns something else"); same(x, a, "|=");
                    x = b; x &= o; same(x, c, "&=");
                    x = b; x ^= o; same(x, d, "^=");
                    if ((b == o) != (m == w) || (b != o) != (m != w)) mc::fail("comparison is wrong");
                    same(o, w, "right operand");
                    return;
                }
            }
            if (op("a flag that does not exist"))
            {
                if (mc::g_replaying) return;
                int thrown = 0;
                try { b.test(Enum(N)); } catch (const std::out_of_range&) { ++thrown; }
                try { b.set(Enum(N), true); } catch (const std::out_of_range&) { ++thrown; }
                try { b |= Enum(N); } catch (const std::out_of_range&) { ++thrown; }
                if (thrown != 3) mc::fail("a flag out of range was accepted");
                return;
            }
        }
        void check() { same(b, m, "state"); }
        uint64_t canon() { uint64_t h = N; for (int i = 0; i < N; ++i) h = mc::mix(h, m[i]); return mc::mix(h, mc::hash_bytes(&b, sizeof b)); }
    };

    template <class Enum, int N, class BM>
    void run(const char* name, std::vector<int> flags, bool all_operands)
    {
        if (!mc::begin_scenario(std::string("bitmap of ") + name)) return;
        std::vector<std::vector<bool>> ops;
        if (all_operands)
            for (int k = 0; k < (1 << N); ++k) { std::vector<bool> v(N); for (int i = 0; i < N; ++i) v[i] = k >> i & 1; ops.push_back(v); }
        else
        {
            for (int k = 0; k < (1 << flags.size()); ++k) { std::vector<bool> v(N); for (size_t i = 0; i < flags.size(); ++i) v[flags[i]] = k >> i & 1; ops.push_back(v); v.flip(); ops.push_back(v); }
        }
        mc::bfs([&] { return std::make_unique<Sys<Enum, N, BM>>(flags, ops); }, 50, 1000000);
    }
    std::vector<int> upto(int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }

    template <class E>
    void names(const char* enum_name, std::vector<std::string> want)
    {
        if (!mc::begin_scenario(std::string("names of ") + enum_name)) return;
        using awl::EnumTraits;
        const int n = want.size();
        if (int(EnumTraits<E>::count()) != n) mc::fail("count() = %d", int(EnumTraits<E>::count()));
        if (std::string(EnumTraits<E>::enum_name()) != enum_name) mc::fail("enum_name()");
        auto lower = [](std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; };
        for (int i = 0; i < 256; ++i)       // every value of the underlying type
        {
            mc::trace_reset();
            mc::trace("value %d of %s", i, enum_name);
            bool ok[5] = {};
            std::string s;
            try { s = awl::enum_to_string(E(i)); ok[0] = true; } catch (const std::runtime_error&) {}
            try { if (awl::enum_to_index(E(i)) != i) mc::fail("enum_to_index"); ok[1] = true; } catch (const std::runtime_error&) {}
            try { if (awl::enum_from_index<E>(i) != E(i)) mc::fail("enum_from_index"); ok[2] = true; } catch (const std::runtime_error&) {}
            try { awl::validate_enum(E(i)); ok[3] = true; } catch (const std::runtime_error&) {}
            try { awl::validate_enum_index<E>(i); ok[4] = true; } catch (const std::runtime_error&) {}
            for (bool b : ok) if (b != (i < n)) mc::fail("value %d of %d is %s", i, n, b ? "accepted" : "rejected");
            if (i < n && s != want[i]) mc::fail("enum_to_string(%d) = '%s', expected '%s'", i, s.c_str(), want[i].c_str());
            ++mc::cnt("executions"); ++mc::cnt("states"); ++mc::cnt("transitions");
        }
        // All strings over the letters of short names, and every edit of the names.
        std::set<std::string> cand;
        for (auto& w : want)
        {
            cand.insert(w);
            for (size_t i = 0; i <= w.size(); ++i)
                for (char c : std::string("aABbZz_ 0\xC1"))
                {
                    std::string t = w; t.insert(i, 1, c); cand.insert(t);
                    if (i < w.size()) { t = w; t[i] = c; cand.insert(t); t = w; t.erase(i, 1); cand.insert(t); t = w; t[i] ^= 32; cand.insert(t); }
                }
            std::string t = w; for (auto& c : t) c = toupper(c); cand.insert(t); cand.insert(lower(w));
        }
        std::string al = "aAbB";
        for (int len = 0; len <= 3; ++len) for (int k = 0; k < (1 << 2 * len); ++k) { std::string t; for (int i = 0; i < len; ++i) t += al[k >> 2 * i & 3]; cand.insert(t); }
        for (auto& s : cand)
        {
            mc::trace_reset();
            mc::trace("name '%s' of %s", s.c_str(), enum_name);
            int x = -1, y = -1;
            try { x = int(awl::enum_from_string<E>(s)); } catch (const std::runtime_error&) {}
            try { y = int(awl::enum_from_string_i<E>(s)); } catch (const std::runtime_error&) {}
            int wx = -1, wy = -1;
            for (int i = n - 1; i >= 0; --i) { if (want[i] == s) wx = i; if (lower(want[i]) == lower(s)) wy = i; }
            if (x != wx) mc::fail("enum_from_string('%s') = %d, expected %d", s.c_str(), x, wx);
            if (y != wy) mc::fail("enum_from_string_i('%s') = %d, expected %d", s.c_str(), y, wy);
            ++mc::cnt("executions"); ++mc::cnt("states"); ++mc::cnt("transitions");
        }
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    using namespace e;
    if (mc::cfg().shard == 0)
    {
        run<E1, 1, awl::bitmap<E1>>("1 flag", upto(1), true);
        run<E2, 2, awl::bitmap<E2>>("2 flags", upto(2), true);
        run<E3, 3, awl::bitmap<E3>>("3 flags", upto(3), true);
        run<E5, 5, awl::bitmap<E5>>("5 flags", upto(5), true);
        run<Wide, 6, awl::bitmap<Wide, 6>>("6 flags of int", upto(6), true);
        names<E1>("E1", { "Only" });
        names<E2>("E2", { "A", "B" });
        names<E3>("E3", { "Car", "Train", "AirPlain" });
        names<E5>("E5", { "A", "Ab", "ABC", "a_very_long_name_with_underscores_and_123_digits", "zz" });
        names<E9>("E9", { "e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7", "e8" });
    }
    else if (mc::cfg().shard == 1) run<E9, 9, awl::bitmap<E9>>("9 flags", th ? upto(9) : std::vector<int>{ 0, 1, 7, 8 }, false);
    else if (mc::cfg().shard == 2)
    {
        run<Big, 32, awl::bitmap<Big, 32>>("32 flags", { 0, 1, 15, 31 }, false);
        run<Big, 33, awl::bitmap<Big, 33>>("33 flags", { 0, 31, 32 }, false);
        run<Big, 63, awl::bitmap<Big, 63>>("63 flags", { 0, 31, 32, 62 }, false);
        run<Big, 64, awl::bitmap<Big, 64>>("64 flags", { 0, 31, 32, 63 }, false);
    }
    else
    {
        run<Big, 65, awl::bitmap<Big, 65>>("65 flags", { 0, 63, 64 }, false);
        run<Big, 128, awl::bitmap<Big, 128>>("128 flags", { 0, 64, 127 }, false);
        run<Big, 255, awl::bitmap<Big, 255>>("255 flags", { 0, 63, 64, 254 }, false);
        run<Wide, 300, awl::bitmap<Wide, 300>>("300 flags of int", { 0, 64, 299 }, false);
    }
    return mc::finish();
}
