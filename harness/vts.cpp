// S03: every pair of (version that wrote, version that reads) of structures made of bounded pools of fields, with nested
// structures that have versions of their own, through the real Writer and Reader.
#include "rwtypes.hpp"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/VersionTolerantSerializable.h"
#include "Awl/Io/EuphoricallySerializable.h"
#include <array>

#ifndef PART
#define PART 0
#endif

namespace
{
    using Bytes = std::vector<uint8_t>;
    using gen::G;
    using namespace awl::io;
    using Mask = uint64_t;
    unsigned long long& n_exec() { static auto& n = mc::cnt("executions"); return n; }
    unsigned long long& n_trans() { static auto& n = mc::cnt("transitions"); return n; }
    unsigned long long& n_states() { static auto& n = mc::cnt("states"); return n; }

    struct Masks { Mask top = ~0ull, nest = ~0ull, other = ~0ull; };

    // ---- fields: F<id, Nested, Other> has type, name, default value, and the value of a seed ----
    template <int Id, class N, class O> struct F;
    template <class T> void build(T& t, int seed, const Masks& m);

#define FIELD(ID, NAME, TYPE, DEFAULT, ...) \
    template <class N, class O> struct F<ID, N, O> { using type = TYPE; static constexpr const char* name = NAME; static type def() { return DEFAULT; } static void put(type& x, int s, const Masks& m) { __VA_ARGS__; } };
#define T(...) __VA_ARGS__

    FIELD(0, "a", int32_t, 7, x = 1000 + s)
    FIELD(1, "b", std::string, "default", x = s % 3 == 0 ? std::string() : std::string(s, 'b'))
    FIELD(2, "e", ty::Color, ty::Color::Blue, x = ty::Color(s % 2))
    FIELD(3, "i", uint8_t, 77, x = 200 + s)
    FIELD(4, "h", int64_t, -1, x = (int64_t(s) << 40) + 5)
    FIELD(5, "f", double, 0.25, x = s + 0.5)
    // same names, other types
    FIELD(6, "a", double, 0.5, x = s + 1000.5)
    FIELD(7, "b", int32_t, 9, x = s)
    FIELD(8, "n", int32_t, 9, x = s)
    // nested
    FIELD(10, "n", N, N(), build(x, s, m))
    FIELD(11, "v", std::vector<N>, {}, x.resize(s % 3); for (size_t k = 0; k < x.size(); ++k) build(x[k], s + k, m))
    FIELD(12, "o", std::optional<N>, N(), if (s % 2) { N n; build(n, s + 1, m); x = std::move(n); } else x.reset())
    FIELD(13, "m", T(std::map<int32_t, N>), {}, x.clear(); for (int k = 0; k < s % 3; ++k) { N n; build(n, s + k, m); x.emplace(k, std::move(n)); })
    FIELD(14, "w", T(std::variant<int32_t, N>), int32_t(3), if (s % 2) { N n; build(n, s + 2, m); x = std::move(n); } else x = int32_t(s))
    FIELD(15, "p", std::shared_ptr<N>, {}, x.reset(); if (s % 2) { x = std::make_shared<N>(); build(*x, s, m); })
    FIELD(16, "q", T(std::vector<std::optional<N>>), {}, x.clear(); for (int k = 0; k < s % 3; ++k) { x.emplace_back(); if (k + s % 2) { N n; build(n, s + k, m); x.back() = std::move(n); } })
    FIELD(17, "r", T(std::array<N, 2>), {}, for (int k = 0; k < 2; ++k) { build(x[k], s + k, m); })
    FIELD(18, "d", std::deque<N>, {}, x.clear(); for (int k = 0; k < s % 3; ++k) { N n; build(n, s + k, m); x.push_back(std::move(n)); })
    // the other structure, and types whose names in the meta data are the same although their formats differ
    FIELD(20, "O", O, O(), build(x, s, m))
    FIELD(21, "V", std::vector<O>, {}, x.resize(1 + s % 2); for (size_t k = 0; k < x.size(); ++k) build(x[k], s + k, m))
    FIELD(22, "Q", std::optional<O>, O(), O n; build(n, s + 1, m); x = std::move(n))
    FIELD(23, "t", std::vector<uint8_t>, {}, x.clear(); for (int k = 0; k < 3 + s; ++k) x.push_back(k * 50))
    FIELD(24, "y", std::vector<bool>, {}, x.clear(); for (int k = 0; k < 3 + s; ++k) x.push_back(k % 2))
    FIELD(25, "g", awl::ring<int32_t>, awl::ring<int32_t>(4), x = awl::ring<int32_t>(4); for (int k = 0; k < s % 5; ++k) x.push_back(k))
    FIELD(26, "z", std::vector<int32_t>, {}, x.clear(); for (int k = 0; k < s % 5; ++k) x.push_back(k))
    FIELD(27, "c", uint8_t, 1, x = 250)
    FIELD(28, "k", bool, true, x = s % 2)
    FIELD(29, "T", std::chrono::system_clock::time_point, {}, x = std::chrono::system_clock::time_point(std::chrono::nanoseconds(1000 + s)))
    FIELD(30, "D", T(awl::decimal<uint64_t, 4>), T(awl::decimal<uint64_t, 4>("1.5")), x = awl::decimal<uint64_t, 4>(s % 2 ? "-2.75" : "3"))
    FIELD(31, "A", std::atomic<int32_t>, 3, x = s)
    FIELD(32, "S", std::set<std::string>, T({ "default" }), x.clear(); for (int k = 0; k < s % 3; ++k) x.insert(std::string(k, 'S')))
    // fields of nested structures
    FIELD(40, "x", int8_t, 5, x = 10 + s)
    FIELD(41, "y", std::string, "ny", x = std::string(s % 4, 'y'))
    FIELD(42, "z", double, 2.5, x = s * 2.0)
    FIELD(43, "u", int32_t, 6, x = 100 + s)
    // fields that are renamed
    FIELD(50, "a", int32_t, 1, x = 100 + s)
    FIELD(51, "b", int32_t, 2, x = 200 + s)
    FIELD(52, "c", int32_t, 3, x = 300 + s)
    FIELD(53, "d", int32_t, 4, x = 400 + s)
#undef T

    template <int Id, class N, class O> struct Hold { typename F<Id, N, O>::type value = F<Id, N, O>::def(); };
    struct None {};

    // Level 0: top, 1: nested, 2: other
    template <int Level, class N, class O, int... Ids> struct Ver : Hold<Ids, N, O>...
    {
        constexpr auto as_const_tuple() const { return std::tie(Hold<Ids, N, O>::value...); }
        constexpr auto as_tuple() const { return as_const_tuple(); }
        constexpr auto as_tuple() { return std::tie(Hold<Ids, N, O>::value...); }
        static const awl::helpers::MemberList& get_member_names()
        {
            static const std::string all = [] { std::string s; ((s += (s.empty() ? "" : ", "), s += F<Ids, N, O>::name), ...); return s; }();
            static const awl::helpers::MemberList ml(all.c_str());
            return ml;
        }
        static Mask mask() { return (0ull | ... | (1ull << Ids)); }
        static std::string text() { std::string s; ((s += std::string(s.empty() ? "" : " ") + F<Ids, N, O>::name + "#" + std::to_string(Ids)), ...); return "{" + s + "}"; }
        void build_(int seed, const Masks& m)
        {
            const Mask mine = Level == 0 ? m.top : Level == 1 ? m.nest : m.other;
            ((mine >> Ids & 1 ? F<Ids, N, O>::put(Hold<Ids, N, O>::value, seed, m) : void()), ...);
        }
    };
    // The user's map of the old names of fields to the new ones.
    std::map<std::string, std::string>& renamed() { static std::map<std::string, std::string> m; return m; }
    template <class T> void build(T& t, int seed, const Masks& m) { t.build_(seed, m); }

}

namespace awl::io
{
    template <int Level, class N, class O, int... Ids> class FieldMap<Ver<Level, N, O, Ids...>>
    {
    public:
        static std::string_view GetNewName(std::string_view old_name)
        {
            auto i = renamed().find(std::string(old_name));
            return i == renamed().end() ? old_name : std::string_view(i->second);
        }
    };
}

namespace
{
    // ---- versions, at run time ----
    struct Version
    {
        std::string text;
        Masks m;
        std::vector<std::string> names;     // of the top fields, in the order of ids
        std::function<Bytes(int seed)> write;
        // "": read, and the value is the expected one
        std::function<std::string(const Bytes&, int seed, const Masks& old, int mode, bool& io, size_t& left)> read;
        std::set<std::string> types;        // names of the scalar types a reader of this version knows
        bool bits_first;                     // of the types named as vector<bool>, the reader finds it first
        bool extra;                          // the reader knows the types of all versions
    };

    template <class S> auto show(const S& s) { return G<S>::show(s); }

    template <class V> struct TypeNames;
    template <class... Ts> struct TypeNames<std::variant<Ts...>>
    {
        static std::set<std::string> get() { std::set<std::string> r; (([&] { if constexpr (!awl::is_reflectable_v<Ts>) r.insert(std::string(awl::mp::make_type_name<Ts>())); }()), ...); return r; }
        static bool bits_first()
        {
            int r = -1;
            ((r < 0 && !awl::is_reflectable_v<Ts> && TypeNames::name<Ts>() == std::string(awl::mp::make_type_name<std::vector<bool>>()) ? void(r = std::is_same_v<Ts, std::vector<bool>>) : void()), ...);
            return r == 1;
        }
        template <class X> static std::string name() { if constexpr (awl::is_reflectable_v<X>) return {}; else return std::string(awl::mp::make_type_name<X>()); }
    };

    template <class S, class V> void reg(std::vector<Version>& out, Masks m, bool extra)
    {
        Version v;
        v.text = S::text();
        v.m = m;
        for (auto& n : S::get_member_names()) v.names.push_back(n);
        v.extra = extra;
        v.types = TypeNames<V>::get();
        v.bits_first = TypeNames<V>::bits_first();
        v.write = [](int seed)
        {
            S s; build(s, seed, Masks{});
            Bytes b; VectorOutputStream o(b);
            Writer<V, VectorOutputStream> w;
            w.WriteNewPrototypes(o);
            w.WriteV(o, s);
            // The same reader reads another object.
            S s2; build(s2, seed + 1, Masks{});
            w.WriteV(o, s2);
            return b;
        };
        v.read = [](const Bytes& b, int seed, const Masks& old, int mode, bool& io, size_t& left) -> std::string
        {
            io = false;
            S want, want2; build(want, seed, old); build(want2, seed + 1, old);
            S got, got2;
            VectorInputStream in(b);
            try
            {
                Reader<V, VectorInputStream> r;
                r.allowDelete = mode == 0;
                r.ReadOldPrototypes(in);
                r.ReadV(in, got);
                r.ReadV(in, got2);
            }
            catch (const IoException& e) { io = true; return std::string("I/O exception: ") + typeid(e).name() + " " + e.What(); }
            catch (const std::exception& e) { return std::string("exception: ") + e.what(); }
            Bytes rest(16);
            left = in.Read(rest.data(), 16);
            const std::string a = G<S>::show(want) + G<S>::show(want2), c = G<S>::show(got) + G<S>::show(got2);
            return a == c ? "" : "read " + c + " instead of " + a;
        };
        out.push_back(std::move(v));
    }

    // The k-th ordered selection of at most L of the P fields.
    template <int L> struct Sel { int n = 0; int id[L > 0 ? L : 1] = {}; };
    constexpr int arrangements(int p, int l) { int n = 1, f = 1; for (int i = 0; i < l; ++i) { f *= p - i; n += f; } return n; }
    template <int L, size_t P> constexpr Sel<L> select(const std::array<int, P>& pool, int k)
    {
        int len = 0, f = 1;
        while (k >= f) { k -= f; f *= int(P) - len; ++len; }
        Sel<L> s; s.n = len;
        bool used[P] = {};
        for (int i = 0; i < len; ++i)
        {
            int rest = 1;
            for (int j = i + 1; j < len; ++j) rest *= int(P) - j;
            int c = k / rest; k %= rest;
            for (size_t q = 0; q < P; ++q) if (!used[q] && c-- == 0) { used[q] = true; s.id[i] = pool[q]; break; }
        }
        return s;
    }
    template <int Level, class N, class O, auto S, size_t... I> auto ver_(std::index_sequence<I...>) -> Ver<Level, N, O, S.id[I]...>;
    template <int Level, class N, class O, auto S> using VerOf = decltype(ver_<Level, N, O, S>(std::make_index_sequence<S.n>()));

    // Extra types a reader can be told about.
    template <class S, class Extra> struct Full { using type = awl::mp::variant_from_structs<S, Extra>; };

    template <class N, class O, class Extra, auto S> void reg_one(std::vector<Version>& out, Mask nm, Mask om)
    {
        using V = VerOf<0, N, O, S>;
        // Two fields of the same name are not a structure.
        bool dup = false;
        for (size_t i = 0; i < V::get_member_names().size(); ++i) for (size_t j = 0; j < i; ++j) if (V::get_member_names()[i] == V::get_member_names()[j]) dup = true;
        if (dup) return;
        const Masks m { V::mask(), nm, om };
        if constexpr (std::is_same_v<Extra, None>) reg<V, awl::mp::variant_from_struct<V>>(out, m, false);
        else reg<V, awl::mp::variant_from_structs<V, Extra>>(out, m, true);
    }
    template <int L, class N, class O, class Extra, auto pool, size_t... K> void reg_all_(std::vector<Version>& out, Mask nm, Mask om, std::index_sequence<K...>)
    {
        (reg_one<N, O, Extra, select<L>(pool, K + 1)>(out, nm, om), ...);
    }
    template <int L, auto pool, class N, class O, class Extra> void reg_all(std::vector<Version>& out, Mask nm, Mask om)
    {
        reg_all_<L, N, O, Extra, pool>(out, nm, om, std::make_index_sequence<arrangements(pool.size(), L) - 1>());
    }

    template <int... I> constexpr Mask bits = (0ull | ... | (1ull << I));
    bool mine(size_t i) { return int(i % mc::cfg().shards) == mc::cfg().shard; }

    void run(const char* name, const std::vector<Version>& vs, int seeds)
    {
        mc::begin_scenario(std::string(name) + ": " + std::to_string(vs.size()) + " versions");
        mc::cnt("versions") = mc::cfg().shard == 0 ? vs.size() : 0;
        for (size_t o = 0; o < vs.size(); ++o) if (mine(o)) for (int seed = 0; seed < seeds; ++seed)
        {
            Bytes b = vs[o].write(seed);
            const Bytes tail = { 9, 8, 7 };
            b.insert(b.end(), tail.begin(), tail.end());
            ++n_states();
            for (size_t n = 0; n < vs.size(); ++n) for (int mode = 0; mode < 2; ++mode)
            {
                mc::trace_reset();
                auto desc = [&](const Version& v) { char t[128]; snprintf(t, sizeof t, " nested fields %llx, other %llx%s", (unsigned long long)(v.m.nest >> 40), (unsigned long long)(v.m.other >> 40), v.extra ? ", all types known" : ""); return v.text + t; };
                mc::trace("written by %s", desc(vs[o]).c_str());
                mc::trace("read by %s, value %d, deleted fields %s", desc(vs[n]).c_str(), seed, mode == 0 ? "are allowed" : "are not allowed");
                bool io; size_t left = 0;
                ++n_exec(); ++n_trans();
                const std::string r = vs[n].read(b, seed, vs[o].m, mode, io, left);
                // same name, other type
                const Mask om = vs[o].m.top, nm = vs[n].m.top;
                auto has = [](Mask m, int i) { return m >> i & 1; };
                bool clash = false;
                for (auto [x, y] : { std::pair(0, 6), { 6, 0 }, { 1, 7 }, { 7, 1 }, { 8, 10 }, { 10, 8 } }) if (has(om, x) && has(nm, y)) clash = true;
                bool unknown = false;
                for (auto& t : vs[o].types) if (!vs[n].types.count(t)) unknown = true;
                const bool deleted = om & ~nm;
                const bool deleted_below = (vs[o].m.nest & ~vs[n].m.nest) || (vs[o].m.other & ~vs[n].m.other);
                if (clash) { if (!io) mc::fail("a field whose type has changed was not reported (%s)", r.c_str()); continue; }
                if (mode == 1 && deleted) { if (!io) mc::fail("a deleted field was not reported (%s)", r.c_str()); continue; }
                if (io && unknown) { mc::cnt("unknown_types_reported")++; continue; }
                if (io && mode == 1 && deleted_below) continue;
                // Known: vector<bool> and vector<uint8_t> have the same name, and a deleted field is skipped by the first type of its name.
                // (std::string has that name too, and the same format as vector<uint8_t>.)
                const Mask others = bits<21, 22>;
                const bool string_deleted = (om & others) && has(vs[o].m.other, 41) && ((om & ~nm & others) || !has(vs[n].m.other, 41));
                const char* confused = vs[n].bits_first && (has(om & ~nm, 23) || string_deleted) ? "deleted-vector-of-bytes-is-skipped-as-vector-of-bool"
                    : vs[n].extra && !vs[n].bits_first && has(om & ~nm, 24) ? "deleted-vector-of-bool-is-skipped-as-vector-of-bytes" : nullptr;
                if (confused && (!r.empty() || left != 3))
                {
                    mc::fail_keyed(confused, !r.empty() ? r : "the stream is not at the end of the data");
                    continue;
                }
                if (!r.empty()) mc::fail("%s", r.c_str());
                if (left != 3) mc::fail("the stream is not at the end of the data (%zu bytes are left instead of 3)", left);
                mc::cnt("pairs_read")++;
            }
        }
        mc::sample_trace(3);
    }

    template <int... I> using Nest = Ver<1, None, None, I...>;
    template <int... I> using Other = Ver<2, None, None, I...>;
    template <auto pool> void nested(std::vector<Version>& vs)
    {
        reg_all<1, pool, Nest<40, 41>, None, None>(vs, bits<40, 41>, 0);
        reg_all<1, pool, Nest<41>, None, None>(vs, bits<41>, 0);
        reg_all<1, pool, Nest<41, 40>, None, None>(vs, bits<40, 41>, 0);
        reg_all<1, pool, Nest<40, 42, 41>, None, None>(vs, bits<40, 41, 42>, 0);
        reg_all<1, pool, Nest<42>, None, None>(vs, bits<42>, 0);
    }
    template <auto pool> void types(std::vector<Version>& vs)
    {
        using All = Ver<0, Nest<40>, Other<43>, 23, 24, 2, 27, 11, 21, 12, 22>;
        reg_all<2, pool, Nest<40>, Other<43>, All>(vs, bits<40>, bits<43>);
        reg_all<1, pool, Nest<40>, Other<41, 43>, Ver<0, Nest<40>, Other<41, 43>, 23, 24, 2, 27, 11, 21, 12, 22>>(vs, bits<40>, bits<41, 43>);
    }
    using AllScalars = Ver<0, None, None, 25, 26, 3, 28, 29, 30, 31, 32, 4>;
}

namespace
{
    // ---- renamed fields and types ----
    struct Renaming
    {
        std::string text;
        std::vector<std::pair<std::string, int>> names;     // and defaults
        std::function<Bytes(bool types)> write;
        std::function<std::vector<int>(const Bytes&, bool types, bool& io, size_t& left)> read;
    };
    std::string other_name(const std::string& t) { return "former " + t; }
    template <class S> void reg_renaming(std::vector<Renaming>& out)
    {
        using V = awl::mp::variant_from_struct<S>;
        Renaming v;
        v.text = S::text();
        S d;
        auto fields = [](S& s) { std::vector<int> r; awl::for_each(s.as_tuple(), [&](auto& f) { r.push_back(f); }); return r; };
        const auto defs = fields(d);
        for (size_t i = 0; i < defs.size(); ++i) v.names.emplace_back(std::string(S::get_member_names()[i]), defs[i]);
        v.write = [](bool types)
        {
            S s; build(s, 7, Masks{});
            Bytes b; VectorOutputStream o(b);
            Writer<V, VectorOutputStream> w;
            w.WriteNewPrototypes(o);
            if (types)
            {
                VectorInputStream in(b);
                Metadata meta;
                Read(in, meta);
                for (auto& t : meta.typeNames) t = other_name(t);
                b.clear();
                Write(o, meta);
            }
            w.WriteV(o, s);
            return b;
        };
        v.read = [fields](const Bytes& b, bool types, bool& io, size_t& left)
        {
            S s;
            VectorInputStream in(b);
            io = false;
            try
            {
                Reader<V, VectorInputStream> r;
                if (types) r.ReadOldPrototypes(in, { { other_name(std::string(awl::mp::make_type_name<int32_t>())), std::string(awl::mp::make_type_name<int32_t>()) } });
                else r.ReadOldPrototypes(in);
                r.ReadV(in, s);
            }
            catch (const IoException&) { io = true; }
            Bytes rest(16);
            left = in.Read(rest.data(), 16);
            return fields(s);
        };
        out.push_back(std::move(v));
    }
    template <int L, auto pool, size_t... K> void reg_renamings(std::vector<Renaming>& out, std::index_sequence<K...>)
    {
        (reg_renaming<VerOf<0, None, None, select<L>(pool, K + 1)>>(out), ...);
    }
    void renamings()
    {
        constexpr std::array<int, 3> old_pool { 50, 51, 52 };
        constexpr std::array<int, 4> new_pool { 50, 51, 52, 53 };
        std::vector<Renaming> os, ns;
        reg_renamings<3, old_pool>(os, std::make_index_sequence<arrangements(3, 3) - 1>());
        reg_renamings<3, new_pool>(ns, std::make_index_sequence<arrangements(4, 3) - 1>());
        mc::begin_scenario("renamed fields and types");
        mc::cnt("versions") += mc::cfg().shard == 0 ? ns.size() : 0;
        const char* targets[] = { "a", "b", "c", "d", "" };
        for (size_t o = 0; o < os.size(); ++o) if (mine(o)) for (size_t n = 0; n < ns.size(); ++n) for (int map = 0; map < 125; ++map) for (int types = 0; types < 3; ++types)
        {
            if (types && map % 31) continue;
            mc::trace_reset();
            ++n_states(); ++n_exec(); ++n_trans();
            renamed() = { { "a", targets[map % 5] }, { "b", targets[map / 5 % 5] }, { "c", targets[map / 25] } };
            mc::trace("written by %s, read by %s, renamed a to '%s', b to '%s', c to '%s'%s", os[o].text.c_str(), ns[n].text.c_str(), targets[map % 5], targets[map / 5 % 5], targets[map / 25], types == 1 ? ", types renamed" : types == 2 ? ", types renamed, the reader does not know" : "");
            Bytes b = os[o].write(types != 0);
            b.insert(b.end(), { 9, 8, 7 });
            bool io; size_t left;
            const auto got = ns[n].read(b, types == 1, io, left);
            if (types == 2) { if (!io) mc::fail("an unknown type was accepted"); continue; }
            if (io) mc::fail("an I/O exception");
            if (left != 3) mc::fail("the stream is not at the end of the data");
            for (size_t f = 0; f < ns[n].names.size(); ++f)
            {
                int want = ns[n].names[f].second;
                for (auto& [name, def] : os[o].names) if (renamed()[name] == ns[n].names[f].first) want = (name[0] - 'a' + 1) * 100 + 7;
                if (got[f] != want) mc::fail("field %s is %d instead of %d", ns[n].names[f].first.c_str(), got[f], want);
            }
            mc::cnt("pairs_read")++;
        }
        renamed().clear();
        mc::sample_trace(2);
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    std::vector<Version> vs;
#if PART == 0
    // Flat structures of up to three fields out of six, in every order, among them fields that change their types.
    constexpr std::array<int, 6> pool { 0, 1, 2, 4, 6, 7 };
    reg_all<3, pool, None, None, None>(vs, 0, 0);
    run("flat structures", vs, 4);
    renamings();
#elif PART == 1
    // A nested structure with five versions inside every kind of container.
    constexpr std::array<int, 3> one { 10, 11, 0 };
    constexpr std::array<int, 9> pool { 10, 11, 12, 13, 14, 15, 16, 17, 18 };
    nested<pool>(vs);
    run("nested structures", vs, 4);
#elif PART == 2
    // Types whose names are equal although their formats differ, two nested structures with versions of their own.
    constexpr std::array<int, 8> pool { 23, 24, 2, 27, 11, 21, 12, 22 };
    types<pool>(vs);
    run("types of equal names", vs, 3);
#else
    constexpr std::array<int, 9> pool { 25, 26, 3, 28, 29, 30, 31, 32, 4 };
    reg_all<2, pool, None, None, AllScalars>(vs, 0, 0);
    run("deleted fields of every type", vs, 3);
#endif
    return mc::finish();
}
