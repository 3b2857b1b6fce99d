// R01: reflection, tuple helpers, type names and type lists.  Member lists are enumerated in every spelling the preprocessor can
// produce; structures over every combination of small values; tuple shapes and type nestings by instantiating them all.
#include "heap.hpp"
#include "Awl/Reflection.h"
#include "Awl/Prototype.h"
#include "Awl/Hashable.h"
#include "Awl/TupleHelpers.h"
#include "Awl/Mp/TypeDescriptor.h"
#include "Awl/Mp/TypeCollector.h"
#include "Awl/Mp/TypeHash.h"
#include "Awl/Mp/TupleToVariant.h"
#include "Awl/Mp/VariantFromStructs.h"
#include <list>
#include <map>
#include <deque>
#include <unordered_map>
#include <typeinfo>

namespace
{
    void tick(const char* what) { mc::cnt(what) += 1; mc::cnt("executions") += 1; mc::cnt("states") += 1; mc::cnt("transitions") += 1; }

#if PART == 0
    // ---------------------------------------------------------------- member lists
    using Names = std::vector<std::string>;

    void check_list(const std::string& text, const Names& want, const Names& probes)
    {
        mc::trace_reset();
        mc::trace("the list \"%s\"", text.c_str());
        awl::helpers::MemberList ml(text.c_str());
        if (ml.size() != want.size()) mc::fail("%zu names instead of %zu in \"%s\"", ml.size(), want.size(), text.c_str());
        size_t i = 0;
        for (const std::string& n : ml) { if (n != want[i]) mc::fail("the name '%s' instead of '%s' in \"%s\"", n.c_str(), want[i].c_str(), text.c_str()); ++i; }
        if (i != want.size() || size_t(ml.cend() - ml.cbegin()) != i || size_t(ml.end() - ml.begin()) != i) mc::fail("the range of \"%s\"", text.c_str());
        for (i = 0; i < want.size(); ++i) if (ml[i] != want[i]) mc::fail("name %zu of \"%s\" is '%s'", i, text.c_str(), ml[i].c_str());
        for (const std::string& p : probes)
        {
            const size_t at = std::find(want.begin(), want.end(), p) - want.begin();
            if (size_t(ml.find(p) - ml.begin()) != at) mc::fail("find('%s') in \"%s\"", p.c_str(), text.c_str());
            if (size_t(ml.find_cstr(p.c_str()) - ml.begin()) != at) mc::fail("find_cstr('%s') in \"%s\"", p.c_str(), text.c_str());
            if (ml.find_index(p) != (at == want.size() ? awl::helpers::MemberList::NotAnIndex : at)) mc::fail("find_index('%s') in \"%s\"", p.c_str(), text.c_str());
        }
        tick("lists");
    }

    void member_lists(bool th)
    {
        if (!mc::begin_scenario("member lists")) return;
        const Names vocab = { "a", "b", "ab", "a1", "_", "m_a" };
        const Names probes = { "a", "b", "ab", "a1", "_", "m_a", "", "A", "m", "a ", " a", "abc", "a,b" };
        const char* seps[] = { ",", ", ", " ,", " , " };
        check_list("", {}, probes);
        for (size_t n = 1; n <= (th ? 5u : 4u); ++n)
        {
            std::vector<size_t> k(n), s(n);
            for (;;)
            {
                Names want;
                bool unique = true;
                for (size_t i = 0; i < n; ++i) { for (auto& w : want) if (w == vocab[k[i]]) unique = false; want.push_back(vocab[k[i]]); }
                if (unique)
                {
                    std::fill(s.begin(), s.end(), 0);
                    for (;;)
                    {
                        std::string text = want[0];
                        for (size_t i = 1; i < n; ++i) text += seps[s[i]] + want[i];
                        check_list(text, want, probes);
                        size_t i = 1;
                        while (i < n && ++s[i] == 4) s[i++] = 0;
                        if (i >= n) break;
                    }
                }
                size_t i = 0;
                while (i < n && ++k[i] == vocab.size()) k[i++] = 0;
                if (i == n) break;
            }
        }
        // Names of every length up to 70, in lists of up to 40.
        for (size_t len = 1; len <= 70; ++len)
        {
            Names want = { "x", std::string(len, 'y'), "z" };
            check_list(want[0] + ", " + want[1] + " ," + want[2], want, want);
            Names many; std::string text;
            for (size_t i = 0; i < len && i < 40; ++i) { many.push_back("field" + std::to_string(i) + std::string(len % 5, '_')); text += (i ? ", " : "") + many.back(); }
            check_list(text, many, many);
        }
    }

    // ---------------------------------------------------------------- structures
    struct One { int only = 0; AWL_REFLECT(only) };
    AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(One)
    struct Abc { int a = 0; std::string b; unsigned char c = 0; int hidden = 0; AWL_REFLECT(a, b, c) };
    AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(Abc)
    // Declared in another order than reflected, spelled with odd blanks.
    struct Cba { int a = 0, b = 0, c = 0, d = 0; AWL_REFLECT(d ,b,
        a ,  c) };
    AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(Cba)
    struct Outer { int n = 0; Abc in; AWL_REFLECT(n, in) };
    AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(Outer)
    struct Vec { std::vector<int> v; int k = 0; AWL_REFLECT(v, k) };
    AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(Vec)
}

AWL_HASHABLE(One)
AWL_HASHABLE(Abc)
AWL_HASHABLE(Cba)
AWL_HASHABLE(Outer)
AWL_HASHABLE(Vec)

namespace
{
    template <class T> void relations(const char* name, const std::vector<T>& all, const std::vector<std::vector<long>>& keys, int field_bits)
    {
        (void)field_bits;
        for (size_t i = 0; i < all.size(); ++i)
            for (size_t j = 0; j < all.size(); ++j)
            {
                const T& x = all[i]; const T& y = all[j];
                const int want = keys[i] < keys[j] ? -1 : keys[j] < keys[i] ? 1 : 0;
                if ((x == y) != (want == 0) || (x != y) != (want != 0) || (x < y) != (want < 0) || (x > y) != (want > 0) || (x <= y) != (want <= 0) || (x >= y) != (want >= 0)
                    || awl::objects_equal(x, y) != (want == 0) || awl::objects_less(x, y) != (want < 0) || awl::objects_greater(x, y) != (want > 0))
                    mc::fail("%s: the relations of values %zu and %zu", name, i, j);
                if (want == 0 && std::hash<T>()(x) != std::hash<T>()(y)) mc::fail("%s: equal values %zu and %zu hash differently", name, i, j);
                // One changed field always shows: the hash depends on every member.
                int differ = 0;
                for (size_t k = 0; k < keys[i].size(); ++k) differ += keys[i][k] != keys[j][k];
                if (differ == 1 && std::hash<T>()(x) == std::hash<T>()(y)) mc::fail("%s: values %zu and %zu differ in one member and hash equally", name, i, j);
                tick("relations");
            }
    }

    void structures(bool th)
    {
        if (mc::begin_scenario("relations"))
        {
            const int n = th ? 4 : 3;
            { std::vector<One> v; std::vector<std::vector<long>> k; for (int a = -2; a < n; ++a) { One o; o.only = a; v.push_back(o); k.push_back({ a }); } relations("One", v, k, 1); }
            { std::vector<Abc> v; std::vector<std::vector<long>> k; const char* s[] = { "", "a", "ab", "b" };
              for (int a = -1; a < n; ++a) for (int b = 0; b < n; ++b) for (int c : { 0, 127, 200, 255 }) for (int h = 0; h < 2; ++h) { Abc o; o.a = a; o.b = s[b]; o.c = (unsigned char)c; o.hidden = h; v.push_back(o); k.push_back({ a, b, c }); } relations("Abc", v, k, 3); }
            { std::vector<Cba> v; std::vector<std::vector<long>> k; for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int c = 0; c < n; ++c) for (int d = 0; d < n; ++d) { Cba o; o.a = a; o.b = b; o.c = c; o.d = d; v.push_back(o); k.push_back({ d, b, a, c }); } relations("Cba", v, k, 4); }
            { std::vector<Outer> v; std::vector<std::vector<long>> k; const char* s[] = { "", "a", "b" };
              for (int m = 0; m < 2; ++m) for (int a = 0; a < 2; ++a) for (int b = 0; b < 3; ++b) for (int c = 0; c < 2; ++c) { Outer o; o.n = m; o.in.a = a; o.in.b = s[b]; o.in.c = (unsigned char)c; v.push_back(o); k.push_back({ m, a, b, c }); } relations("Outer", v, k, 4); }
            { std::vector<Vec> v; std::vector<std::vector<long>> k; // the key of a vector: its digits followed by terminators
              std::vector<std::vector<int>> vs = { {}, { 0 }, { 0, 0 }, { 0, 1 }, { 1 }, { 1, 0 } }; for (long i = 0; i < 6; ++i) for (int q = 0; q < n; ++q) { Vec o; o.v = vs[i]; o.k = q; v.push_back(o); k.push_back({ i, q }); } relations("Vec", v, k, 2); }
        }
        if (mc::begin_scenario("member access"))
        {
            const auto names = [](const awl::helpers::MemberList& l) { std::string s; for (auto& n : l) s += n + "|"; return s; };
            if (names(One::get_member_names()) != "only|" || names(Abc::get_member_names()) != "a|b|c|" || names(Cba::get_member_names()) != "d|b|a|c|" || names(Outer::get_member_names()) != "n|in|") mc::fail("the member names");
            if (awl::EmptyStringizable::get_member_names().size() != 0 || std::tuple_size_v<decltype(awl::EmptyStringizable().as_tuple())> != 0) mc::fail("the empty structure");
            static_assert(awl::is_reflectable_v<Abc> && awl::is_tuplizable_v<Abc> && !awl::is_reflectable_v<int> && !awl::is_tuplizable_v<std::string> && !awl::is_reflectable_v<awl::Field> && awl::is_tuplizable_v<awl::Field>);
            for (int a = -2; a < 3; ++a) for (int c = 0; c < 256; c += 51)
            {
                Abc o; o.a = a; o.b = std::to_string(c); o.c = (unsigned char)c;
                const Abc& co = o;
                auto t = awl::object_as_tuple(o);
                auto ct = awl::object_as_const_tuple(o);
                auto ct2 = awl::object_as_tuple(co);
                if (&std::get<0>(t) != &o.a || &std::get<1>(t) != &o.b || &std::get<2>(t) != &o.c || &std::get<0>(ct) != &o.a || &std::get<2>(ct2) != &o.c) mc::fail("the tuple refers to other objects");
                static_assert(std::is_same_v<decltype(ct), std::tuple<const int&, const std::string&, const unsigned char&>> && std::is_same_v<decltype(ct2), decltype(ct)> && std::is_same_v<decltype(t), std::tuple<int&, std::string&, unsigned char&>>);
                Abc p; p.hidden = 7;
                awl::object_as_tuple(p) = t;
                if (p.a != a || p.b != o.b || p.c != o.c || p.hidden != 7) mc::fail("assignment through the tuple");
                tick("accesses");
            }
        }
        if (mc::begin_scenario("prototypes"))
        {
            using V = std::variant<int, std::string, unsigned char, double>;
            const awl::AttachedPrototype<V, Abc> abc; const awl::AttachedPrototype<V, Outer> outer; const awl::AttachedPrototype<V, Cba> cba; const awl::AttachedPrototype<V, One> one;
            auto check = [](const awl::Prototype& p, const std::vector<std::pair<std::string, size_t>>& want)
            {
                if (p.GetCount() != want.size()) mc::fail("the number of fields of a prototype");
                for (size_t i = 0; i < want.size(); ++i) { const awl::Field f = p.GetField(i); if (f.name != want[i].first || f.type != want[i].second || !(f == awl::Field{ want[i].first, want[i].second }) || f == awl::Field{ want[i].first, want[i].second + 1 }) mc::fail("field %zu of a prototype", i); }
                awl::DetachedPrototype d(p);
                if (d.GetCount() != want.size()) mc::fail("the number of fields of a copied prototype");
                std::vector<awl::DetachedPrototype::FieldContainer> fields;
                for (size_t i = 0; i < want.size(); ++i) { const awl::Field f = d.GetField(i); if (f.name != want[i].first || f.type != want[i].second) mc::fail("field %zu of a copied prototype", i); fields.push_back({ want[i].first, want[i].second }); }
                if (!(awl::DetachedPrototype(fields) == d) || awl::DetachedPrototype(fields) != d) mc::fail("equal prototypes");
                if (want.size() && d == awl::DetachedPrototype()) mc::fail("a prototype equals the empty one");
                for (size_t i = 0; i < want.size(); ++i)
                {
                    if (want[i].second == awl::Field::NoType) continue;
                    awl::DetachedPrototype e(d);
                    e.SetFieldType(i, 9);
                    for (size_t j = 0; j < want.size(); ++j) if (e.GetField(j).type != (j == i ? 9 : want[j].second) || e.GetField(j).name != want[j].first) mc::fail("SetFieldType(%zu) and field %zu", i, j);
                    if (e == d) mc::fail("a changed type is not seen");
                    auto renamed = fields; renamed[i].name += "x";
                    if (awl::DetachedPrototype(renamed) == d) mc::fail("a changed name is not seen");
                }
                tick("prototypes");
            };
            check(abc, { { "a", 0 }, { "b", 1 }, { "c", 2 } });
            check(outer, { { "n", 0 }, { "in", awl::Field::NoType } });
            check(cba, { { "d", 0 }, { "b", 0 }, { "a", 0 }, { "c", 0 } });
            check(one, { { "only", 0 } });
        }
    }

#endif
#if PART >= 2
    // ---------------------------------------------------------------- tuples
    template <class... Ts> struct list {};
    template <int N> struct Val { int v = N; static constexpr int id = N; bool operator==(const Val&) const = default; };

    using Log = std::vector<std::pair<int, int>>;
    template <template <class> class, class> struct dummy;
    template <class T> struct Wrap { T in; explicit Wrap(const T& t) : in(t) {} Wrap() = default; };
    template <size_t I> struct Pos { static constexpr size_t index = I; int got = -1; Pos() = default; template <class T> explicit Pos(const T& t) : got(t.v) {} };

    template <class T> struct ids;
    template <template <class...> class C, class... Ts> struct ids<C<Ts...>> { static std::vector<int> get() { return { Ts::id... }; } };
    struct Mono { static constexpr int id = -1; };
    template <> struct ids<std::variant<std::monostate>> { static std::vector<int> get() { return { -1 }; } };
    template <class T> struct is_even { static constexpr bool value = T::id % 2 == 0; };

    struct Base { int b = 0; virtual ~Base() = default; };
    template <int N> struct Derived : Base { int d = N; Derived() { b = N; } };

    template <int... N> void shape(list<Val<N>...>)
    {
        const std::vector<int> want = { N... };
        std::tuple<Val<N>...> t;
        const std::tuple<Val<N>...> ct;
        int step = 0;
        std::apply([&](auto&... x) { ((x.v = N * 100 + step++), ...); }, t);
        std::vector<int> vals; step = 0; for (int n : want) vals.push_back(n * 100 + step++);
        std::vector<int> got; std::vector<size_t> idx;
        awl::for_each(t, [&](auto& x) { got.push_back(x.v); x.v += 1; });
        if (got != vals) mc::fail("for_each: order or elements");
        got.clear();
        awl::for_each_index(t, [&](auto& x, auto i) { got.push_back(x.v - 1); idx.push_back(i); static_assert(decltype(i)::value < sizeof...(N)); x.v -= 1; });
        std::vector<size_t> all(want.size()); for (size_t i = 0; i < all.size(); ++i) all[i] = i;
        if (got != vals || idx != all) mc::fail("for_each_index: order or elements");
        got.clear(); awl::for_each(ct, [&](const auto& x) { got.push_back(x.v); }); if (got != want) mc::fail("for_each on a constant");
        got.clear(); idx.clear(); awl::for_each_index(ct, [&](const auto& x, auto i) { got.push_back(x.v); idx.push_back(i); }); if (got != want || idx != all) mc::fail("for_each_index on a constant");
        auto values = [](auto& tt) { std::vector<int> r; std::apply([&](auto&... x) { (r.push_back(x), ...); }, tt); return r; };
        auto tr = awl::transform_tuple(t, [](auto& x) { return x.v; });
        auto ctr = awl::transform_tuple(ct, [](const auto& x) { return x.v; });
        if (values(tr) != vals || values(ctr) != want) mc::fail("transform_tuple");
        auto wr = awl::transform_t2t<Wrap>(t);
        static_assert(std::is_same_v<decltype(wr), std::tuple<Wrap<Val<N>>...>>);
        got.clear(); std::apply([&](auto&... x) { (got.push_back(x.in.v), ...); }, wr); if (got != vals) mc::fail("transform_t2t");
        auto ps = awl::transform_t2ti<Pos>(t);
        got.clear(); idx.clear(); std::apply([&](auto&... x) { ((got.push_back(x.got), idx.push_back(std::decay_t<decltype(x)>::index)), ...); }, ps); if (got != vals || idx != all) mc::fail("transform_t2ti");
        if constexpr (sizeof...(N) != 0)
        {
            auto ar = awl::tuple_to_array(t, [](auto& x) { return x.v; });
            auto car = awl::tuple_to_array(ct, [](const auto& x) { return x.v; });
            if (std::vector<int>(ar.begin(), ar.end()) != vals || std::vector<int>(car.begin(), car.end()) != want) mc::fail("tuple_to_array");
            std::tuple<Derived<N>...> dt; const std::tuple<Derived<N>...> cdt;
            auto ptrs = awl::tuple_cast<Base>(dt); auto cptrs = awl::tuple_cast<const Base>(cdt);
            got.clear(); for (Base* p : ptrs) got.push_back(p->b); std::vector<int> cgot; for (const Base* p : cptrs) cgot.push_back(p->b);
            if (got != want || cgot != want) mc::fail("tuple_cast");
            size_t k = 0; std::apply([&](auto&... x) { ((ptrs[k] == &x ? void() : mc::fail("tuple_cast: another object"), ++k), ...); }, dt);
            using V = std::variant<Val<N>...>;
            auto v2t = awl::transform_v2t<V, Wrap>();
            static_assert(std::is_same_v<decltype(v2t), std::tuple<Wrap<Val<N>>...>>);
            auto v2ti = awl::transform_v2ti<V, Pos>();
            idx.clear(); std::apply([&](auto&... x) { (idx.push_back(std::decay_t<decltype(x)>::index), ...); }, v2ti); if (idx != all) mc::fail("transform_v2ti");
            if (awl::sizeof_tuple(t) != want.size() * sizeof(int)) mc::fail("sizeof_tuple");
            // To a variant: every type once, in the order of first occurrence; the filters keep the order.
            using TV = awl::mp::tuple_to_variant<std::tuple<Val<N>...>>;
            std::vector<int> once; for (int n : want) if (std::find(once.begin(), once.end(), n) == once.end()) once.push_back(n);
            if (ids<TV>::get() != once) mc::fail("tuple_to_variant");
            if (awl::mp::variant_contains<TV, Val<0>> != (std::find(want.begin(), want.end(), 0) != want.end())) mc::fail("variant_contains");
            using SV = awl::mp::split_variant<std::variant<Val<N>...>, is_even>;
            std::vector<int> even, odd; for (int n : want) (n % 2 == 0 ? even : odd).push_back(n);
            if (even.empty()) even.push_back(-1);
            if (odd.empty()) odd.push_back(-1);
            if (ids<typename SV::matching>::get() != even || ids<typename SV::non_matching>::get() != odd || ids<awl::mp::filter_variant<std::variant<Val<N>...>, is_even>>::get() != even) mc::fail("split_variant");
            // Indices of types: each distinct type is found in the list of distinct types and mapped.
            auto mapped = awl::map_types_t2v<std::tuple<Val<N>&...>, TV>();
            for (size_t i = 0; i < want.size(); ++i) if (mapped[i] != size_t(std::find(once.begin(), once.end(), want[i]) - once.begin())) mc::fail("map_types_t2v");
            using TT = typename decltype([]<class... X>(std::variant<X...>*) { return std::type_identity<std::tuple<X...>>(); }((TV*)nullptr))::type;
            auto mapped2 = awl::map_types_t2t<std::tuple<Val<N>...>, TT>();
            if (!std::equal(mapped.begin(), mapped.end(), mapped2.begin())) mc::fail("map_types_t2t");
        }
        tick("shapes");
    }

    template <int D, class... Ts> void shapes(list<Ts...> l)
    {
        shape(l);
        if constexpr (D > 0) { shapes<D - 1>(list<Ts..., Val<0>>()); shapes<D - 1>(list<Ts..., Val<1>>()); shapes<D - 1>(list<Ts..., Val<2>>()); }
    }

    void tuples()
    {
        if (mc::begin_scenario("tuple shapes"))
        {
            if (PART == 2) shape(list<>());
            shapes<3>(list<Val<PART - 2>>());
        }
        if (!mc::begin_scenario("tuples of references and values")) return;
        for (int a = -1; a < 2; ++a) for (int b = 0; b < 2; ++b)
        {
            int x = a; std::string s(b, 'q'); const std::string cs = "const";
            auto u = awl::make_universal_tuple(x, s, cs, int(b), std::string("tmp"));
            static_assert(std::is_same_v<decltype(u), std::tuple<int&, std::string&, const std::string&, int, std::string>>);
            if (&std::get<0>(u) != &x || &std::get<1>(u) != &s || &std::get<2>(u) != &cs || std::get<3>(u) != b || std::get<4>(u) != "tmp") mc::fail("make_universal_tuple");
            using T = std::tuple<std::string, long>;
            auto m1 = awl::make_similar_tuple<T>(s, long(a));
            if (std::get<0>(m1) != s || std::get<1>(m1) != a) mc::fail("make_similar_tuple");
            auto m2 = awl::make_similar_tuple<T>("text", x);
            if (std::get<0>(m2) != "text" || std::get<1>(m2) != a) mc::fail("make_similar_tuple with conversions");
            auto m3 = awl::make_similar_tuple<T>(cs, b);
            if (std::get<0>(m3) != "const" || std::get<1>(m3) != b) mc::fail("make_similar_tuple of a constant");
            static_assert(std::is_same_v<awl::tuple_make_t<int&, const char*>, std::tuple<int, const char*>> && std::is_same_v<awl::tuple_cat_t<std::tuple<int>, std::tuple<>, std::tuple<bool, int>>, std::tuple<int, bool, int>>);
            tick("accesses");
        }
    }

#endif
#if PART == 1
    // ---------------------------------------------------------------- type names
    struct S1 { int a; std::string b; AWL_REFLECT(a, b) };
    struct S2 { S1 s; std::vector<S1> v; double d; AWL_REFLECT(s, v, d) };
    enum class E8 : uint8_t { x }; enum class E32 : int32_t { x };

    // The reference: names as the version tolerant format stores them.
    template <class T> struct ref;
    template <> struct ref<bool> { static std::string name() { return "int8_t"; } };
    template <> struct ref<char> { static std::string name() { return "int8_t"; } };
    template <> struct ref<int8_t> { static std::string name() { return "int8_t"; } };
    template <> struct ref<uint8_t> { static std::string name() { return "int8_t"; } };
    template <> struct ref<int16_t> { static std::string name() { return "int16_t"; } };
    template <> struct ref<uint16_t> { static std::string name() { return "int16_t"; } };
    template <> struct ref<int32_t> { static std::string name() { return "int32_t"; } };
    template <> struct ref<uint32_t> { static std::string name() { return "int32_t"; } };
    template <> struct ref<int64_t> { static std::string name() { return "int64_t"; } };
    template <> struct ref<uint64_t> { static std::string name() { return "int64_t"; } };
    template <> struct ref<float> { static std::string name() { return "float32_t"; } };
    template <> struct ref<double> { static std::string name() { return "float64_t"; } };
    template <> struct ref<long double> { static std::string name() { return "float128_t"; } };
    template <> struct ref<S1> { static std::string name() { return "struct"; } };
    template <> struct ref<S2> { static std::string name() { return "struct"; } };
    template <> struct ref<E8> { static std::string name() { return "int8_t"; } };
    template <> struct ref<E32> { static std::string name() { return "int32_t"; } };
    template <> struct ref<std::string> { static std::string name() { return "sequence<int8_t>"; } };
    template <> struct ref<std::wstring> { static std::string name() { return "sequence<int32_t>"; } };
    template <> struct ref<awl::decimal<uint64_t, 4>> { static std::string name() { return "decimal"; } };
    template <> struct ref<awl::decimal<uint64_t, 5>> { static std::string name() { return "decimal<int64_t, 5>"; } };
    template <> struct ref<std::chrono::system_clock::time_point> { static std::string name() { return "int64_t"; } };
    template <> struct ref<std::chrono::time_point<std::chrono::steady_clock, std::chrono::seconds>> { static std::string name() { return "int64_t"; } };
    template <class T> struct ref<std::vector<T>> { static std::string name() { return "sequence<" + ref<T>::name() + ">"; } };
    template <class T> struct ref<std::list<T>> { static std::string name() { return "sequence<" + ref<T>::name() + ">"; } };
    template <class T> struct ref<std::deque<T>> { static std::string name() { return "sequence<" + ref<T>::name() + ">"; } };
    template <class T> struct ref<std::set<T>> { static std::string name() { return "sequence<" + ref<T>::name() + ">"; } };
    template <class K, class T> struct ref<std::map<K, T>> { static std::string name() { return "sequence<pair<" + ref<K>::name() + ", " + ref<T>::name() + ">>"; } };
    template <class A, class B> struct ref<std::pair<A, B>> { static std::string name() { return "pair<" + ref<A>::name() + ", " + ref<B>::name() + ">"; } };
    template <class T> struct ref<std::optional<T>> { static std::string name() { return "optional<" + ref<T>::name() + ">"; } };
    template <class T> struct ref<std::atomic<T>> { static std::string name() { return ref<T>::name(); } };
    template <class T> struct ref<std::shared_ptr<T>> { static std::string name() { return "pointer<" + ref<T>::name() + ">"; } };
    template <class T> struct ref<std::unique_ptr<T>> { static std::string name() { return "pointer<" + ref<T>::name() + ">"; } };
    template <class T> struct ref<T*> { static std::string name() { return "pointer<" + ref<T>::name() + ">"; } };
    template <class... Ts> struct ref<std::variant<Ts...>> { static std::string name() { std::string s = "variant<"; ((s += ref<Ts>::name() + ", "), ...); return s + ">"; } };
    // The length of an array is not looked up: it is put together of single digits.
    template <class T, size_t N> struct ref<std::array<T, N>> { static std::string name() { std::string d; size_t n = N; do { d.insert(d.begin(), char('0' + n % 10)); n /= 10; } while (n); return "array<" + ref<T>::name() + ", " + d + ">"; } };

    uint64_t crc(const std::string& s)
    {
        uint64_t r = 0;
        for (unsigned char c : s) for (int i = 0; i < 8; ++i) { const bool bit = ((c >> i) ^ r) & 1; r >>= 1; if (bit) r ^= 0x95ac9329ac4bc9b5ull; }
        return r;
    }

    std::map<uint64_t, std::string> g_hashes;

    template <class T> void named()
    {
        const std::string want = ref<T>::name();
        constexpr auto name = awl::mp::make_type_name<T>();
        const std::string got = name;
        if (got != want) mc::fail("the name '%s' instead of '%s'", got.c_str(), want.c_str());
        constexpr uint64_t h = awl::mp::make_type_hash<T>();
        if (h != crc(want) || awl::mp::calc_type_hash(name) != h || awl::mp::make_type_hash<T>() != h) mc::fail("the hash of '%s'", want.c_str());
        auto p = g_hashes.emplace(h, want);
        if (p.first->second != want) mc::fail("'%s' and '%s' have the same hash", want.c_str(), p.first->second.c_str());
        tick("type names");
    }

    template <int D, class T> void nested()
    {
        named<T>();
        if constexpr (D > 0)
        {
            nested<D - 1, std::vector<T>>();
            nested<D - 1, std::optional<T>>();
            nested<D - 1, std::array<T, 3>>();
            nested<D - 1, std::shared_ptr<T>>();
            nested<D - 1, std::variant<T, int16_t>>();
            nested<D - 1, std::pair<T, float>>();
        }
    }

    // ---------------------------------------------------------------- collected types
    template <class> struct type_list_names;
    template <class... Ts> struct type_list_names<std::tuple<Ts...>> { static std::vector<std::string> get() { return { typeid(Ts).name()... }; } };
    template <class... Ts> struct type_list_names<std::variant<Ts...>> { static std::vector<std::string> get() { return { typeid(Ts).name()... }; } };

    template <class... Want, class T> void collected(const char* what, std::type_identity<T>, std::type_identity<std::variant<Want...>>)
    {
        using V = awl::mp::variant_from_struct<T>;
        if (type_list_names<V>::get() != type_list_names<std::variant<Want...>>::get()) mc::fail("the types of %s", what);
        using V2 = awl::mp::variant_from_structs<T, T>;
        if (!std::is_same_v<V, V2>) mc::fail("the types of two times %s", what);
        tick("collected");
    }

    struct C1 { int a; double b; int c; AWL_REFLECT(a, b, c) };
    struct C2 { std::string s; std::vector<int> v; std::vector<std::string> vs; AWL_REFLECT(s, v, vs) };
    struct C3 { C1 c; std::vector<C1> v; std::map<std::string, C2> m; std::optional<short> o; AWL_REFLECT(c, v, m, o) };
    struct C4 { std::array<int, 3> a; std::array<std::string, 2> b; std::pair<char, long> p; std::variant<int, float> v; std::shared_ptr<double> d; AWL_REFLECT(a, b, p, v, d) };
    struct C5 { C3 x; C1 y; AWL_REFLECT(x, y) };

    template <class T> using ty = std::type_identity<T>;

    void types()
    {
        if (mc::begin_scenario("type names"))
        {
            named<bool>(); named<char>(); named<uint8_t>(); named<int16_t>(); named<uint16_t>(); named<uint32_t>(); named<uint64_t>(); named<float>(); named<long double>(); named<E8>(); named<E32>();
            named<std::wstring>(); named<std::list<int>>(); named<std::deque<int>>(); named<std::set<std::string>>(); named<std::map<int, std::string>>(); named<std::map<std::string, std::vector<S2>>>(); named<std::atomic<int>>(); named<std::unique_ptr<S1>>(); named<double*>();
            named<awl::decimal<uint64_t, 4>>(); named<awl::decimal<uint64_t, 5>>(); named<std::chrono::system_clock::time_point>(); named<std::chrono::time_point<std::chrono::steady_clock, std::chrono::seconds>>();
            named<std::array<int, 0>>(); named<std::array<int, 9>>(); named<std::array<int, 10>>(); named<std::array<int, 11>>(); named<std::array<int, 99>>(); named<std::array<int, 100>>(); named<std::array<int, 101>>(); named<std::array<int, 1000>>(); named<std::array<int, 65536>>(); named<std::array<int, 1234567890>>();
            named<std::variant<int>>(); named<std::variant<S1, std::string, double>>(); named<std::variant<double, std::string, S1>>(); named<std::pair<std::pair<int, S1>, std::variant<bool>>>();
            nested<2, int>(); nested<2, int64_t>(); nested<2, double>(); nested<2, std::string>(); nested<2, S1>();
        }
        if (mc::begin_scenario("collected types"))
        {
            using std::string; using std::vector; using std::variant;
            collected("C1", ty<C1>(), ty<variant<C1, int, double>>());
            collected("C2", ty<C2>(), ty<variant<C2, string, vector<int>, vector<string>>>());
            collected("C3", ty<C3>(), ty<variant<C3, C1, int, double, vector<C1>, std::map<string, C2>, string, C2, vector<int>, vector<string>, std::optional<short>, short>>());
            collected("C4", ty<C4>(), ty<variant<C4, std::array<int, 3>, std::array<string, 2>, string, char, long, variant<int, float>, int, float, std::shared_ptr<double>, double>>());
            collected("C5", ty<C5>(), ty<variant<C5, C3, C1, int, double, vector<C1>, std::map<string, C2>, string, C2, vector<int>, vector<string>, std::optional<short>, short>>());
        }
    }
#endif
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
#if PART == 0
    member_lists(th);
    structures(th);
#elif PART == 1
    types();
#else
    tuples();
#endif
    (void)th;
    return mc::finish();
}
