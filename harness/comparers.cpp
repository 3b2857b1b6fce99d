// C06: every comparer of every kind over all pairs and triples of small composite objects, against the tuple order of their keys.
#include "mc.hpp"
#include "Awl/KeyCompare.h"
#include "Awl/CompositeCompare.h"
#include "Awl/TransparentCompositeCompare.h"
#include "Awl/ReverseCompare.h"
#include "Awl/Reflection.h"
#include "Awl/VectorSet.h"
#include <memory>
#include <set>

namespace
{
    struct X
    {
        int a;
        std::string b;
        int c;
        int GetA() const { return a; }
        const std::string& GetB() const { return b; }
        std::string CopyB() const { return b; }
        long SumAC() const { return a + c; }
        AWL_REFLECT(a, b, c)
    };
    AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(X)

    using Rank = std::vector<int>;      // the reference: keys as small numbers, compared lexicographically
    std::vector<X> domain;
    const char* Bs[] = { "", "a", "b" };
    int rb(const std::string& s) { return s == "" ? 0 : s == "a" ? 1 : 2; }

    void ctx(const char* name, size_t i, size_t j) { mc::trace_reset(); mc::trace("%s: (%d,'%s',%d) and (%d,'%s',%d)", name, domain[i].a, domain[i].b.c_str(), domain[i].c, domain[j].a, domain[j].b.c_str(), domain[j].c); }

    // rank(x): the list of keys (negated where reversed); make(x): the object the comparer takes
    template <class Comp, class RankF, class Make>
    void order(const char* name, const Comp& comp, RankF rank, Make make)
    {
        if (!mc::begin_scenario(name)) return;
        const size_t n = domain.size();
        std::vector<Rank> r;
        std::vector<decltype(make(domain[0]))> o;
        for (auto& x : domain) { r.push_back(rank(x)); o.push_back(make(x)); }
        std::vector<std::vector<char>> less(n, std::vector<char>(n));
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j)
            {
                ctx(name, i, j);
                const bool l = comp(o[i], o[j]);
                less[i][j] = l;
                if (l != (r[i] < r[j])) mc::fail("comp(x, y) = %d, the keys say %d", l, r[i] < r[j]);
                if (comp(o[i], o[j]) != l) mc::fail("the answer changes from call to call");
                Comp copy(comp);
                Comp moved(std::move(copy));
                if (moved(o[i], o[j]) != l) mc::fail("a copied and moved comparer answers differently");
                ++mc::cnt("states"); mc::cnt("transitions") += 3; ++mc::cnt("executions");
            }
        for (size_t i = 0; i < n; ++i)
        {
            if (less[i][i]) mc::fail("not irreflexive");
            for (size_t j = 0; j < n; ++j)
            {
                if (less[i][j] && less[j][i]) mc::fail("not asymmetric");
                for (size_t k = 0; k < n; ++k)
                {
                    if (less[i][j] && less[j][k] && !less[i][k]) mc::fail("not transitive");
                    auto eq = [&](size_t x, size_t y) { return !less[x][y] && !less[y][x]; };
                    if (eq(i, j) && eq(j, k) && !eq(i, k)) mc::fail("equivalence is not transitive");
                    ++mc::cnt("states");
                }
            }
        }
    }
    // key(x, f): calls f with the key of x in every form the comparer accepts
    template <class Comp, class RankF, class Make, class Key>
    void keyed(const char* name, const Comp& comp, RankF rank, Make make, Key key)
    {
        order(name, comp, rank, make);
        if (!mc::begin_scenario(std::string(name) + " with keys")) return;
        for (size_t i = 0; i < domain.size(); ++i)
            for (size_t j = 0; j < domain.size(); ++j)
            {
                ctx(name, i, j);
                const Rank ri = rank(domain[i]), rj = rank(domain[j]);
                auto o = make(domain[i]);
                int form = 0;
                key(domain[j], [&](const auto& k)
                {
                    if (comp(o, k) != (ri < rj)) mc::fail("comp(object, key) = %d, the keys say %d (key form %d)", comp(o, k), ri < rj, form);
                    if (comp(k, o) != (rj < ri)) mc::fail("comp(key, object) = %d, the keys say %d (key form %d)", comp(k, o), rj < ri, form);
                    ++form;
                    ++mc::cnt("states"); mc::cnt("transitions") += 2; ++mc::cnt("executions");
                });
            }
    }

    using A = awl::member_compare<&X::a>;
    using B = awl::member_compare<&X::b>;
    using C = awl::member_compare<&X::c>;
    using RevC = awl::member_compare<&X::c, std::greater<>>;

    auto val = [](const X& x) { return x; };
    auto ptr = [](const X& x) { return &x; };
    auto sh = [](const X& x) { return std::make_shared<X>(x); };
    auto un = [](const X& x) { return std::make_unique<X>(x); };
    auto rka = [](const X& x) { return Rank{ x.a }; };
    auto rkb = [](const X& x) { return Rank{ rb(x.b) }; };
    auto rkc = [](const X& x) { return Rank{ x.c }; };
    auto rkac = [](const X& x) { return Rank{ x.a + x.c }; };
    auto rkA = [](const X& x) { return Rank{ -x.a }; };
    auto rkab = [](const X& x) { return Rank{ x.a, rb(x.b) }; };
    auto rkba = [](const X& x) { return Rank{ rb(x.b), x.a }; };
    auto rkabc = [](const X& x) { return Rank{ x.a, rb(x.b), x.c }; };
    auto rkaBc = [](const X& x) { return Rank{ x.a, -rb(x.b), x.c }; };
    auto rkabC = [](const X& x) { return Rank{ x.a, rb(x.b), -x.c }; };
    auto rkABC = [](const X& x) { return Rank{ -x.a, -rb(x.b), -x.c }; };
    auto ka = [](const X& x, auto f) { f(x.a); int k = x.a; f(std::move(k)); };
    auto kb = [](const X& x, auto f) { f(x.b); f(std::string(x.b)); };
    auto kc = [](const X& x, auto f) { f(x.c); };

    template <class T> auto kab(const X& x, auto f)
    {
        typename T::key_type k(x.a, x.b);
        f(k);
        const std::tuple<int, std::string> t(x.a, x.b);
        f(typename T::key_type(t));
        f(T::make_key(x.a, x.b));
        f(T::make_key(int(x.a), std::string(x.b)));
        f(T::make_key(int(x.a), x.b.c_str()));
        f(T::make_key(x.a, std::string(x.b)));
    }

    template <class Set, class RankF, class Key>
    void lookups(const char* name, Set proto, RankF rank, Key key)
    {
        if (!mc::begin_scenario(name)) return;
        const size_t n = domain.size();
        // every subset of a window of the domain, every key
        for (size_t w = 0; w + 6 <= n; w += 3)
            for (int mask = 0; mask < 64; ++mask)
            {
                Set s = proto;
                std::set<Rank> m;
                for (int i = 0; i < 6; ++i) if (mask >> i & 1) { s.insert(domain[w + i]); m.insert(rank(domain[w + i])); }
                if (s.size() != m.size()) mc::fail("%s: %zu elements, %zu distinct keys", name, (size_t)s.size(), m.size());
                auto mi = m.begin();
                for (auto& x : s) if (rank(x) != *mi++) mc::fail("%s: order", name);
                for (auto& x : domain)
                    key(x, [&](const auto& k)
                    {
                        const Rank r = rank(x);
                        auto i = s.find(k);
                        if ((i != s.end()) != m.count(r) || (i != s.end() && rank(*i) != r)) mc::fail("%s: find by key", name);
                        auto lb = s.lower_bound(k);
                        auto mlb = m.lower_bound(r);
                        if ((lb == s.end()) != (mlb == m.end()) || (lb != s.end() && rank(*lb) != *mlb)) mc::fail("%s: lower_bound by key", name);
                        auto ub = s.upper_bound(k);
                        auto mub = m.upper_bound(r);
                        if ((ub == s.end()) != (mub == m.end()) || (ub != s.end() && rank(*ub) != *mub)) mc::fail("%s: upper_bound by key", name);
                        ++mc::cnt("transitions");
                    });
                ++mc::cnt("states"); ++mc::cnt("executions");
            }
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    for (int a = -1; a < (th ? 3 : 2); ++a) for (int b = 0; b < 3; ++b) for (int c = 0; c < (th ? 3 : 2); ++c) domain.push_back({ a, Bs[b], c });
    for (auto& x : std::vector<X>{ { INT_MAX, "a", INT_MIN }, { INT_MIN, "b", INT_MAX } }) domain.push_back(x);

    auto no_sum = domain;
    // simple keys of every getter kind
    keyed("member_compare int", A{}, rka, val, ka);
    keyed("member_compare string", B{}, rkb, val, kb);
    order("member_compare greater", awl::member_compare<&X::a, std::greater<>>{}, [](const X& x) { return Rank{ ~x.a }; }, val);
    keyed("make_compare field", awl::make_compare(&X::a), rka, val, ka);
    keyed("make_compare function", awl::make_compare(&X::GetA), rka, val, ka);
    keyed("make_compare function returning a reference", awl::make_compare(&X::GetB), rkb, val, kb);
    keyed("make_compare function returning a copy", awl::make_compare(&X::CopyB), rkb, val, kb);
    keyed("make_compare greater", awl::make_compare(&X::c, std::greater<>()), [](const X& x) { return Rank{ ~x.c }; }, val, kc);
    keyed("getter of a function", awl::member_compare<&X::GetA>{}, rka, val, ka);
    keyed("tuplizable_compare 0", awl::tuplizable_compare<X, 0>{}, rka, val, ka);
    keyed("tuplizable_compare 1", awl::tuplizable_compare<X, 1>{}, rkb, val, kb);
    keyed("tuplizable_compare 2", awl::tuplizable_compare<X, 2>{}, rkc, val, kc);
    // pointers
    keyed("pointer_compare", awl::pointer_compare<&X::a>{}, rka, ptr, ka);
    keyed("pointer_compare string", awl::pointer_compare<&X::b>{}, rkb, ptr, kb);
    keyed("shared_compare", awl::shared_compare<&X::b>{}, rkb, sh, kb);
    keyed("unique_compare", awl::unique_compare<&X::a>{}, rka, un, ka);
    keyed("smart_compare shared", awl::smart_compare<std::shared_ptr<X>, &X::c>{}, rkc, sh, kc);
    keyed("make_shared_compare", awl::make_shared_compare(&X::GetA), rka, sh, ka);
    keyed("tuplizable_compare of pointers", awl::tuplizable_compare<X*, 1>{}, rkb, ptr, kb);
    // reversed
    auto neg = [](auto r) { return [r](const X& x) { Rank v = r(x); for (auto& k : v) k = ~k; return v; }; };
    order("ReverseCompare", awl::ReverseCompare<X, A>{}, neg(rka), val);
    order("reverse_comparer of a composite", awl::reverse_comparer<X>(awl::compose_comparers<X>(A{}, B{})), neg(rkab), val);
    keyed("TransparentReverseCompare", awl::TransparentReverseCompare<X, B>{}, neg(rkb), val, kb);
    keyed("reverse_transparent_comparer", awl::reverse_transparent_comparer<X>(awl::make_compare(&X::GetA)), neg(rka), val, ka);
    keyed("reversed twice", awl::TransparentReverseCompare<X, awl::TransparentReverseCompare<X, A>>{}, rka, val, ka);
    // composites
    order("CompositeCompare of one", awl::CompositeCompare<X, B>{}, rkb, val);
    order("CompositeCompare a, b", awl::CompositeCompare<X, A, B>{}, rkab, val);
    order("CompositeCompare b, a", awl::compose_comparers<X>(B{}, A{}), rkba, val);
    order("CompositeCompare a, b, c", awl::CompositeCompare<X, A, B, C>{}, rkabc, val);
    order("CompositeCompare with a reversed middle", awl::CompositeCompare<X, A, awl::ReverseCompare<X, B>, C>{}, [](const X& x) { return Rank{ x.a, ~rb(x.b), x.c }; }, val);
    order("CompositeCompare with a descending last key", awl::CompositeCompare<X, A, B, RevC>{}, [](const X& x) { return Rank{ x.a, rb(x.b), ~x.c }; }, val);
    order("CompositeCompare of composites", awl::compose_comparers<X>(awl::compose_comparers<X>(A{}, B{}), C{}), rkabc, val);
    order("CompositeCompare of lambdas", awl::compose_comparers<X>([](const X& l, const X& r) { return l.a < r.a; }, [](const X& l, const X& r) { return l.c > r.c; }), [](const X& x) { return Rank{ x.a, ~x.c }; }, val);
    order("CompositeCompare of pointers", awl::CompositeCompare<const X*, awl::pointer_compare<&X::a>, awl::pointer_compare<&X::b>>{}, rkab, ptr);
    using T1 = awl::TransparentCompositeCompare<X, B>;
    using T2 = awl::TransparentCompositeCompare<X, A, B>;
    using T3 = awl::TransparentCompositeCompare<X, A, B, C>;
    using TR = awl::TransparentCompositeCompare<X, A, awl::TransparentReverseCompare<X, B>>;
    using TP = awl::TransparentCompositeCompare<std::shared_ptr<X>, awl::shared_compare<&X::a>, awl::shared_compare<&X::b>>;
    keyed("TransparentCompositeCompare of one", T1{}, rkb, val, [](const X& x, auto f) { f(T1::key_type(x.b)); f(T1::make_key(x.b)); f(T1::make_key(x.b.c_str())); });
    keyed("TransparentCompositeCompare a, b", T2{}, rkab, val, [](const X& x, auto f) { kab<T2>(x, f); });
    keyed("TransparentCompositeCompare a, b, c", T3{}, rkabc, val, [](const X& x, auto f) { f(T3::key_type(x.a, x.b, x.c)); f(T3::make_key(x.a, x.b, x.c)); f(T3::make_key(int(x.a), x.b.c_str(), int(x.c))); });
    keyed("TransparentCompositeCompare with a reversed key", TR{}, [](const X& x) { return Rank{ x.a, ~rb(x.b) }; }, val, [](const X& x, auto f) { kab<TR>(x, f); });
    keyed("TransparentCompositeCompare of shared pointers", TP{}, rkab, sh, [](const X& x, auto f) { kab<TP>(x, f); });
    keyed("TransparentCompositeCompare of functions", awl::compose_transparent_comparers<X>(awl::make_compare(&X::GetA), awl::make_compare(&X::b)), rkab, val,
        [](const X& x, auto f) { f(std::tuple<int, std::string>(x.a, x.b)); });
    using TTR = awl::TransparentReverseCompare<X, T2>;
    keyed("TransparentReverseCompare of a composite", TTR{}, neg(rkab), val, [](const X& x, auto f) { const std::tuple<int, std::string> t(x.a, x.b); f(TTR::key_type(t)); });
    // memberwise operators of reflected structures
    if (mc::begin_scenario("memberwise operators"))
        for (size_t i = 0; i < domain.size(); ++i)
            for (size_t j = 0; j < domain.size(); ++j)
            {
                ctx("memberwise", i, j);
                const X& x = domain[i]; const X& y = domain[j];
                const Rank r = rkabc(x), s = rkabc(y);
                if ((x == y) != (r == s) || (x != y) != (r != s) || (x < y) != (r < s) || (x > y) != (r > s) || (x <= y) != (r <= s) || (x >= y) != (r >= s)) mc::fail("a memberwise operator is wrong");
                if (awl::objects_equal(x, y) != (r == s) || awl::objects_less(x, y) != (r < s) || awl::objects_greater(x, y) != (r > s)) mc::fail("objects_equal/less/greater");
                ++mc::cnt("states"); mc::cnt("transitions") += 9; ++mc::cnt("executions");
            }
    // the same comparers at work
    lookups("std::set by string key", std::set<X, B>{}, rkb, kb);
    lookups("std::set by composite key", std::set<X, T2>{}, rkab, [](const X& x, auto f) { f(T2::key_type(x.a, x.b)); f(T2::make_key(int(x.a), x.b.c_str())); });
    lookups("vector_set by string key", awl::vector_set<X, B>{}, rkb, kb);
    lookups("vector_set by composite key", awl::vector_set<X, T2>{}, rkab, [](const X& x, auto f) { f(T2::key_type(x.a, x.b)); f(T2::make_key(int(x.a), x.b.c_str())); });
    lookups("vector_set by reversed composite key", awl::vector_set<X, TR>{}, [](const X& x) { return Rank{ x.a, ~rb(x.b) }; }, [](const X& x, auto f) { f(TR::key_type(x.a, x.b)); });
    return mc::finish();
}
