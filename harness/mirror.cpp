// O03: mirror_set and foreign_set: every history of two sources, mirrors (also of mirrors) and foreign sets (of sources and of mirrors).
#include "heap.hpp"
#include "menu.hpp"
#include "Awl/MirrorSet.h"
#include "Awl/ForeignSet.h"
#include <memory>
#include <map>
#include <set>

namespace
{
    struct A
    {
        static inline int live = 0;
        int pk, fk;
        uint64_t canary = 0xFEED;
        A(int p, int f) : pk(p), fk(f) { ++live; }
        A(const A& o) : pk(o.pk), fk(o.fk) { o.ok(); ++live; }
        A(A&& o) : pk(o.pk), fk(o.fk) { o.ok(); o.pk = o.fk = -1; ++live; }
        A& operator=(const A&) = delete;
        ~A() { ok(); canary = 0; pk = fk = -7; --live; }
        void ok() const { if (canary != 0xFEED) mc::fail("a destroyed element is used"); }
        bool operator==(const A& o) const { return pk == o.pk && fk == o.fk; }
    };
    using Getter = awl::field_getter<A, int>;
    A& obj(A& a) { a.ok(); return a; }
    const A& obj(const A& a) { a.ok(); return a; }
    template <class P> const A& obj(const P& p) { p->ok(); return *p; }

    constexpr int MAXK = 4, MAXF = 3;
    A* static_obj(int pk, int fk)
    {
        alignas(A) static unsigned char buf[MAXK][MAXF][sizeof(A)];
        A* p = reinterpret_cast<A*>(buf[pk][fk]);
        if (p->canary != 0xFEED) { new (p) A(pk, fk); --A::live; }
        return p;
    }
    template <class T> struct Make;
    template <> struct Make<A> { static A make(int p, int f) { return A(p, f); } };
    template <> struct Make<A*> { static A* make(int p, int f) { return static_obj(p, f); } };
    template <> struct Make<std::shared_ptr<A>> { static std::shared_ptr<A> make(int p, int f) { return std::make_shared<A>(p, f); } };
    template <> struct Make<std::unique_ptr<A>> { static std::unique_ptr<A> make(int p, int f) { return std::make_unique<A>(p, f); } };

    // The order of a mirror: foreign key first, descending.
    struct FkDesc
    {
        template <class X> bool operator()(const X& x, const X& y) const
        {
            const A& a = obj(x); const A& b = obj(y);
            return a.fk != b.fk ? a.fk > b.fk : a.pk < b.pk;
        }
    };
    using Content = std::map<int, int>;     // pk -> fk
    std::string show(const Content& c) { std::string s; for (auto& [p, f] : c) s += " " + std::to_string(p) + ":" + std::to_string(f); return s; }

    struct Opt { int K = 2, F = 2, L = 2, M = 0, X = 0; bool watch = false, migrate = true; };

    template <class T> struct NoMirror { void reflect(...) {} };

    template <class T>
    struct Sys : mc::MenuSys<Sys<T>>
    {
        static constexpr bool mirrors = std::is_copy_constructible_v<T>;
        using Set = awl::observable_set<T, awl::KeyCompare<T, Getter>>;
        using Mirror = awl::mirror_set<std::conditional_t<mirrors, T, A>, FkDesc>;
        using Foreign = awl::foreign_set<T, Getter, Getter>;
        using Group = typename Foreign::value_type;
        using Ptr = typename Group::value_type;
        struct Watcher;
        struct GroupWatcher : awl::Observer<awl::INotifySetChanged<Ptr>>
        {
            Watcher* w; int fk;
            void OnAdded(const Ptr& p) override { w->added(fk, obj(p)); }
            void OnRemoving(const Ptr& p) override { w->removing(fk, obj(p)); }
            void OnClearing() override { w->clearing(fk); }
        };
        // Follows a foreign set from its notifications and those of its groups alone.
        struct Watcher : awl::Observer<awl::INotifySetChanged<Group>>
        {
            GroupWatcher g[MAXF];
            int groups = 0;         // announced groups (bits)
            int replica[MAXK];      // fk of each key
            Watcher() { for (int i = 0; i < MAXF; ++i) { g[i].w = this; g[i].fk = i; } for (int& r : replica) r = -1; }
            void start(const Foreign& f)
            {
                f.Subscribe(this);
                for (const Group& gr : f) join(gr);
            }
            void join(const Group& gr)
            {
                const int fk = obj(gr.front()).fk;
                if (groups & 1 << fk) mc::fail("a second group %d is announced", fk);
                groups |= 1 << fk;
                for (const Ptr& p : gr) added(fk, obj(p));
                gr.Subscribe(&g[fk]);
            }
            void added(int fk, const A& a)
            {
                if (a.fk != fk) mc::fail("element %d:%d is announced by group %d", a.pk, a.fk, fk);
                if (!(groups & 1 << fk)) mc::fail("element %d:%d is announced by a removed group", a.pk, a.fk);
                if (replica[a.pk] != -1) mc::fail("element %d is announced twice", a.pk);
                replica[a.pk] = fk;
            }
            void removing(int fk, const A& a)
            {
                if (replica[a.pk] != fk) mc::fail("element %d:%d leaves group %d", a.pk, a.fk, fk);
                replica[a.pk] = -1;
            }
            void clearing(int fk) { for (int& r : replica) if (r == fk) r = -1; }
            void OnAdded(const Group& gr) override
            {
                if (gr.size() != 1) mc::fail("a group of %zu elements is announced as new", gr.size());
                join(gr);
            }
            void OnRemoving(const Group& gr) override
            {
                if (gr.size() != 1) mc::fail("a group of %zu elements is removed", gr.size());
                const int fk = obj(gr.front()).fk;
                if (!(groups & 1 << fk)) mc::fail("group %d is removed twice", fk);
                clearing(fk);
                groups &= ~(1 << fk);
            }
            void OnClearing() override { groups = 0; for (int& r : replica) r = -1; }
        };

        static constexpr int ML = 2, MM = 3, MX = 2;
        Opt o;
        struct St
        {
            alignas(16) unsigned char s[ML][sizeof(Set)];
            alignas(16) unsigned char m[MM][sizeof(Mirror)];
            alignas(16) unsigned char x[MX][sizeof(Foreign)];
            Watcher w;
        } st;
        // Nodes: 0..ML-1 sources, ML..ML+MM-1 mirrors, then foreign sets.
        static constexpr int N = ML + MM + MX;
        struct Node { bool alive = false; int src = -1; Content c; } n[N];
        int watched = -1;

        Set& s(int i) { return *reinterpret_cast<Set*>(st.s[i]); }
        Mirror& m(int i) { return *reinterpret_cast<Mirror*>(st.m[i]); }
        Foreign& x(int i) { return *reinterpret_cast<Foreign*>(st.x[i]); }
        static int mi(int i) { return ML + i; }
        static int xi(int i) { return ML + MM + i; }

        Sys(const Opt& opt) : o(opt)
        {
            memset(st.s, 0xa5, sizeof st.s); memset(st.m, 0xa5, sizeof st.m); memset(st.x, 0xa5, sizeof st.x);
            mc::heap::Track t;
            new (st.s[0]) Set(Getter{ &A::pk });
            n[0].alive = true;
        }
        ~Sys()
        {
            for (int i = 0; i < ML; ++i) if (n[i].alive) { s(i).~Set(); }
            for (int i = 0; i < MX; ++i) if (n[xi(i)].alive) { if (n[xi(i)].src >= 0 && n[xi(i)].src < ML && !x(i).empty()) mc::fail("a foreign set is not empty after the death of its source"); x(i).~Foreign(); }
            for (int i = 0; i < MM; ++i) if (n[mi(i)].alive) m(i).~Mirror();
            if (st.w.IsSubscribed()) mc::fail("the watcher is subscribed to nothing");
            if (mc::heap::count()) mc::fail("%zu allocations leaked", mc::heap::count());
            if (A::live) mc::fail("%d elements not destroyed", A::live);
        }

        // The content of node a changed: so did that of everything that reflects it.
        void changed(int a)
        {
            for (int i = 0; i < N; ++i) if (n[i].alive && n[i].src == a) { n[i].c = n[a].c; changed(i); }
        }
        void cleared(int a) { n[a].c.clear(); changed(a); }
        void detach_all(int a) { for (int i = 0; i < N; ++i) if (n[i].src == a) n[i].src = -1; }
        void unwatch(int a)
        {
            if (watched == a) watched = -1;
        }
        void dead(int a) { cleared(a); detach_all(a); n[a] = Node(); unwatch(a); }
        void moved(int from, int to)    // attachments follow the object
        {
            n[to].alive = true; n[to].src = n[from].src; n[to].c = n[from].c;
            n[from].src = -1; n[from].c.clear();
            for (int i = 0; i < N; ++i) if (n[i].src == from) n[i].src = to;
            if (watched == from) watched = to;
        }
        bool depends(int a, int on) { for (int i = n[a].src; i != -1; i = n[i].src) if (i == on) return true; return false; }
        void resetw() { for (int i = 0; i < MAXF; ++i) if (st.w.g[i].IsSubscribed()) mc::fail("the watcher of group %d is subscribed to nothing", i); }

        template <class Fn> bool tr(Fn f) { mc::heap::Track t; f(); return true; }

        void step(mc::Menu& op)
        {
            for (int a = 0; a < o.L; ++a)
            {
                const int b = 1 - a;
                const bool balive = o.L > 1 && n[b].alive;
                if (!n[a].alive)
                {
                    if (op("create source %d", a)) { tr([&] { new (st.s[a]) Set(Getter{ &A::pk }); }); n[a].alive = true; return; }
                    if (balive && op("source %d: move-constructed", a)) { tr([&] { new (st.s[a]) Set(std::move(s(b))); }); moved(b, a); return; }
                    continue;
                }
                for (int k = 0; k < o.K; ++k)
                {
                    for (int f = 0; f < o.F; ++f)
                    {
                        if (op("source %d: insert(%d:%d)", a, k, f)) { add(a, k, f, [&] { return s(a).insert(Make<T>::make(k, f)).second; }); return; }
                        if (f == 0 && !n[a].c.count(k) && op("source %d: emplace(%d:%d)", a, k, f)) { add(a, k, f, [&] { return s(a).emplace(Make<T>::make(k, f)).second; }); return; }
                    }
                    if (n[a].c.count(k))
                    {
                        if (op("source %d: erase(key %d)", a, k)) { tr([&] { s(a).erase(k); }); n[a].c.erase(k); changed(a); return; }
                        if (op("source %d: erase(iterator to %d)", a, k)) { tr([&] { s(a).erase(s(a).find(k)); }); n[a].c.erase(k); changed(a); return; }
                    }
                }
                if (op("source %d: clear()", a)) { tr([&] { s(a).clear(); }); cleared(a); return; }
                if (op("destroy source %d", a)) { tr([&] { s(a).~Set(); memset(st.s[a], 0xa5, sizeof(Set)); }); dead(a); return; }
                if (op("source %d: move-assigned from itself", a)) { tr([&] { Set& r = s(a); s(a) = std::move(r); }); return; }
                if (balive && op("source %d: move-assigned from the other", a))
                {
                    tr([&] { s(a) = std::move(s(b)); });
                    cleared(a); detach_all(a);
                    moved(b, a);
                    return;
                }
                if (balive && o.migrate && op("source %d: migrate(the other)", a))
                {
                    tr([&] { s(a).migrate(std::move(s(b))); });
                    n[a].c = n[b].c; changed(a); cleared(b);
                    return;
                }
            }
            if constexpr (mirrors) for (int j = 0; j < o.M; ++j)
            {
                Node& d = n[mi(j)];
                if (!d.alive)
                {
                    if (op("create mirror %d", j)) { tr([&] { new (st.m[j]) Mirror(); }); d.alive = true; return; }
                    for (int i = 0; i < o.M; ++i)
                        if (n[mi(i)].alive && op("mirror %d: move-constructed from mirror %d", j, i)) { tr([&] { new (st.m[j]) Mirror(std::move(m(i))); }); moved(mi(i), mi(j)); return; }
                    continue;
                }
                if (d.src == -1 && d.c.empty())
                {
                    for (int a = 0; a < o.L; ++a) if (n[a].alive && op("mirror %d: reflect(source %d)", j, a)) { tr([&] { m(j).reflect(s(a)); }); d.src = a; d.c = n[a].c; changed(mi(j)); return; }
                    for (int i = 0; i < o.M; ++i) if (i != j && n[mi(i)].alive && !depends(mi(i), mi(j)) && op("mirror %d: reflect(mirror %d)", j, i)) { tr([&] { m(j).reflect(m(i)); }); d.src = mi(i); d.c = n[mi(i)].c; changed(mi(j)); return; }
                }
                if (d.src != -1 && op("mirror %d leaves its source, which changes; the mirror is destroyed", j))
                {
                    const int src = d.src;
                    tr([&] { if (src < ML) s(src).Unsubscribe(&m(j)); else m(src - ML).Unsubscribe(&m(j)); });
                    d.src = -1;
                    this->check();
                    if (src < ML) for (int k = 0; k < o.K; ++k)
                    {
                        if (n[src].c.count(k)) { const int f = n[src].c[k]; tr([&] { s(src).erase(k); }); n[src].c.erase(k); changed(src); this->check(); add(src, k, f, [&] { return s(src).insert(Make<T>::make(k, f)).second; }); }
                        else { add(src, k, 0, [&] { return s(src).insert(Make<T>::make(k, 0)).second; }); this->check(); tr([&] { s(src).erase(k); }); n[src].c.erase(k); changed(src); }
                        this->check();
                    }
                    tr([&] { m(j).~Mirror(); memset(st.m[j], 0xa5, sizeof(Mirror)); });
                    dead(mi(j));
                    return;
                }
                if (op("destroy mirror %d", j)) { tr([&] { m(j).~Mirror(); memset(st.m[j], 0xa5, sizeof(Mirror)); }); dead(mi(j)); return; }
                for (int i = 0; i < o.M; ++i)
                {
                    if (!n[mi(i)].alive) continue;
                    if (i == j) { if (op("mirror %d: move-assigned from itself", j)) { tr([&] { Mirror& r = m(j); m(j) = std::move(r); }); return; } continue; }
                    if (depends(mi(i), mi(j))) continue;    // an object is not assigned from what reflects it
                    if (op("mirror %d: move-assigned from mirror %d", j, i))
                    {
                        tr([&] { m(j) = std::move(m(i)); });
                        n[mi(j)].src = -1;
                        cleared(mi(j)); detach_all(mi(j));
                        moved(mi(i), mi(j));
                        return;
                    }
                }
            }
            for (int j = 0; j < o.X; ++j)
            {
                Node& d = n[xi(j)];
                if (!d.alive)
                {
                    for (int a = 0; a < o.L; ++a) if (n[a].alive)
                    {
                        if (op("create foreign set %d of source %d", j, a)) { tr([&] { new (st.x[j]) Foreign(s(a), Getter{ &A::pk }, Getter{ &A::fk }); }); d.alive = true; d.src = a; d.c = n[a].c; return; }
                        if (n[a].c.empty() && op("create foreign set %d, subscribe it to source %d", j, a)) { tr([&] { new (st.x[j]) Foreign(Getter{ &A::pk }, Getter{ &A::fk }); s(a).Subscribe(&x(j)); }); d.alive = true; d.src = a; return; }
                    }
                    if constexpr (mirrors) for (int i = 0; i < o.M; ++i) if (n[mi(i)].alive && op("create foreign set %d of mirror %d", j, i)) { tr([&] { new (st.x[j]) Foreign(m(i), Getter{ &A::pk }, Getter{ &A::fk }); }); d.alive = true; d.src = mi(i); d.c = n[mi(i)].c; return; }
                    for (int i = 0; i < o.X; ++i) if (i != j && n[xi(i)].alive && op("foreign set %d: move-constructed from %d", j, i)) { tr([&] { new (st.x[j]) Foreign(std::move(x(i))); }); moved(xi(i), xi(j)); return; }
                    continue;
                }
                if (op("destroy foreign set %d", j)) { const bool w = watched == xi(j); tr([&] { x(j).~Foreign(); memset(st.x[j], 0xa5, sizeof(Foreign)); }); dead(xi(j)); if (w) wclean(); return; }
                for (int i = 0; i < o.X; ++i)
                {
                    if (!n[xi(i)].alive) continue;
                    if (i == j) { if (op("foreign set %d: move-assigned from itself", j)) { tr([&] { Foreign& r = x(j); x(j) = std::move(r); }); return; } continue; }
                    if (op("foreign set %d: move-assigned from %d", j, i))
                    {
                        const bool w = watched == xi(j);
                        tr([&] { x(j) = std::move(x(i)); });
                        n[xi(j)].src = -1;
                        n[xi(j)].c.clear(); unwatch(xi(j));
                        if (w) wclean();
                        moved(xi(i), xi(j));
                        return;
                    }
                }
                if (o.watch && watched == -1 && op("the watcher subscribes to foreign set %d", j)) { tr([&] { st.w.start(x(j)); }); watched = xi(j); return; }
            }
        }
        void wclean()
        {
            if (st.w.IsSubscribed()) mc::fail("the watcher is subscribed to nothing");
            resetw();
            if (st.w.groups) mc::fail("the watcher does not know that the groups are gone");
        }
        template <class Fn> void add(int a, int k, int f, Fn fn)
        {
            const bool isnew = !n[a].c.count(k);
            bool r;
            { mc::heap::Track t; r = fn(); }
            if (r != isnew) mc::fail("insertion returned %d", r);
            if (isnew) { n[a].c[k] = f; changed(a); }
        }

        template <class S2> void same(const char* what, int i, const S2& set, const Content& c, bool desc)
        {
            std::vector<std::pair<int, int>> want(c.begin(), c.end()), got, rgot;
            if (desc) std::sort(want.begin(), want.end(), [](auto& p, auto& q) { return p.second != q.second ? p.second > q.second : p.first < q.first; });
            for (auto& v : set) got.push_back({ obj(v).pk, obj(v).fk });
            for (auto r = set.rbegin(); r != set.rend(); ++r) rgot.push_back({ obj(*r).pk, obj(*r).fk });
            if (got != want)
            {
                Content g(got.begin(), got.end());
                mc::fail("%s %d contains%s, expected%s", what, i, show(g).c_str(), show(c).c_str());
            }
            std::reverse(want.begin(), want.end());
            if (rgot != want) mc::fail("%s %d: reverse iteration", what, i);
            std::reverse(want.begin(), want.end());
            if (set.size() != want.size() || set.empty() != want.empty()) mc::fail("%s %d: size()", what, i);
            for (size_t k = 0; k < want.size(); ++k)
                if (obj(set[k]).pk != want[k].first || obj(set.at(k)).pk != want[k].first) mc::fail("%s %d: index", what, i);
            bool thrown = false;
            try { set.at(want.size()); } catch (const std::out_of_range&) { thrown = true; }
            if (!thrown) mc::fail("%s %d: at() out of range", what, i);
            if (!want.empty() && (obj(set.front()).pk != want.front().first || obj(set.back()).pk != want.back().first)) mc::fail("%s %d: front/back", what, i);
        }
        void check()
        {
            for (int a = 0; a < o.L; ++a) if (n[a].alive) same("source", a, s(a), n[a].c, false);
            if constexpr (mirrors) for (int j = 0; j < o.M; ++j) if (n[mi(j)].alive)
            {
                const Mirror& v = m(j);
                const Content& c = n[mi(j)].c;
                same("mirror", j, v, c, true);
                size_t below = 0;
                std::vector<std::pair<int, int>> w(c.begin(), c.end());
                for (int f = o.F - 1; f >= 0; --f) for (int k = 0; k < o.K; ++k)
                {
                    auto i = c.find(k);
                    const bool there = i != c.end() && i->second == f;
                    T key = Make<T>::make(k, f);
                    if (v.contains(key) != there || (v.find(key) != v.end()) != there) mc::fail("mirror %d: find(%d:%d)", j, k, f);
                    if (there && (obj(*v.find(key)).pk != k || v.index_of(key) != below)) mc::fail("mirror %d: index_of(%d:%d)", j, k, f);
                    auto lo = v.lower_bound(key), up = v.upper_bound(key);
                    auto nth = [&](size_t p) { return p < v.size() ? v.find(v[p]) : v.end(); };
                    if (lo != nth(below)) mc::fail("mirror %d: lower_bound(%d:%d)", j, k, f);
                    if (there) ++below;
                    if (up != nth(below)) mc::fail("mirror %d: upper_bound(%d:%d)", j, k, f);
                }
                if constexpr (std::is_same_v<T, A*> || std::is_same_v<T, A>)
                    for (int i = 0; i < o.M; ++i) if (i != j && n[mi(i)].alive && ((v == m(i)) != (c == n[mi(i)].c) || (v != m(i)) != (c != n[mi(i)].c))) mc::fail("mirror %d == mirror %d", j, i);
                if (v.IsSubscribed() != (n[mi(j)].src != -1)) mc::fail("mirror %d: IsSubscribed()", j);
            }
            for (int j = 0; j < o.X; ++j) if (n[xi(j)].alive)
            {
                const Foreign& v = x(j);
                const Content& c = n[xi(j)].c;
                std::map<int, Content> g;
                for (auto& [k, f] : c) g[f][k] = f;
                if (v.size() != g.size() || v.empty() != g.empty()) mc::fail("foreign set %d has %zu groups, expected %zu (content%s)", j, v.size(), g.size(), show(c).c_str());
                size_t pos = 0;
                auto it = v.begin();
                for (auto& [f, gc] : g)
                {
                    same("group", f, *it, gc, false);
                    if (&v[pos] != &*it || &v.at(pos) != &*it) mc::fail("foreign set %d: index", j);
                    if (v.find(f) != it || v.index_of(f) != pos) mc::fail("foreign set %d: find(%d)", j, f);
                    // the groups hold the elements of the source, not copies
                    for (const Ptr& p : *it) origin(n[xi(j)].src, p);
                    ++it; ++pos;
                }
                if (it != v.end()) mc::fail("foreign set %d: more groups", j);
                auto rit = v.rbegin();
                for (auto gi = g.rbegin(); gi != g.rend(); ++gi, ++rit) if (obj(rit->front()).fk != gi->first) mc::fail("foreign set %d: reverse iteration", j);
                for (int f = 0; f < o.F; ++f) if (!g.count(f) && v.find(f) != v.end()) mc::fail("foreign set %d: find(%d) finds an empty group", j, f);
                if (!g.empty() && (obj(v.front().front()).fk != g.begin()->first || obj(v.back().front()).fk != g.rbegin()->first)) mc::fail("foreign set %d: front/back", j);
                if (v.IsSubscribed() != (n[xi(j)].src != -1)) mc::fail("foreign set %d: IsSubscribed()", j);
            }
            if (watched != -1)
            {
                const Content& c = n[watched].c;
                int groups = 0;
                for (auto& [k, f] : c) groups |= 1 << f;
                if (st.w.groups != groups) mc::fail("the groups %x were announced, expected %x", st.w.groups, groups);
                for (int k = 0; k < o.K; ++k) if (st.w.replica[k] != (c.count(k) ? c.at(k) : -1)) mc::fail("the watcher's replica differs for key %d", k);
                for (int f = 0; f < MAXF; ++f) if (st.w.g[f].IsSubscribed() != ((groups >> f & 1) != 0)) mc::fail("the watcher of group %d is %ssubscribed", f, groups >> f & 1 ? "not " : "");
            }
        }
        void origin(int src, const Ptr& p)
        {
            if (src == -1) return;
            const A* a = &obj(p);
            bool found = false;
            if (src < ML) { for (auto& v : s(src)) found |= &obj(v) == a; }
            else if constexpr (mirrors) for (auto& v : m(src - ML)) found |= &obj(v) == a;
            if (!found) mc::fail("a group holds a copy of an element");
        }
        uint64_t canon()
        {
            uint64_t h = mc::heap::graph_hash({ { &st, sizeof st } });
            for (auto& x : n) { h = mc::mix(h, x.alive); h = mc::mix(h, x.src); for (auto& [k, f] : x.c) h = mc::mix(h, k * 16 + f); h = mc::mix(h, 99); }
            return mc::mix(h, watched);
        }
    };
    int g_index = 0;
    template <class T> void run(const char* name, Opt o)
    {
        if (g_index++ % mc::cfg().shards != mc::cfg().shard) return;
        if (!mc::begin_scenario(name)) return;
        mc::bfs([&] { return std::make_unique<Sys<T>>(o); }, 60, 6000000);
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    // K keys, F foreign keys, L sources, M mirrors, X foreign sets
    run<A>("two sources, two mirrors", { th ? 2 : 1, 2, 2, 2, 0 });
    run<A>("one source, a mirror of a mirror and a place to move to", { 2, 2, 1, th ? 3 : 2, 0 });
    if (!th) run<A>("one source, three mirrors", { 1, 2, 1, 3, 0 });
    run<A>("two sources, foreign sets of values", { 2, 2, 2, 0, 2, false });
    run<A>("one source, foreign sets of values, watched", { th ? 4 : 3, th ? 3 : 2, 1, 0, 2, true });
    run<std::shared_ptr<A>>("one source, foreign sets of shared pointers, watched", { 3, 2, 1, 0, th ? 2 : 1, true });
    run<std::unique_ptr<A>>("one source, foreign sets of unique pointers, watched", { 3, 2, 1, 0, th ? 2 : 1, true });
    run<A*>("one source, foreign sets of pointers, watched", { 3, 2, 1, 0, th ? 2 : 1, true });
    run<A>("a foreign set of a mirror", { 2, 2, 1, th ? 2 : 1, 1, true });
    run<std::shared_ptr<A>>("mirrors and foreign sets of shared pointers", { 2, 2, 1, 1, 1, true });
    return mc::finish();
}
