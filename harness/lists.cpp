// C04: quick_list / single_list and their links against plain vectors; closure over the concrete link graph.
#include "heap.hpp"
#include "menu.hpp"
#include "Awl/QuickList.h"
#include "Awl/SingleList.h"
#include <memory>

namespace
{
    AWL_DECLARE_QUICK_LINK(PlainLink)
    AWL_DECLARE_MOVABLE_LINK(MovLink)

    // An element can be in one list of each kind at the same time; a member between the bases gives them different offsets.
    struct Pad { int pad = 0; };
    struct Elem : Pad, PlainLink, MovLink, awl::single_link
    {
        explicit Elem(int v) : id(v) {}
        Elem(const Elem&) = delete;
        Elem(Elem&& o) : MovLink(std::move(static_cast<MovLink&>(o))), id(o.id) {}
        Elem& operator=(Elem&& o) { static_cast<MovLink&>(*this) = std::move(static_cast<MovLink&>(o)); id = o.id; return *this; }
        ~Elem() { id = -1; }
        int id;
    };

    using Model = std::vector<Elem*>;

    std::string show(const Model& m) { std::string s; for (auto e : m) s += std::to_string(e->id) + " "; return s; }

    // Everything an iteration can tell about a quick_list.
    template <class Link, class List>
    void observe(List& l, const Model& m, const char* name)
    {
        const List& c = l;
        const size_t n = m.size();
        if (l.empty() != m.empty()) mc::fail("%s: empty() = %d, contents should be %s", name, l.empty(), show(m).c_str());
        if (l.size() != n) mc::fail("%s: size() = %zu, contents should be %s", name, l.size(), show(m).c_str());
        if (l.empty_or_contains_one() != (n <= 1)) mc::fail("%s: empty_or_contains_one() with %zu elements", name, n);
        if (l.contains_one() != (n == 1)) mc::fail("%s: contains_one() with %zu elements", name, n);
        if (n && (l.front() != m.front() || l.back() != m.back() || c.front() != m.front() || c.back() != m.back())) mc::fail("%s: front()/back() differ, contents should be %s", name, show(m).c_str());
        auto seq = [&](auto b, auto e, const char* what, bool rev)
        {
            std::vector<const void*> got, want;
            for (auto x : m) want.push_back(x);
            if (rev) std::reverse(want.begin(), want.end());
            auto i = b;
            for (; i != e && got.size() <= n; ++i) { got.push_back(*i); if (static_cast<const void*>(i.operator->()) != got.back()) mc::fail("%s: %s: operator->", name, what); }
            if (got != want || !(i == e)) mc::fail("%s: %s iteration differs, contents should be %s", name, what, show(m).c_str());
            got.clear();
            for (i = b; i != e && got.size() <= n;) got.push_back(*i++);
            if (got != want) mc::fail("%s: %s iteration with i++ differs, contents should be %s", name, what, show(m).c_str());
            std::reverse(want.begin(), want.end());
            got.clear();
            for (i = e; i != b && got.size() <= n;) { --i; got.push_back(*i); }
            if (got != want) mc::fail("%s: %s iteration from the end with -- differs, contents should be %s", name, what, show(m).c_str());
            got.clear();
            i = e;
            for (size_t k = 0; k < n; ++k) { auto j = i--; if (!(j != i)) mc::fail("%s: i-- does not return the old position", name); got.push_back(*i); }
            if (got != want) mc::fail("%s: %s iteration from the end with i-- differs, contents should be %s", name, what, show(m).c_str());
        };
        seq(l.begin(), l.end(), "forward", false);
        seq(c.begin(), c.end(), "const forward", false);
        seq(l.rbegin(), l.rend(), "reverse", true);
        seq(c.rbegin(), c.rend(), "const reverse", true);
        for (size_t k = 0; k < n; ++k)
        {
            Link* x = m[k];
            if (!x->included()) mc::fail("%s: element %d is in the list but not included()", name, m[k]->id);
            if (k && (x->predecessor() != static_cast<Link*>(m[k - 1]) || static_cast<Link*>(m[k - 1])->successor() != x)) mc::fail("%s: predecessor()/successor() of element %d", name, m[k]->id);
        }
    }

    template <class Link, bool movable>
    struct QSys : mc::MenuSys<QSys<Link, movable>>
    {
        using List = awl::quick_list<Elem, Link>;
        static constexpr int L = 2;
        int N;
        struct Slots { alignas(List) unsigned char l[L][sizeof(List)]; alignas(Elem) unsigned char e[4][sizeof(Elem)]; } st;
        bool alive[4];
        bool stale[4];      // was in a list that was cleared: the link is in a detached state
        Model m[L];

        List& list(int i) { return *reinterpret_cast<List*>(st.l[i]); }
        Elem& el(int i) { return *reinterpret_cast<Elem*>(st.e[i]); }

        QSys(int n) : N(n)
        {
            memset(&st, 0x5a, sizeof st);
            for (int i = 0; i < L; ++i) new (st.l[i]) List();
            for (int i = 0; i < N; ++i) { new (st.e[i]) Elem(i); alive[i] = true; stale[i] = false; }
        }
        int where(Elem* e) { for (int i = 0; i < L; ++i) if (std::find(m[i].begin(), m[i].end(), e) != m[i].end()) return i; return -1; }
        void drop(Elem* e) { int w = where(e); if (w >= 0) m[w].erase(std::find(m[w].begin(), m[w].end(), e)); }

        void step(mc::Menu& op)
        {
            for (int a = 0; a < L; ++a)
            {
                List& l = list(a);
                Model& v = m[a];
                const int n = v.size();
                for (int i = 0; i < N; ++i)
                {
                    if (!alive[i] || where(&el(i)) >= 0) continue;
                    Elem* e = &el(i);
                    if (op("list %c: push_front %d", 'A' + a, i)) { l.push_front(e); v.insert(v.begin(), e); stale[i] = false; return; }
                    if (op("list %c: push_back %d", 'A' + a, i)) { l.push_back(e); v.push_back(e); stale[i] = false; return; }
                    for (int k = 0; k < n; ++k)
                    {
                        if (op("list %c: insert(iterator to #%d, %d)", 'A' + a, k, i)) { auto it = l.begin(); for (int s = 0; s < k; ++s) ++it; List::insert(it, e); v.insert(v.begin() + k + 1, e); stale[i] = false; return; }
                        if (op("list %c: insert(reverse iterator to #%d, %d)", 'A' + a, k, i)) { auto it = l.rbegin(); for (int s = n - 1; s > k; --s) ++it; List::insert(it, e); v.insert(v.begin() + k, e); stale[i] = false; return; }
                        if (op("list %c: link #%d .insert_after(%d)", 'A' + a, k, i)) { static_cast<Link*>(v[k])->insert_after(e); v.insert(v.begin() + k + 1, e); stale[i] = false; return; }
                        if (op("list %c: link #%d .insert_before(%d)", 'A' + a, k, i)) { static_cast<Link*>(v[k])->insert_before(e); v.insert(v.begin() + k, e); stale[i] = false; return; }
                    }
                }
                if (n)
                {
                    if (op("list %c: pop_front", 'A' + a)) { Elem* e = l.pop_front(); if (e != v.front()) mc::fail("pop_front() returns another element"); v.erase(v.begin()); return; }
                    if (op("list %c: pop_back", 'A' + a)) { Elem* e = l.pop_back(); if (e != v.back()) mc::fail("pop_back() returns another element"); v.pop_back(); return; }
                }
                for (int k = 0; k < n; ++k)
                {
                    if (op("list %c: erase(iterator to #%d)", 'A' + a, k)) { auto it = l.begin(); for (int s = 0; s < k; ++s) ++it; List::erase(it); v.erase(v.begin() + k); return; }
                    if (op("list %c: erase(reverse iterator to #%d)", 'A' + a, k)) { auto it = l.rbegin(); for (int s = n - 1; s > k; --s) ++it; List::erase(it); v.erase(v.begin() + k); return; }
                    if (op("list %c: erase(element #%d)", 'A' + a, k)) { List::erase(v[k]); v.erase(v.begin() + k); return; }
                    if (op("list %c: exclude #%d, destroy and recreate it", 'A' + a, k)) { Elem* e = v[k]; int id = e->id; v.erase(v.begin() + k); e->Link::exclude(); e->~Elem(); memset(e, 0xa5, sizeof *e); new (e) Elem(id); return; }
                }
                if (op("list %c: clear", 'A' + a)) { for (auto e : v) for (int i = 0; i < N; ++i) if (e == &el(i)) stale[i] = true; l.clear(); v.clear(); return; }
                if (op("list %c: move out and assign back", 'A' + a))
                {
                    List t(std::move(l));
                    observe<Link>(t, v, "moved-to list");
                    observe<Link>(l, {}, "moved-from list");
                    l = std::move(t);
                    observe<Link>(t, {}, "moved-from list");
                    return;
                }
                if (op("list %c: move-assign to itself", 'A' + a)) { List& s = l; l = std::move(s); return; }
                if (v.empty() && op("list %c: move-assign from the other", 'A' + a)) { l = std::move(list(1 - a)); std::swap(v, m[1 - a]); return; }
                if (op("list %c: push_front the other list", 'A' + a)) { l.push_front(list(1 - a)); v.insert(v.begin(), m[1 - a].begin(), m[1 - a].end()); m[1 - a].clear(); return; }
                if (op("list %c: push_back the other list", 'A' + a)) { l.push_back(list(1 - a)); v.insert(v.end(), m[1 - a].begin(), m[1 - a].end()); m[1 - a].clear(); return; }
                if (v.empty() && op("list %c: destroy, construct from an initializer list of the free elements", 'A' + a))
                {
                    Model f;
                    for (int i = 0; i < N; ++i) if (alive[i] && where(&el(i)) < 0) { f.push_back(&el(i)); stale[i] = false; }
                    l.~List();
                    memset(&l, 0xa5, sizeof l);
                    if (f.size() == 1) new (&l) List{ f[0] };
                    else if (f.size() == 2) new (&l) List{ f[0], f[1] };
                    else if (f.size() == 3) new (&l) List{ f[0], f[1], f[2] };
                    else if (f.size() >= 4) new (&l) List{ f[0], f[1], f[2], f[3] };
                    else new (&l) List();
                    v = f;
                    return;
                }
            }
            for (int i = 0; i < N; ++i)
            {
                if (!alive[i])
                {
                    if (op("create %d", i)) { memset(&el(i), 0x5a, sizeof(Elem)); new (&el(i)) Elem(i); alive[i] = true; stale[i] = false; return; }
                    if constexpr (movable)
                        for (int j = 0; j < N; ++j)
                            if (alive[j] && !stale[j] && op("move-construct %d from %d", i, j))
                            {
                                memset(&el(i), 0x5a, sizeof(Elem));
                                new (&el(i)) Elem(std::move(el(j)));
                                alive[i] = true; stale[i] = false;
                                el(i).id = i;
                                for (auto& v : m) for (auto& e : v) if (e == &el(j)) e = &el(i);
                                return;
                            }
                    continue;
                }
                if (stale[i]) continue;
                if (op("safe_exclude and destroy %d", i)) { el(i).Link::safe_exclude(); drop(&el(i)); if (el(i).Link::included()) mc::fail("included() after safe_exclude()"); el(i).~Elem(); memset(&el(i), 0xa5, sizeof(Elem)); alive[i] = false; return; }
                if constexpr (movable)
                    for (int j = 0; j < N; ++j)
                        if (alive[j] && !stale[j] && op("move-assign %d from %d", i, j))
                        {
                            el(i) = std::move(el(j));
                            el(i).id = i;
                            if (i != j)
                            {
                                drop(&el(i));
                                for (auto& v : m) for (auto& e : v) if (e == &el(j)) e = &el(i);
                            }
                            return;
                        }
            }
        }

        void check()
        {
            for (int a = 0; a < L; ++a) observe<Link>(list(a), m[a], a ? "list B" : "list A");
            for (int i = 0; i < N; ++i)
                if (alive[i] && !stale[i] && el(i).Link::included() != (where(&el(i)) >= 0)) mc::fail("element %d: included() = %d", i, el(i).Link::included());
        }
        uint64_t canon() { return mc::heap::graph_hash({ { &st, sizeof st } }); }
    };

    // One element in lists of three kinds at once: nothing may leak from one to the other.
    struct Multi : mc::MenuSys<Multi>
    {
        static constexpr int N = 3;
        struct St
        {
            awl::quick_list<Elem, PlainLink> p;
            awl::quick_list<Elem, MovLink> q;
            awl::single_list<Elem, awl::single_link> s;
            Elem e[N] = { Elem(0), Elem(1), Elem(2) };
        } st;
        Model mp, mq, ms;
        static bool in(const Model& v, Elem* e) { return std::find(v.begin(), v.end(), e) != v.end(); }
        void step(mc::Menu& op)
        {
            for (int i = 0; i < N; ++i)
            {
                Elem* e = &st.e[i];
                if (!in(mp, e)) { if (op("plain: push_front %d", i)) { st.p.push_front(e); mp.insert(mp.begin(), e); return; } }
                else if (op("plain: exclude %d", i)) { e->PlainLink::exclude(); mp.erase(std::find(mp.begin(), mp.end(), e)); return; }
                if (!in(mq, e)) { if (op("movable: push_back %d", i)) { st.q.push_back(e); mq.push_back(e); return; } }
                else if (op("movable: erase %d", i)) { st.q.erase(e); mq.erase(std::find(mq.begin(), mq.end(), e)); return; }
                if (!in(ms, e) && op("single: push_front %d", i)) { st.s.push_front(e); ms.insert(ms.begin(), e); return; }
            }
            if (!ms.empty() && op("single: pop_front")) { Elem* e = st.s.pop_front(); if (e != ms.front()) mc::fail("single_list: pop_front()"); ms.erase(ms.begin()); return; }
            if (!mq.empty() && !in(mq, &st.e[2]) && op("movable: replace the first by element 2"))
            {
                static_cast<MovLink&>(st.e[2]) = std::move(static_cast<MovLink&>(*mq.front()));
                mq.front() = &st.e[2];
                return;
            }
        }
        void check()
        {
            observe<PlainLink>(st.p, mp, "plain list");
            observe<MovLink>(st.q, mq, "movable list");
            observe_single(st.s, ms, "single list");
            for (auto& e : st.e)
                if (e.PlainLink::included() != in(mp, &e) || e.MovLink::included() != in(mq, &e) || e.awl::single_link::included() != in(ms, &e)) mc::fail("element %d: included() is wrong", e.id);
        }
        template <class List>
        static void observe_single(List& l, const Model& m, const char* name)
        {
            const List& c = l;
            const size_t n = m.size();
            if (l.empty() != m.empty() || l.size() != n || l.empty_or_contains_one() != (n <= 1) || l.contains_one() != (n == 1)) mc::fail("%s: size queries, contents should be %s", name, show(m).c_str());
            if (n && (l.front() != m.front() || c.front() != m.front())) mc::fail("%s: front()", name);
            Model got;
            for (auto e : l) { got.push_back(e); if (got.size() > n) break; }
            if (got != m) mc::fail("%s: iteration differs, contents should be %s", name, show(m).c_str());
            got.clear();
            for (auto i = c.begin(); i != c.end() && got.size() <= n;) got.push_back(const_cast<Elem*>(*i++));
            if (got != m) mc::fail("%s: const iteration differs, contents should be %s", name, show(m).c_str());
        }
        uint64_t canon() { return mc::heap::graph_hash({ { &st, sizeof st } }); }
    };

    struct Single : mc::MenuSys<Single>
    {
        using List = awl::single_list<Elem, awl::single_link>;
        static constexpr int N = 4;
        struct St { List l[2]; Elem e[N] = { Elem(0), Elem(1), Elem(2), Elem(3) }; } st;
        Model m[2];
        bool stale[N] = {};
        void step(mc::Menu& op)
        {
            for (int a = 0; a < 2; ++a)
            {
                for (int i = 0; i < N; ++i)
                {
                    Elem* e = &st.e[i];
                    if (Multi::in(m[0], e) || Multi::in(m[1], e)) continue;
                    if (op("list %c: push_front %d", 'A' + a, i)) { st.l[a].push_front(e); m[a].insert(m[a].begin(), e); stale[i] = false; return; }
                }
                if (!m[a].empty() && op("list %c: pop_front", 'A' + a)) { Elem* e = st.l[a].pop_front(); if (e != m[a].front()) mc::fail("pop_front() returns another element"); m[a].erase(m[a].begin()); return; }
                if (op("list %c: clear", 'A' + a)) { for (auto e : m[a]) stale[e - st.e] = true; st.l[a].clear(); m[a].clear(); return; }
            }
        }
        void check()
        {
            for (int a = 0; a < 2; ++a) Multi::observe_single(st.l[a], m[a], a ? "list B" : "list A");
            for (int i = 0; i < N; ++i)
                if (!stale[i] && st.e[i].awl::single_link::included() != (Multi::in(m[0], &st.e[i]) || Multi::in(m[1], &st.e[i]))) mc::fail("element %d: included()", i);
        }
        uint64_t canon() { return mc::heap::graph_hash({ { &st, sizeof st } }); }
    };
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    const int DEPTH = 6;
    if (mc::cfg().shard == 0 && mc::begin_scenario("two lists with movable links"))
        mc::bfs([&] { return std::make_unique<QSys<MovLink, true>>(3); }, 100, 3000000);
    if (mc::cfg().shard == 1 && mc::begin_scenario("two lists with plain links"))
        mc::bfs([&] { return std::make_unique<QSys<PlainLink, false>>(3); }, 100, 3000000);
    if (th && mc::cfg().shard == 0 && mc::begin_scenario("two lists with movable links, 4 elements"))
        mc::bfs([&] { return std::make_unique<QSys<MovLink, true>>(4); }, DEPTH, 3000000);
    if (th && mc::cfg().shard == 1 && mc::begin_scenario("two lists with plain links, 4 elements"))
        mc::bfs([&] { return std::make_unique<QSys<PlainLink, false>>(4); }, DEPTH, 3000000);
    if (mc::cfg().shard == 2 && mc::begin_scenario("elements in lists of three kinds at once"))
        mc::bfs([&] { return std::make_unique<Multi>(); }, 100, 3000000);
    if (mc::cfg().shard == 2 && mc::begin_scenario("two single lists"))
        mc::bfs([&] { return std::make_unique<Single>(); }, 100, 3000000);
    return mc::finish();
}
