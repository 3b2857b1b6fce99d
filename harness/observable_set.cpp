// O02: observable_set: every history of changes of two sets with two observers, each keeping a replica from the notifications alone.
#include "heap.hpp"
#include "menu.hpp"
#include "Awl/ObservableSet.h"
#include <memory>

namespace
{
    struct Val
    {
        static inline int live = 0, throw_at = -1;
        int key;
        uint32_t canary = 0xFEED;
        void tick() { if (throw_at >= 0 && throw_at-- == 0) throw std::runtime_error("copy"); }
        Val(int k) : key(k) { tick(); ++live; }
        Val(int a, int b) : key(a + b) { tick(); ++live; }
        Val(const Val& o) : key(o.key) { o.ok(); tick(); ++live; }
        Val(Val&& o) : key(o.key) { o.ok(); tick(); o.key = -1; ++live; }
        Val& operator=(const Val&) = delete;
        ~Val() { ok(); canary = 0; --live; }
        void ok() const { if (canary != 0xFEED) mc::fail("a destroyed element is used"); }
    };
    struct Less
    {
        using is_transparent = void;
        static int k(const Val& v) { v.ok(); return v.key; }
        static int k(int i) { return i; }
        template <class A, class B> bool operator()(const A& a, const B& b) const { return k(a) < k(b); }
    };
    using Set = awl::observable_set<Val, Less>;
    using Event = std::pair<char, int>;     // '+', '-', 'x'

    struct Sys;
    Sys* sys = nullptr;

    struct Obs : awl::Observer<awl::INotifySetChanged<Val>>
    {
        int id;
        void OnAdded(const Val& v) override;
        void OnRemoving(const Val& v) override;
        void OnClearing() override;
    };

    struct Sys : mc::MenuSys<Sys>
    {
        static constexpr int L = 2, S = 2;
        int K;
        struct St { alignas(Set) unsigned char s[L][sizeof(Set)]; Obs o[S]; } st;
        bool alive[L] = {};
        std::set<int> m[L];
        std::vector<int> subs[L];
        std::set<int> replica[S];
        std::vector<Event> want[S];
        size_t pos[S] = {};
        int leaving = -1;       // the observer that unsubscribes at its next event
        bool armed = false;

        Set& s(int i) { return *reinterpret_cast<Set*>(st.s[i]); }
        Sys(int k) : K(k)
        {
            sys = this;
            Val::throw_at = -1;
            memset(st.s, 0x5a, sizeof st.s);
            for (int i = 0; i < S; ++i) st.o[i].id = i;
            for (int i = 0; i < L; ++i) { mc::heap::Track t; new (st.s[i]) Set(); alive[i] = true; }
        }
        ~Sys()
        {
            for (int i = 0; i < L; ++i) if (alive[i]) destroy(i);
            for (int i = 0; i < S; ++i) if (st.o[i].IsSubscribed()) mc::fail("observer %d is subscribed to nothing", i);
            if (mc::heap::count()) mc::fail("%zu allocations leaked", mc::heap::count());
            if (Val::live) mc::fail("%d elements not destroyed", Val::live);
            sys = nullptr;
        }

        // ---- expectations ----
        void expect(int a, Event e) { for (int o : subs[a]) want[o].push_back(e); }
        std::vector<int> expect_subs;
        void event(int id, char kind, const Val* v)
        {
            if (!armed) mc::fail("observer %d is notified although nothing happens", id);
            if (pos[id] >= want[id].size()) mc::fail("observer %d gets a superfluous notification '%c' %d", id, kind, v ? v->key : 0);
            const Event e = want[id][pos[id]];
            if (e.first != kind || (v && e.second != v->key)) mc::fail("observer %d is notified of '%c' %d, expected '%c' %d", id, kind, v ? v->key : 0, e.first, e.second);
            ++pos[id];
            // while it is notified the set holds the element
            if (v)
            {
                v->ok();
                bool found = false;
                for (int i = 0; i < L; ++i) if (in_event == i) for (const Val& x : s(i)) found |= &x == v;
                if (!found) mc::fail("the element is not in the set during the notification '%c'", kind);
                if (kind == '+') { if (!replica[id].insert(v->key).second) mc::fail("observer %d: element %d is added twice", id, v->key); }
                else if (!replica[id].erase(v->key)) mc::fail("observer %d: element %d is removed twice", id, v->key);
            }
            else
            {
                std::set<int> got;
                for (const Val& x : s(clearing)) got.insert(x.key);
                if (got != clear_content) mc::fail("OnClearing() when %zu of %zu elements are there", got.size(), clear_content.size());
                replica[id].clear();
            }
            if (id == leaving) { st.o[id].UnsubscribeSelf(); }
        }
        int in_event = -1, clearing = -1;
        std::set<int> clear_content;

        void begin() { for (int i = 0; i < S; ++i) { want[i].clear(); pos[i] = 0; } armed = true; }
        void end()
        {
            armed = false;
            for (int i = 0; i < S; ++i)
                if (pos[i] != want[i].size()) mc::fail("observer %d missed the notification '%c' %d", i, want[i][pos[i]].first, want[i][pos[i]].second);
            in_event = clearing = -1;
        }
        void left(int id) { for (auto& v : subs) v.erase(std::remove(v.begin(), v.end(), id), v.end()); }

        void destroy(int a)
        {
            begin();
            if (!m[a].empty()) { expect(a, { 'x', 0 }); clearing = a; clear_content = m[a]; }
            mc::heap::Track t;
            s(a).~Set();
            memset(st.s[a], 0xa5, sizeof(Set));
            end();
            alive[a] = false; m[a].clear(); subs[a].clear();
        }
        template <class F> void add(int a, int k, F f)
        {
            begin();
            const bool isnew = !m[a].count(k);
            if (isnew) expect(a, { '+', k });
            in_event = a;
            std::pair<Set::iterator, bool> r;
            { mc::heap::Track t; r = f(); }
            end();
            if (r.second != isnew) mc::fail("insertion returned %d", r.second);
            if (r.first->key != k) mc::fail("insertion returned an iterator to %d", r.first->key);
            m[a].insert(k);
        }
        template <class F> void fails(int a, F f)
        {
            begin();
            bool thrown = false;
            { mc::heap::Track t; try { f(); } catch (const std::exception&) { thrown = true; } }
            Val::throw_at = -1; mc::heap::g_fail_at = -1;
            end();
            if (!thrown) mc::fail("internal: nothing was thrown");
        }
        template <class F> void remove(int a, int k, F f)
        {
            begin();
            const bool there = m[a].count(k);
            if (there) expect(a, { '-', k });
            in_event = a;
            size_t r;
            { mc::heap::Track t; r = f(); }
            end();
            if (r != there) mc::fail("erase() returned %zu", r);
            m[a].erase(k);
        }
        void clear(int a)
        {
            begin();
            if (!m[a].empty()) { expect(a, { 'x', 0 }); clearing = a; clear_content = m[a]; }
            { mc::heap::Track t; s(a).clear(); }
            end();
            m[a].clear();
        }
        void step(mc::Menu& op)
        {
            for (int a = 0; a < L; ++a)
            {
                const int b = 1 - a;
                if (!alive[a])
                {
                    if (op("create set %d", a)) { mc::heap::Track t; new (st.s[a]) Set(); alive[a] = true; return; }
                    if (op("create set %d from a list", a))
                    {
                        std::initializer_list<Val> il{ Val(1), Val(0), Val(1) };
                        mc::heap::Track t; new (st.s[a]) Set(il); alive[a] = true; m[a] = { 0, 1 }; return;
                    }
                    if (alive[b] && op("set %d: move-constructed", a))
                    {
                        begin();
                        { mc::heap::Track t; new (st.s[a]) Set(std::move(s(b))); }
                        end();
                        alive[a] = true; m[a] = m[b]; subs[a] = subs[b]; m[b].clear(); subs[b].clear();
                        return;
                    }
                    continue;
                }
                for (int k = 0; k < K; ++k)
                {
                    if (op("set %d: insert(const %d&)", a, k)) { Val v(k); add(a, k, [&] { return s(a).insert(v); }); if (v.key != k) mc::fail("insert(const&) changed its argument"); return; }
                    if (op("set %d: insert(%d&&)", a, k)) { Val v(k); add(a, k, [&] { return s(a).insert(std::move(v)); }); return; }
                    if (op("set %d: emplace(%d)", a, k)) { add(a, k, [&] { return s(a).emplace(k); }); return; }
                    if (op("set %d: emplace(1, %d)", a, k - 1)) { add(a, k, [&] { return s(a).emplace(1, k - 1); }); return; }
                    if (op("set %d: emplace(Val(%d))", a, k)) { Val v(k); add(a, k, [&] { return s(a).emplace(std::move(v)); }); return; }
                    if (!m[a].count(k))
                    {
                        if (op("set %d: insert(const %d&), copying throws", a, k)) { Val v(k); Val::throw_at = 0; fails(a, [&] { s(a).insert(v); }); return; }
                        if (op("set %d: emplace(%d, 0), the constructor throws", a, k)) { Val::throw_at = 0; fails(a, [&] { s(a).emplace(k, 0); }); return; }
                        if (op("set %d: insert(%d&&), out of memory", a, k)) { Val v(k); mc::heap::g_fail_at = 0; fails(a, [&] { s(a).insert(std::move(v)); }); return; }
                    }
                    if (op("set %d: erase(key %d)", a, k)) { remove(a, k, [&] { return s(a).erase(k); }); return; }
                    if (m[a].count(k))
                    {
                        if (op("set %d: erase(iterator to %d)", a, k)) { auto i = s(a).find(k); remove(a, k, [&] { s(a).erase(i); return size_t(1); }); return; }
                        if (op("set %d: erase(own element %d)", a, k)) { const Val& v = *s(a).find(k); remove(a, k, [&] { return s(a).erase(v); }); return; }
                        // an observer that goes away while it is notified
                        for (int o : subs[a])
                            if (op("set %d: erase(key %d), observer %d unsubscribes", a, k, o)) { leaving = o; remove(a, k, [&] { return s(a).erase(k); }); leaving = -1; left(o); return; }
                    }
                    else for (int o : subs[a])
                        if (op("set %d: insert(%d), observer %d unsubscribes", a, k, o)) { leaving = o; Val v(k); add(a, k, [&] { return s(a).insert(v); }); leaving = -1; left(o); return; }
                }
                if (op("set %d: clear()", a)) { clear(a); return; }
                if (!m[a].empty()) for (int o : subs[a])
                    if (op("set %d: clear(), observer %d unsubscribes", a, o)) { leaving = o; clear(a); leaving = -1; left(o); return; }
                if (op("destroy set %d", a)) { destroy(a); return; }
                if (op("set %d: move-assigned from itself", a)) { begin(); { mc::heap::Track t; Set& x = s(a); x = std::move(s(a)); } end(); return; }
                if (alive[b] && op("set %d: move-assigned from the other", a))
                {
                    begin();
                    if (!m[a].empty()) { expect(a, { 'x', 0 }); clearing = a; clear_content = m[a]; }
                    { mc::heap::Track t; s(a) = std::move(s(b)); }
                    end();
                    m[a] = m[b]; m[b].clear();
                    subs[a] = subs[b]; subs[b].clear();
                    return;
                }
                if (alive[b] && op("set %d: migrate(the other)", a))
                {
                    begin();
                    const std::set<int> old_a = m[a], old_b = m[b];
                    if (!old_a.empty()) expect(a, { 'x', 0 });
                    if (!old_b.empty()) expect(b, { 'x', 0 });
                    for (int k : old_b) expect(a, { '+', k });
                    in_event = a; clearing = -2;
                    mig_a = old_a; mig_b = old_b; mig = a;
                    { mc::heap::Track t; s(a).migrate(std::move(s(b))); }
                    end();
                    m[a] = old_b; m[b].clear();
                    return;
                }
            }
            for (int o = 0; o < S; ++o)
            {
                if (st.o[o].IsSubscribed())
                {
                    for (int a = 0; a < L; ++a) if (std::count(subs[a].begin(), subs[a].end(), o) && op("set %d: Unsubscribe(%d)", a, o)) { s(a).Unsubscribe(&st.o[o]); left(o); return; }
                }
                else for (int a = 0; a < L; ++a)
                    if (alive[a] && op("set %d: Subscribe(%d)", a, o)) { s(a).Subscribe(&st.o[o]); subs[a].push_back(o); replica[o] = m[a]; return; }
            }
        }
        int mig = -1; std::set<int> mig_a, mig_b;
        void clearing_event(int id)
        {
            if (clearing != -2) return;
            // migrate(): which of the two sets is cleared?
            const bool of_a = std::count(subs[mig].begin(), subs[mig].end(), id);
            clearing = of_a ? mig : 1 - mig;
            clear_content = of_a ? mig_a : mig_b;
        }
        void check()
        {
            for (int a = 0; a < L; ++a)
            {
                if (!alive[a]) continue;
                Set& x = s(a);
                const Set& cx = x;
                if (x.size() != m[a].size() || x.empty() != m[a].empty()) mc::fail("set %d has %zu elements, expected %zu", a, x.size(), m[a].size());
                std::vector<int> f, r, mf(m[a].begin(), m[a].end()), mr(m[a].rbegin(), m[a].rend());
                for (auto& v : cx) f.push_back(v.key);
                for (auto i = x.rbegin(); i != x.rend(); ++i) r.push_back(i->key);
                if (f != mf || r != mr) mc::fail("set %d: iteration", a);
                for (size_t i = 0; i < mf.size(); ++i) if (x[i].key != mf[i] || cx.at(i).key != mf[i] || x.index_of(mf[i]) != i) mc::fail("set %d: index", a);
                bool thrown = false;
                try { cx.at(mf.size()); } catch (const std::out_of_range&) { thrown = true; }
                if (!thrown) mc::fail("set %d: at() out of range", a);
                if (!mf.empty() && (x.front().key != mf.front() || cx.back().key != mf.back() || cx.front().key != mf.front() || x.back().key != mf.back())) mc::fail("set %d: front/back", a);
                std::vector<int> f2, r2;
                for (auto& v : x) f2.push_back(v.key);
                for (auto i = cx.rbegin(); i != cx.rend(); ++i) r2.push_back(i->key);
                if (f2 != mf || r2 != mr) mc::fail("set %d: iteration", a);
                for (int b = 0; b < L; ++b)
                    if (alive[b] && ((cx == s(b)) != (m[a] == m[b]) || (cx != s(b)) != (m[a] != m[b]))) mc::fail("comparison of the sets %d and %d", a, b);
                for (int k = -1; k <= K; ++k)
                {
                    if (x.contains(k) != bool(m[a].count(k)) || (cx.find(k) != cx.end()) != bool(m[a].count(k))) mc::fail("set %d: contains(%d)", a, k);
                    auto lb = m[a].lower_bound(k), ub = m[a].upper_bound(k);
                    auto l = cx.lower_bound(k); auto u = x.upper_bound(k);
                    if ((l == cx.end()) != (lb == m[a].end()) || (lb != m[a].end() && l->key != *lb)) mc::fail("set %d: lower_bound(%d)", a, k);
                    if ((u == x.end()) != (ub == m[a].end()) || (ub != m[a].end() && u->key != *ub)) mc::fail("set %d: upper_bound(%d)", a, k);
                }
                for (int o : subs[a])
                {
                    if (!st.o[o].IsSubscribed()) mc::fail("observer %d lost its subscription", o);
                    if (replica[o] != m[a]) mc::fail("the replica of observer %d differs from set %d", o, a);
                }
            }
            for (int o = 0; o < S; ++o)
            {
                bool sub = false;
                for (auto& v : subs) sub |= std::count(v.begin(), v.end(), o) > 0;
                if (sub != st.o[o].IsSubscribed()) mc::fail("observer %d: IsSubscribed() = %d", o, st.o[o].IsSubscribed());
            }
            size_t n = 0;
            for (auto& v : m) n += v.size();
            if (Val::live != int(n)) mc::fail("%d elements alive, expected %zu", Val::live, n);
        }
        uint64_t canon()
        {
            uint64_t h = 9;
            for (int a = 0; a < L; ++a)
            {
                h = mc::mix(h, alive[a]);
                for (int k : m[a]) h = mc::mix(h, k + 1);
                h = mc::mix(h, 77);
                for (int o : subs[a]) h = mc::mix(h, o + 1);
                h = mc::mix(h, 78);
            }
            return mc::mix(h, mc::heap::graph_hash({ { &st, sizeof st } }));
        }
    };
    void Obs::OnAdded(const Val& v) { mc::heap::Untrack u; sys->event(id, '+', &v); }
    void Obs::OnRemoving(const Val& v) { mc::heap::Untrack u; sys->event(id, '-', &v); }
    void Obs::OnClearing()
    {
        mc::heap::Untrack u;
        const int saved = sys->clearing;
        sys->clearing_event(id);
        sys->event(id, 'x', nullptr);
        sys->clearing = saved;
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    if (mc::begin_scenario("two sets, two observers"))
        mc::bfs([&] { return std::make_unique<Sys>(th ? 3 : 2); }, 60, 3000000);
    return mc::finish();
}
