// O01: Observable / Observer: every history of subscriptions, moves and destructions, every combination of reactions during a notification.
#include "heap.hpp"
#include "menu.hpp"
#include "Awl/Observable.h"
#include <memory>
#include <optional>

namespace
{
    struct INotify
    {
        virtual void Changed(int n, const std::string& text, std::string copy) = 0;
        virtual bool Ask(int n) = 0;
    };

    struct Sys;
    Sys* sys = nullptr;

    struct Obs : awl::Observer<INotify>
    {
        uint32_t canary = 0xC0FFEE;
        Obs() = default;
        Obs(Obs&&) = default;
        Obs& operator=(Obs&&) = default;
        ~Obs() { if (canary != 0xC0FFEE) mc::fail("an observer is destroyed twice"); canary = 0; }
        void Changed(int n, const std::string& text, std::string copy) override;
        bool Ask(int n) override;
    };
    struct Subject : awl::Observable<INotify>
    {
        using awl::Observable<INotify>::Observable;
        using awl::Observable<INotify>::operator=;
        Subject() = default;
        Subject(Subject&&) = default;
        Subject& operator=(Subject&&) = default;
        void Fire(int n)
        {
            std::string text = "a text long enough to be allocated " + std::to_string(n);
            Notify(&INotify::Changed, n, text, std::string("temporary, also long enough to be allocated"));
            if (text != "a text long enough to be allocated " + std::to_string(n)) mc::fail("an argument of Notify() was changed");
        }
        bool AskAll(int n) { return NotifyWhileTrue(&INotify::Ask, n); }
    };

    enum Reaction { nothing, unsubscribe, destroy_self, move_self, unsubscribe_earlier, throws, REACTIONS, nested = REACTIONS, subscribe_new };
    const char* rname[] = { "-", "unsubscribes", "destroys itself", "moves itself", "unsubscribes the first", "throws", "notifies again", "subscribes another" };

    struct Sys : mc::MenuSys<Sys>
    {
        static constexpr int S = 4, L = 2;      // observer slots (the last one only receives moved observers), subjects
        int N;
        struct St { alignas(Obs) unsigned char o[S][sizeof(Obs)]; alignas(Subject) unsigned char s[L][sizeof(Subject)]; } st;
        bool alive[S] = {}, salive[L] = {};
        std::vector<int> m[L];                  // subscribed slots in order
        Obs& ob(int i) { return *reinterpret_cast<Obs*>(st.o[i]); }
        Subject& su(int i) { return *reinterpret_cast<Subject*>(st.s[i]); }
        int tick = 0;

        Sys(int n) : N(n)
        {
            sys = this;
            memset(&st, 0x5a, sizeof st);
            for (int i = 0; i < N; ++i) make(i);
            for (int i = 0; i < L; ++i) smake(i);
        }
        ~Sys()
        {
            // observers first or subjects first, both must be safe
            for (int i = 0; i < S; ++i) if (alive[i] && i % 2) kill(i);
            for (int i = 0; i < L; ++i) if (salive[i]) skill(i);
            for (int i = 0; i < S; ++i) if (alive[i]) { if (ob(i).IsSubscribed()) mc::fail("observer %d is still subscribed although its subject is gone", i); kill(i); }
            sys = nullptr;
        }
        void make(int i) { memset(st.o[i], 0x5a, sizeof(Obs)); new (st.o[i]) Obs(); alive[i] = true; }
        void kill(int i) { ob(i).~Obs(); memset(st.o[i], 0xa5, sizeof(Obs)); alive[i] = false; drop(i); }
        void smake(int i) { memset(st.s[i], 0x5a, sizeof(Subject)); new (st.s[i]) Subject(); salive[i] = true; }
        void skill(int i) { su(i).~Subject(); memset(st.s[i], 0xa5, sizeof(Subject)); salive[i] = false; m[i].clear(); }
        int where(int i) { for (int a = 0; a < L; ++a) if (std::count(m[a].begin(), m[a].end(), i)) return a; return -1; }
        void drop(int i) { int a = where(i); if (a >= 0) m[a].erase(std::find(m[a].begin(), m[a].end(), i)); }
        int free_slot() { for (int i = 0; i < S; ++i) if (!alive[i]) return i; return -1; }
        void rename(int from, int to) { for (auto& v : m) for (auto& x : v) if (x == from) x = to; }

        // ---- notification ----
        int reaction[S];
        std::vector<int> expect;    // slots still to be called, in order
        size_t pos;
        int subject = -1, cur_tick, depth = 0;
        std::vector<int> inner;
        int refuse;

        void called(Obs* self, int n)
        {
            if (self->canary != 0xC0FFEE) mc::fail("a destroyed observer is notified");
            int slot = -1;
            for (int i = 0; i < S; ++i) if (&ob(i) == self) slot = i;
            if (subject < 0) mc::fail("an observer is notified outside a notification");
            if (depth == 2) { inner.push_back(slot); return; }
            if (n != cur_tick) mc::fail("observer %d got argument %d instead of %d", slot, n, cur_tick);
            if (pos >= expect.size() || expect[pos] != slot)
            {
                if (slot >= 0 && std::count(late.begin(), late.end(), slot)) { late.erase(std::find(late.begin(), late.end(), slot)); return; }   // subscribed during the notification: not specified
                mc::fail("observer %d is notified out of turn (call %zu)", slot, pos);
            }
            ++pos;
            react(slot, reaction[slot]);
        }
        std::vector<int> late;
        void react(int i, int r)
        {
            switch (r)
            {
            case unsubscribe: ob(i).UnsubscribeSelf(); drop(i); break;
            case destroy_self: kill(i); break;
            case move_self:
            {
                int j = free_slot();
                if (j < 0) break;
                memset(st.o[j], 0x5a, sizeof(Obs));
                new (st.o[j]) Obs(std::move(ob(i)));
                alive[j] = true;
                rename(i, j);
                kill(i);
                break;
            }
            case unsubscribe_earlier:
            {
                int f = expect[0];
                if (f != i && alive[f] && where(f) == subject) { su(subject).Unsubscribe(&ob(f)); drop(f); }
                break;
            }
            case throws: throw std::runtime_error("observer");
            case nested:
            {
                depth = 2;
                inner.clear();
                std::vector<int> want = m[subject];
                su(subject).Fire(cur_tick + 100);
                depth = 1;
                if (inner != want) mc::fail("a nested notification reached %zu observers instead of %zu", inner.size(), want.size());
                break;
            }
            case subscribe_new:
                for (int k = 0; k < S; ++k) if (alive[k] && where(k) < 0) { su(subject).Subscribe(&ob(k)); m[subject].push_back(k); late.push_back(k); break; }
                break;
            }
        }
        void fire(int a)
        {
            subject = a; expect = m[a]; pos = 0; depth = 1; cur_tick = ++tick; late.clear();
            bool thrown = false;
            try { su(a).Fire(cur_tick); } catch (const std::runtime_error&) { thrown = true; }
            size_t want = expect.size();
            bool want_throw = false;
            for (size_t i = 0; i < expect.size(); ++i) if (reaction[expect[i]] == throws) { want = i + 1; want_throw = true; break; }
            if (pos != want) mc::fail("%zu observers were notified, expected %zu", pos, want);
            if (thrown != want_throw) mc::fail("an exception of an observer does not come out of Notify()");
            subject = -1; depth = 0;
        }
        void ask(int a, int refuser)
        {
            subject = a; expect = m[a]; pos = 0; depth = 1; cur_tick = ++tick; late.clear(); refuse = refuser;
            const bool r = su(a).AskAll(cur_tick);
            size_t want = expect.size();
            for (size_t i = 0; i < expect.size(); ++i) if (expect[i] == refuser) { want = i + 1; break; }
            if (pos != want) mc::fail("%zu observers were asked, expected %zu", pos, want);
            if (r != (refuser < 0)) mc::fail("NotifyWhileTrue() returned %d", r);
            subject = -1; depth = 0;
        }

        void step(mc::Menu& op)
        {
            for (int i = 0; i < S; ++i)
            {
                if (!alive[i])
                {
                    if (i < N && op("create observer %d", i)) { make(i); return; }
                    for (int j = 0; j < S; ++j)
                        if (alive[j] && op("observer %d: move-constructed from %d", i, j)) { memset(st.o[i], 0x5a, sizeof(Obs)); new (st.o[i]) Obs(std::move(ob(j))); alive[i] = true; rename(j, i); return; }
                    continue;
                }
                const int a = where(i);
                if (op("destroy observer %d", i)) { kill(i); return; }
                if (op("observer %d: UnsubscribeSafe()", i)) { ob(i).UnsubscribeSafe(); drop(i); return; }
                if (a >= 0)
                {
                    if (op("observer %d: UnsubscribeSelf()", i)) { ob(i).UnsubscribeSelf(); drop(i); return; }
                    if (op("subject %d: Unsubscribe(%d)", a, i)) { su(a).Unsubscribe(&ob(i)); drop(i); return; }
                }
                else for (int b = 0; b < L; ++b) if (salive[b] && op("subject %d: Subscribe(%d)", b, i)) { su(b).Subscribe(&ob(i)); m[b].push_back(i); return; }
                for (int j = 0; j < S; ++j)
                    if (alive[j] && op("observer %d: move-assigned from %d", i, j)) { ob(i) = std::move(ob(j)); if (i != j) { drop(i); rename(j, i); } return; }
            }
            for (int a = 0; a < L; ++a)
            {
                if (!salive[a])
                {
                    if (op("create subject %d", a)) { smake(a); return; }
                    if (salive[1 - a] && op("subject %d: move-constructed from the other", a)) { memset(st.s[a], 0x5a, sizeof(Subject)); new (st.s[a]) Subject(std::move(su(1 - a))); salive[a] = true; m[a] = m[1 - a]; m[1 - a].clear(); return; }
                    continue;
                }
                if (op("destroy subject %d", a)) { skill(a); return; }
                if (salive[1 - a] && op("subject %d: move-assigned from the other", a)) { su(a) = std::move(su(1 - a)); m[a] = m[1 - a]; m[1 - a].clear(); return; }
                if (op("subject %d: move-assigned from itself", a)) { Subject& s = su(a); s = std::move(su(a)); return; }
                // every combination of reactions of the subscribed observers
                const int n = m[a].size();
                int combos = 1;
                for (int k = 0; k < n; ++k) combos *= REACTIONS;
                for (int c = 0; c < combos; ++c)
                {
                    std::string what;
                    for (int k = 0, x = c; k < n; ++k, x /= REACTIONS) { reaction[m[a][k]] = x % REACTIONS; if (op.k == op.target) what += std::string(" ") + std::to_string(m[a][k]) + ":" + rname[x % REACTIONS]; }
                    if (op("subject %d notifies:%s", a, what.c_str())) { fire(a); return; }
                }
                for (int k = 0; k < n; ++k)
                    for (int r : { int(nested), int(subscribe_new) })
                    {
                        for (auto& x : reaction) x = nothing;
                        reaction[m[a][k]] = r;
                        if (op("subject %d notifies: %d:%s", a, m[a][k], rname[r])) { fire(a); return; }
                    }
                for (int k = -1; k < n; ++k)
                    for (int r : { int(nothing), int(unsubscribe), int(destroy_self) })
                    {
                        for (auto& x : reaction) x = nothing;
                        if (n) reaction[m[a][k < 0 ? 0 : k]] = r;
                        if (!n && r) continue;
                        if (op("subject %d asks, %d refuses, an observer %s", a, k < 0 ? -1 : m[a][k], rname[r])) { ask(a, k < 0 ? -1 : m[a][k]); return; }
                    }
            }
        }
        void check()
        {
            for (int a = 0; a < L; ++a)
            {
                if (!salive[a]) continue;
                if (su(a).size() != m[a].size() || su(a).empty() != m[a].empty()) mc::fail("subject %d has %zu observers, expected %zu", a, size_t(su(a).size()), m[a].size());
                for (auto& r : reaction) r = nothing;
                fire(a);
            }
            for (int i = 0; i < S; ++i)
                if (alive[i] && ob(i).IsSubscribed() != (where(i) >= 0)) mc::fail("observer %d: IsSubscribed() = %d", i, ob(i).IsSubscribed());
        }
        uint64_t canon()
        {
            uint64_t h = 5;
            for (int i = 0; i < S; ++i) h = mc::mix(h, alive[i]);
            for (int a = 0; a < L; ++a) { h = mc::mix(h, salive[a]); for (int i : m[a]) h = mc::mix(h, i + 1); h = mc::mix(h, 99); }
            return mc::mix(h, mc::heap::graph_hash({ { &st, sizeof st } }));
        }
    };

    void Obs::Changed(int n, const std::string& text, std::string copy)
    {
        if (text != "a text long enough to be allocated " + std::to_string(n) || copy != "temporary, also long enough to be allocated") mc::fail("an observer gets a damaged argument");
        copy.clear();
        sys->called(this, n);
    }
    bool Obs::Ask(int n)
    {
        int slot = -1;
        for (int i = 0; i < Sys::S; ++i) if (&sys->ob(i) == this) slot = i;
        const bool r = slot != sys->refuse;
        sys->called(this, n);
        return r;
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    if (mc::begin_scenario(th ? "2 subjects, 3 observers" : "2 subjects, 2 observers and one more place"))
        mc::bfs([&] { return std::make_unique<Sys>(th ? 4 : 3); }, 60, 3000000);
    return mc::finish();
}
