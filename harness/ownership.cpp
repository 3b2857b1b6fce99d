// C08: scope_guard, unique_ptr and aggregator; every sequence of operations over a few objects.
#include "heap.hpp"
#include "menu.hpp"
#include "Awl/ScopeGuard.h"
#include "Awl/UniquePtr.h"
#include "Awl/Aggregator.h"
#include <memory>
#include <optional>
#include <utility>

namespace
{
    // Every action has a number; a run is recorded.
    int runs[16];
    int g_window = 1;

    struct Action
    {
        int id;
        std::unique_ptr<int> owned;     // a moved-from action must not be called
        explicit Action(int i) : id(i), owned(new int(i)) {}
        Action(Action&&) = default;
        Action& operator=(Action&&) = default;
        void operator()() { if (!owned || *owned != id) mc::fail("a moved-from action is called"); ++runs[id]; }
    };

    template <class Guard, class Make, bool assignable>
    struct Guards : mc::MenuSys<Guards<Guard, Make, assignable>>
    {
        static constexpr int S = 3, A = 3;
        int max_actions;
        std::optional<Guard> g[S];
        struct M { bool exists = false, engaged = false; int id = -1; } m[S];
        int next = 0, ran[16] = {};
        bool any[16] = {};      // replaced while engaged: whether it runs is not specified

        Guards(int mx) : max_actions(mx) { for (auto& r : runs) r = 0; }
        ~Guards() { for (int i = 0; i < S; ++i) kill(i); check(); }
        void kill(int i) { g[i].reset(); if (m[i].exists && m[i].engaged) ++ran[m[i].id]; m[i] = {}; }
        void step(mc::Menu& op)
        {
            for (int i = 0; i < S; ++i)
            {
                if (!m[i].exists)
                {
                    if (next < max_actions)
                    {
                        if (op("guard %d: engaged", i)) { g[i].emplace(Make::make(next, true)); m[i] = { true, true, next++ }; return; }
                        if (op("guard %d: not engaged", i)) { g[i].emplace(Make::make(next, false)); m[i] = { true, false, next++ }; return; }
                    }
                    for (int j = 0; j < S; ++j)
                        if (m[j].exists && op("guard %d: move-constructed from guard %d", i, j)) { g[i].emplace(std::move(*g[j])); m[i] = m[j]; m[j].engaged = false; m[j].id = -1; return; }
                }
                else
                {
                    if (op("destroy guard %d", i)) { kill(i); return; }
                    if (op("release guard %d", i)) { g[i]->release(); m[i].engaged = false; return; }
                    if constexpr (assignable)
                        for (int j = 0; j < S; ++j)
                            if (m[j].exists && op("guard %d: move-assigned from guard %d", i, j))
                            {
                                *g[i] = std::move(*g[j]);
                                if (i == j) return;
                                if (m[i].engaged) any[m[i].id] = true;
                                m[i] = m[j];
                                m[j].engaged = false; m[j].id = -1;
                                return;
                            }
                }
            }
        }
        void check()
        {
            for (int k = 0; k < next; ++k)
                if (any[k] ? runs[k] > 1 : runs[k] != ran[k]) mc::fail("action %d ran %d times, expected %d", k, runs[k], ran[k]);
        }
        uint64_t canon()
        {
            uint64_t h = next;
            for (auto& x : m) h = mc::mix(mc::mix(h, x.exists * 2 + x.engaged), x.id + 1);
            for (int k = 0; k < next; ++k) h = mc::mix(h, ran[k] + 4 * any[k]);
            return mc::mix(h, this->recent(g_window));
        }
    };

    struct MakeLambda
    {
        static auto make(int id, bool e) { return awl::make_scope_guard(Action(id), e); }
    };
    struct MakeVirtual
    {
        static awl::virtual_guard make(int id, bool e)
        {
            auto a = std::make_shared<Action>(id);      // std::function wants copies
            std::function<void()> f = [a] { (*a)(); };
            if (e) return awl::make_virtual_guard(f);
            return awl::virtual_guard(f, false);
        }
    };
    using ActionGuard = decltype(MakeLambda::make(0, true));

    // init/free pairs
    void init_free()
    {
        for (int engaged = 0; engaged < 2; ++engaged)
            for (int throws = 0; throws < 2; ++throws)
                for (int release = 0; release < 2; ++release)
                {
                    mc::trace_reset();
                    mc::trace("make_scope_guard(init%s, free, %d)%s", throws ? " that throws" : "", engaged, release ? ", release()" : "");
                    int init = 0, freed = 0;
                    bool thrown = false;
                    try
                    {
                        auto g = awl::make_scope_guard([&] { ++init; if (throws) throw std::runtime_error("init"); }, [&] { ++freed; }, engaged != 0);
                        if (freed) mc::fail("the action ran while the guard exists");
                        if (release) g.release();
                    }
                    catch (const std::runtime_error&) { thrown = true; }
                    if (init != engaged || thrown != (engaged && throws)) mc::fail("init ran %d times", init);
                    if (freed != (engaged && !throws && !release)) mc::fail("free ran %d times", freed);
                    ++mc::cnt("states"); ++mc::cnt("transitions"); ++mc::cnt("executions");
                }
        int freed = 0;
        { auto g = awl::make_scope_guard([&] { ++freed; }); (void)g; }
        if (freed != 1) mc::fail("a default engaged guard ran its action %d times", freed);
        // the action runs when the scope is left by an exception
        try { auto g = awl::make_scope_guard([&] { ++freed; }); throw 1; } catch (int) {}
        if (freed != 2) mc::fail("the action did not run during stack unwinding");
        { awl::virtual_guard g = awl::make_fake_guard(); }
    }

    struct Obj
    {
        uint32_t canary = 0xC0FFEE;
        int id;
        static inline int live = 0, seq = 0;
        Obj(int i, std::unique_ptr<int> forwarded) : id(i) { if (!forwarded || *forwarded != i) mc::fail("make_unique does not forward its arguments"); ++live; }
        ~Obj() { if (canary != 0xC0FFEE) mc::fail("an object is deleted twice"); canary = 0; --live; }
    };

    struct Unique : mc::MenuSys<Unique>
    {
        static constexpr int S = 3;
        using Ptr = awl::unique_ptr<Obj>;
        std::optional<Ptr> p[S];
        Obj* m[S] = {};
        std::vector<Obj*> raw;      // released
        bool exists[S] = {};
        Unique() { Obj::live = 0; Obj::seq = 0; }
        ~Unique()
        {
            for (auto& x : p) x.reset();
            if (Obj::live != (int)raw.size()) mc::fail("%d objects are alive, %zu were released", Obj::live, raw.size());
            for (auto o : raw) delete o;
        }
        Obj* fresh() { int i = Obj::seq++; return new Obj(i, std::make_unique<int>(i)); }
        int total() { int n = raw.size(); for (auto x : m) n += x != nullptr; return n; }
        void step(mc::Menu& op)
        {
            const bool room = total() < 4;
            for (int i = 0; i < S; ++i)
            {
                if (!exists[i])
                {
                    if (op("%d: default", i)) { p[i].emplace(); exists[i] = true; return; }
                    if (room && op("%d: from new", i)) { m[i] = fresh(); p[i].emplace(m[i]); exists[i] = true; return; }
                    if (room && op("%d: make_unique", i)) { int k = Obj::seq++; p[i].emplace(awl::make_unique<Obj>(int(k), std::make_unique<int>(k))); m[i] = p[i]->get(); exists[i] = true; if (m[i]->id != k) mc::fail("make_unique"); return; }
                    for (int j = 0; j < S; ++j) if (exists[j] && op("%d: move-construct from %d", i, j)) { p[i].emplace(std::move(*p[j])); m[i] = m[j]; m[j] = nullptr; exists[i] = true; return; }
                    continue;
                }
                if (op("%d: destroy", i)) { p[i].reset(); m[i] = nullptr; exists[i] = false; return; }
                if (op("%d: release", i)) { Obj* o = p[i]->release(); if (o != m[i]) mc::fail("release() returned something else"); if (o) raw.push_back(o); m[i] = nullptr; return; }
                if (op("%d: reset(nullptr)", i)) { p[i]->reset(nullptr); m[i] = nullptr; return; }
                if (room && op("%d: reset(new)", i)) { Obj* o = fresh(); p[i]->reset(o); m[i] = o; return; }
                if (!raw.empty() && op("%d: reset(a released one)", i)) { Obj* o = raw.back(); raw.pop_back(); p[i]->reset(o); m[i] = o; return; }
                if (op("%d = {}", i)) { *p[i] = {}; m[i] = nullptr; return; }
                for (int j = 0; j < S; ++j)
                {
                    if (!exists[j]) continue;
                    if (op("%d: move-assign from %d", i, j)) { *p[i] = std::move(*p[j]); if (i != j) { m[i] = m[j]; m[j] = nullptr; } return; }
                    if (i < j && op("swap %d and %d", i, j)) { std::swap(*p[i], *p[j]); std::swap(m[i], m[j]); return; }
                }
            }
        }
        void check()
        {
            if (Obj::live != total()) mc::fail("%d objects are alive, %d are owned or released", Obj::live, total());
            for (int i = 0; i < S; ++i)
            {
                if (!exists[i]) continue;
                Ptr& x = *p[i];
                if (x.get() != m[i] || bool(x) != (m[i] != nullptr) || !(x == m[i]) || x != m[i]) mc::fail("pointer %d does not hold what it should", i);
                if (m[i] && (&*x != m[i] || x->canary != 0xC0FFEE || x == static_cast<const Obj*>(nullptr))) mc::fail("pointer %d: dereference", i);
                for (int j = 0; j < S; ++j) if (exists[j] && ((x == *p[j]) != (m[i] == m[j]) || (x != *p[j]) != (m[i] != m[j]))) mc::fail("comparison of pointers %d and %d", i, j);
            }
            for (auto o : raw) if (o->canary != 0xC0FFEE) mc::fail("a released object was deleted");
        }
        uint64_t canon() { uint64_t h = raw.size(); for (int i = 0; i < S; ++i) h = mc::mix(h, exists[i] + 2 * (m[i] != nullptr)); return mc::mix(h, recent(g_window)); }
    };

    // aggregator: three arguments of different kinds
    struct Tok { int v = 0; std::unique_ptr<int> p; Tok() = default; Tok(int i) : v(i), p(new int(i)) {} };
    struct Aggr : mc::MenuSys<Aggr>
    {
        using Agg = awl::aggregator<int, const std::string&, Tok>;
        int calls = 0, last[3] = {};
        bool throws = false, reenter = false, bad = false;
        std::shared_ptr<Agg> a;
        int val[3] = { -1, -1, -1 };
        bool cancelled = false, done = false;
        int want_calls = 0;
        void f(int i, const std::string& s, Tok t)
        {
            ++calls;
            last[0] = i; last[1] = atoi(s.c_str()); last[2] = t.v;
            if (!t.p || *t.p != t.v) mc::fail("the function was called with a moved-from argument");
            if (reenter) a->cancel();
            if (throws) throw std::runtime_error("function");
        }
        Aggr(bool shared)
        {
            std::function<void(int, const std::string&, Tok)> fn = [this](int i, const std::string& s, Tok t) { f(i, s, std::move(t)); };
            if (shared) a = awl::make_shared_aggregator<int, const std::string&, Tok>(fn);
            else a.reset(new Agg(fn));
        }
        void do_set(int i, int v) { if (i == 0) a->set<0>(v); else if (i == 1) a->set<1>("0000000000000000000000" + std::to_string(v)); else a->set<2>(Tok(v)); }
        void step(mc::Menu& op)
        {
            if (done) return;
            for (int i = 0; i < 3; ++i)
                for (int v = 1; v < 3; ++v)
                    for (int k = 0; k < 3; ++k)
                    {
                        // the last missing argument: the function may throw or cancel
                        int missing = 0;
                        for (int j = 0; j < 3; ++j) missing += j != i && val[j] < 0;
                        if (k && missing) continue;
                        if (cancelled && k) continue;
                        if (!op("set<%d>(%d)%s", i, v, k == 0 ? "" : k == 1 ? ", the function throws" : ", the function cancels")) continue;
                        throws = k == 1; reenter = k == 2;
                        bool thrown = false;
                        try { do_set(i, v); } catch (const std::runtime_error&) { thrown = true; }
                        val[i] = v;
                        if (!missing && !cancelled)
                        {
                            done = true;
                            ++want_calls;
                            for (int j = 0; j < 3; ++j) if (last[j] != val[j]) mc::fail("argument %d is %d, %d was set", j, last[j], val[j]);
                            if (thrown != throws) mc::fail("an exception of the function does not come out");
                        }
                        else if (thrown) mc::fail("unexpected exception");
                        return;
                    }
            if (op("cancel()")) { a->cancel(); cancelled = true; return; }
        }
        void check()
        {
            if (calls != want_calls) mc::fail("the function was called %d times, expected %d", calls, want_calls);
            if (!done && a->all() != (val[0] >= 0 && val[1] >= 0 && val[2] >= 0)) mc::fail("all() = %d", a->all());
        }
        uint64_t canon() { uint64_t h = cancelled + 2 * done; for (int v : val) h = mc::mix(h, v + 1); return mc::mix(h, recent(g_window + 3)); }
    };
    void one_argument()
    {
        int n = 0, got = 0;
        awl::aggregator<int> a(std::function<void(int)>([&](int v) { ++n; got = v; }));
        if (a.all() || n) mc::fail("called before its argument is set");
        a.set<0>(5);
        if (n != 1 || got != 5) mc::fail("aggregator of one argument: %d calls", n);
        awl::aggregator<int> b(std::function<void(int)>([&](int) { ++n; }));
        b.cancel();
        b.set<0>(5);
        if (n != 1) mc::fail("a cancelled aggregator calls its function");
        ++mc::cnt("states"); ++mc::cnt("transitions");
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    const int n = th ? 4 : 3;
    g_window = th ? 2 : 1;
    using G1 = Guards<ActionGuard, MakeLambda, true>;
    using G2 = Guards<awl::virtual_guard, MakeVirtual, true>;
    if (mc::begin_scenario("scope_guard of a movable action")) mc::bfs([&] { return std::make_unique<G1>(n); }, 60, 3000000);
    if (mc::begin_scenario("virtual_guard")) mc::bfs([&] { return std::make_unique<G2>(n); }, 60, 3000000);
    if (mc::begin_scenario("init and free")) init_free();
    if (mc::begin_scenario("unique_ptr")) mc::bfs([&] { return std::make_unique<Unique>(); }, 60, 3000000);
    if (mc::begin_scenario("aggregator")) mc::bfs([&] { return std::make_unique<Aggr>(false); }, 60, 3000000);
    if (mc::begin_scenario("make_shared_aggregator")) mc::bfs([&] { return std::make_unique<Aggr>(true); }, 60, 3000000);
    if (mc::begin_scenario("aggregator of one argument")) one_argument();
    return mc::finish();
}
