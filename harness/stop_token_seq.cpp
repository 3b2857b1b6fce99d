// J01, one thread: every history of source, token and callback operations against a reference model.
#include "heap.hpp"
#include <utility>
#include <chrono>
#include "JThreadExtras/stop_token.hpp"
#include <optional>

namespace
{
    constexpr int S = 2, T = 2, C = 3;
    struct State { int sources = 0; bool requested = false; std::vector<int> cbs; };    // cbs: registered, newest first

    struct Sys
    {
        std::optional<std::stop_source> s[S];
        std::optional<std::stop_token> t[T];
        struct Fn { Sys* sys; int id; void operator()() const { sys->called(id); } };
        std::optional<std::stop_callback<Fn>> c[C];
        // model
        int ms[S], mt[T];       // state index, -1: object without a state; -2: no object
        int mc_[C];             // state a callback is registered with; -1 not registered; -2 no object
        int action[C];          // what the callback does: 0 nothing, 1 destroys itself, 2 destroys the next one, 3 registers the next one if absent
        int ran[C];
        std::vector<State> st;
        std::vector<int> log, expect;
        bool in_request = false;

        Sys() { for (auto& x : ms) x = -2; for (auto& x : mt) x = -2; for (auto& x : mc_) x = -2; }

        void called(int id)
        {
            mc::heap::Untrack u;
            if (ran[id]++) mc::fail("callback %d runs twice", id);
            log.push_back(id);
            int a = action[id];
            if (a == 1) { mc::heap::Track k; c[id].reset(); mc_[id] = -2; }
            if (a == 2) { int n = (id + 1) % C; unregister(n); mc::heap::Track k; c[n].reset(); }
        }
        void unregister(int n)
        {
            if (mc_[n] >= 0)
            {
                auto& v = st[mc_[n]].cbs;
                v.erase(std::remove(v.begin(), v.end(), n), v.end());
            }
            mc_[n] = -2;
        }
        int sources_of(int k) { return st[k].sources; }
        int new_state() { st.push_back({}); return (int)st.size() - 1; }
        void set_source(int i, int k)
        {
            if (ms[i] >= 0) --st[ms[i]].sources;
            ms[i] = k;
            if (k >= 0) ++st[k].sources;
        }
    };

    void check(Sys& y)
    {
        for (int i = 0; i < S; ++i) if (y.s[i])
        {
            if (y.s[i]->stop_possible() != (y.ms[i] >= 0)) mc::fail("stop_source::stop_possible is wrong");
            if (y.s[i]->stop_requested() != (y.ms[i] >= 0 && y.st[y.ms[i]].requested)) mc::fail("stop_source::stop_requested is wrong");
            for (int j = 0; j < S; ++j) if (y.s[j] && (*y.s[i] == *y.s[j]) != (y.ms[i] == y.ms[j])) mc::fail("comparison of sources is wrong");
            for (int j = 0; j < S; ++j) if (y.s[j] && (*y.s[i] != *y.s[j]) == (y.ms[i] == y.ms[j])) mc::fail("comparison of sources is wrong");
        }
        for (int i = 0; i < T; ++i) if (y.t[i])
        {
            bool pos = y.mt[i] >= 0 && (y.st[y.mt[i]].requested || y.st[y.mt[i]].sources > 0);
            if (y.t[i]->stop_possible() != pos) mc::fail("stop_token::stop_possible is %d", !pos);
            if (y.t[i]->stop_requested() != (y.mt[i] >= 0 && y.st[y.mt[i]].requested)) mc::fail("stop_token::stop_requested is wrong");
            for (int j = 0; j < T; ++j) if (y.t[j] && (*y.t[i] == *y.t[j]) != (y.mt[i] == y.mt[j])) mc::fail("comparison of tokens is wrong");
        }
        std::set<int> used;
        for (int x : y.ms) if (x >= 0) used.insert(x);
        for (int x : y.mt) if (x >= 0) used.insert(x);
        for (int x : y.mc_) if (x >= 0) used.insert(x);
        if (mc::heap::count() != used.size()) mc::fail("%zu shared states are alive, %zu are in use", mc::heap::count(), used.size());
    }

    struct Op { const char* name; int a, b, c; };
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const int depth = mc::cfg().thorough ? 6 : 5;
    if (!mc::begin_scenario("histories of sources, tokens and callbacks")) return mc::finish();
    mc::Dfs d;
    d.run([&](mc::Dfs& ch)
    {
        auto y = std::make_unique<Sys>();
        Sys& w = *y;
        using mc::heap::Track;
        for (int step = 0; step < depth; ++step)
        {
            // enabled operations in this state
            std::vector<Op> ops;
            for (int i = 0; i < S; ++i)
            {
                if (!w.s[i]) { ops.push_back({ "new source", i, 0, 0 }); ops.push_back({ "source without a state", i, 0, 0 }); continue; }
                ops.push_back({ "request", i, 0, 0 });
                ops.push_back({ "destroy source", i, 0, 0 });
                int j = 1 - i;
                if (w.s[j]) { ops.push_back({ "assign source", i, j, 0 }); ops.push_back({ "move-assign source", i, j, 0 }); if (i == 0) ops.push_back({ "swap sources", i, j, 0 }); }
                else { ops.push_back({ "copy source", j, i, 0 }); ops.push_back({ "move source", j, i, 0 }); }
                if (step < 3) { ops.push_back({ "self-assign source", i, i, 0 }); }
                for (int k = 0; k < T; ++k) if (!w.t[k]) { ops.push_back({ "get token", k, i, 0 }); break; }
            }
            for (int i = 0; i < T; ++i)
            {
                if (!w.t[i]) continue;
                ops.push_back({ "destroy token", i, 0, 0 });
                int j = 1 - i;
                if (w.t[j]) { ops.push_back({ "assign token", i, j, 0 }); ops.push_back({ "move-assign token", i, j, 0 }); }
                else { ops.push_back({ "copy token", j, i, 0 }); ops.push_back({ "move token", j, i, 0 }); }
                for (int k = 0; k < C; ++k) if (!w.c[k])
                {
                    for (int a = 0; a < 3; ++a) ops.push_back({ "register", k, i, a });
                    ops.push_back({ "register with a moved token", k, i, 0 });
                    break;
                }
            }
            for (int k = 0; k < C; ++k) if (w.c[k]) ops.push_back({ "deregister", k, 0, 0 });
            Op op = ops[ch.choose((int)ops.size())];
            if (step == 2 && !ch.mine()) break;
            mc::trace("%s %d %d %d", op.name, op.a, op.b, op.c);
            std::string n = op.name;
            w.log.clear();
            std::vector<int> expect;
            if (n == "new source") { { Track t; w.s[op.a].emplace(); } w.set_source(op.a, w.new_state()); }
            else if (n == "source without a state") { { Track t; w.s[op.a].emplace(std::nostopstate); } w.ms[op.a] = -1; }
            else if (n == "request")
            {
                int k = w.ms[op.a];
                bool want = k >= 0 && !w.st[k].requested;
                std::vector<int> list;
                if (want)
                {
                    // The model of the notification: newest first; an action may remove others.
                    auto v = w.st[k].cbs;
                    std::vector<bool> gone(C, false);
                    while (!v.empty())
                    {
                        int id = v.front();
                        v.erase(v.begin());
                        expect.push_back(id);
                        if (w.action[id] == 2) v.erase(std::remove(v.begin(), v.end(), (id + 1) % C), v.end());
                    }
                    w.st[k].requested = true;
                }
                bool got;
                { Track t; got = w.s[op.a]->request_stop(); }
                if (got != want) mc::fail("request_stop() returns %d", got);
                if (want) w.st[k].cbs.clear();
            }
            else if (n == "destroy source") { { Track t; w.s[op.a].reset(); } w.set_source(op.a, -2); }
            else if (n == "assign source" || n == "self-assign source") { { Track t; *w.s[op.a] = *w.s[op.b]; } int k = w.ms[op.b]; if (op.a != op.b) w.set_source(op.a, k); }
            else if (n == "move-assign source") { { Track t; *w.s[op.a] = std::move(*w.s[op.b]); } int k = w.ms[op.b]; w.set_source(op.a, k); w.set_source(op.b, -1); }
            else if (n == "swap sources") { { Track t; w.s[op.a]->swap(*w.s[op.b]); } std::swap(w.ms[op.a], w.ms[op.b]); }
            else if (n == "copy source") { { Track t; w.s[op.a].emplace(*w.s[op.b]); } w.set_source(op.a, w.ms[op.b]); }
            else if (n == "move source") { { Track t; w.s[op.a].emplace(std::move(*w.s[op.b])); } w.set_source(op.a, w.ms[op.b]); w.set_source(op.b, -1); }
            else if (n == "get token") { { Track t; w.t[op.a].emplace(w.s[op.b]->get_token()); } w.mt[op.a] = w.ms[op.b]; }
            else if (n == "destroy token") { { Track t; w.t[op.a].reset(); } w.mt[op.a] = -2; }
            else if (n == "assign token") { { Track t; *w.t[op.a] = *w.t[op.b]; } w.mt[op.a] = w.mt[op.b]; }
            else if (n == "move-assign token") { { Track t; *w.t[op.a] = std::move(*w.t[op.b]); } w.mt[op.a] = w.mt[op.b]; w.mt[op.b] = -1; }
            else if (n == "copy token") { { Track t; w.t[op.a].emplace(*w.t[op.b]); } w.mt[op.a] = w.mt[op.b]; }
            else if (n == "move token") { { Track t; w.t[op.a].emplace(std::move(*w.t[op.b])); } w.mt[op.a] = w.mt[op.b]; w.mt[op.b] = -1; }
            else if (n == "register" || n == "register with a moved token")
            {
                int id = op.a, k = w.mt[op.b];
                bool moved = n != "register";
                w.ran[id] = 0;
                bool now = k >= 0 && w.st[k].requested;
                bool reg = k >= 0 && !now && w.st[k].sources > 0;
                w.action[id] = now ? 0 : op.c;
                if (now) expect.push_back(id);
                w.mc_[id] = reg ? k : -1;
                {
                    Track t;
                    if (moved) w.c[id].emplace(std::move(*w.t[op.b]), Sys::Fn { &w, id });
                    else w.c[id].emplace(*w.t[op.b], Sys::Fn { &w, id });
                }
                if (reg) { w.st[k].cbs.insert(w.st[k].cbs.begin(), id); if (moved) w.mt[op.b] = -1; }
            }
            else { { Track t; w.c[op.a].reset(); } w.unregister(op.a); }
            // The order in which callbacks run is unspecified.
            auto got = w.log;
            std::sort(got.begin(), got.end());
            std::sort(expect.begin(), expect.end());
            if (got != expect) mc::fail("%zu callbacks ran, %zu were expected", got.size(), expect.size());
            check(w);
        }
        for (int i = 0; i < C; ++i) { Track t; w.c[i].reset(); }
        for (int i = 0; i < S; ++i) { Track t; w.s[i].reset(); }
        for (int i = 0; i < T; ++i) { Track t; w.t[i].reset(); }
        if (mc::heap::count()) mc::fail("a shared state is leaked");
        if (mc::cnt("executions") % 100003 == 5) mc::sample_trace();
    });
    return mc::finish();
}
