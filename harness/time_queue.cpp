// G03: the time queue of the test library under a virtual clock: every set of timers, registered in every order and also
// from resumed coroutines.
#include "heap.hpp"
#include "coro.hpp"
#include <thread>
#include <sys/time.h>

namespace clk
{
    inline long long now = 1000;      // ns
    inline long long last = 0;        // what the last reading returned
    inline int free_choices = 0, reads = 0;
    inline mc::Dfs* dfs = nullptr;
    inline int pick(int n) { mc::heap::Untrack u; return dfs->choose(n); }
}

namespace std::chrono::_V2
{
    steady_clock::time_point steady_clock::now() noexcept
    {
        if (clk::dfs)
        {
            if (++clk::reads > 2000) mc::fail("the loop does not end");
            // Time passes between any two readings, or not; once the choices are used up it always does.
            if (clk::free_choices > 0) { --clk::free_choices; clk::now += clk::pick(2); } else clk::now += 1;
        }
        clk::last = clk::now;
        return time_point(duration(clk::now));
    }
}

extern "C" int nanosleep(const timespec* req, timespec*)
{
    long long d = req->tv_sec * 1000000000ll + req->tv_nsec;
    if (d > 0) clk::now += d;
    if (clk::dfs && clk::free_choices > 0) { --clk::free_choices; clk::now += clk::pick(2); }
    mc::trace("sleeps until %lld", clk::now - 1000);
    return 0;
}
extern "C" int clock_nanosleep(clockid_t, int flags, const timespec* req, timespec*)
{
    long long d = req->tv_sec * 1000000000ll + req->tv_nsec;
    if (flags & TIMER_ABSTIME) clk::now = std::max(clk::now, d); else if (d > 0) clk::now += d;
    return 0;
}

#include "Awl/Testing/TimeQueue.h"

using namespace cor;

namespace
{
    struct Pending { int id; long long due; };
    std::vector<Pending> g_pending;

    struct Timer
    {
        awl::testing::TimeAwaitable in;
        int id; long long d;
        bool waiting = false;
        Timer(awl::testing::TimeQueue& q, int i, int dd) : in(q, std::chrono::nanoseconds(dd)), id(i), d(dd) {}
        bool await_ready()
        {
            bool r = in.await_ready();
            if (r != (d <= 0)) mc::fail("a timeout of %lld is %s", d, r ? "over at once" : "waited for");
            return r;
        }
        void await_suspend(std::coroutine_handle<> h)
        {
            in.await_suspend(h);
            mc::heap::Untrack u;
            waiting = true;
            g_pending.push_back({ id, clk::last + d });
            mc::trace("%d sleeps at %lld until %lld", id, clk::last - 1000, clk::last + d - 1000);
        }
        void await_resume()
        {
            if (waiting)
            {
                size_t me = g_pending.size();
                for (size_t i = 0; i < g_pending.size(); ++i) if (g_pending[i].id == id) me = i;
                if (me == g_pending.size()) mc::fail("coroutine %d was resumed twice", id);
                mc::trace("%d wakes at %lld", id, clk::now - 1000);
                if (clk::now < g_pending[me].due) mc::fail("coroutine %d was resumed at %lld, due at %lld", id, clk::now, g_pending[me].due);
                for (auto& p : g_pending) if (p.due < g_pending[me].due) mc::fail("coroutine %d, due at %lld, was resumed before coroutine %d, due at %lld", id, g_pending[me].due - 1000, p.id, p.due - 1000);
                g_pending.erase(g_pending.begin() + me);
                mc::cnt("resumptions") += 1; mc::cnt("transitions") += 1;
            }
            in.await_resume();
        }
    };

    Job sleeper(awl::testing::TimeQueue& q, int id, std::vector<int> ds, int* done, std::vector<Job>* jobs, std::vector<int> spawn)
    {
        Val local(1);
        for (int d : ds) { Timer t(q, id, d); co_await t; local.get(); }
        if (!spawn.empty()) jobs->push_back(sleeper(q, id + 10, spawn, done, jobs, {}));
        ++*done;
    }

    void explore(int n, const std::vector<std::vector<int>>& scripts, bool spawning, int free_choices)
    {
        mc::Dfs d;
        d.run([&](mc::Dfs& d)
        {
            clk::dfs = nullptr;
            clk::now = 1000; clk::reads = 0;
            g_pending.clear();
            std::vector<std::vector<int>> s(n);
            for (auto& x : s) x = scripts[d.choose((int)scripts.size())];
            if (!d.mine()) return;
            int spawn = spawning ? d.choose(4) : 0;
            int done = 0, want = n + (spawn ? 1 : 0);
            std::string t;
            for (auto& x : s) { t += "["; for (int v : x) t += std::to_string(v) + " "; t += "] "; }
            mc::trace("%d timers: %s%s", n, t.c_str(), spawn ? "; the first starts another one" : "");
            clk::free_choices = free_choices;
            clk::dfs = &d;
            {
                mc::heap::Track tr;
                std::vector<Job> jobs;
                jobs.reserve(8);
                awl::testing::TimeQueue q;
                for (int i = 0; i < n; ++i) jobs.push_back(sleeper(q, i, s[i], &done, &jobs, i == 0 && spawn ? std::vector<int>{ spawn - 1 } : std::vector<int>{}));
                q.loop();
                if (!g_pending.empty()) mc::fail("the loop ended while coroutine %d was sleeping", g_pending[0].id);
                if (done != want) mc::fail("%d of %d coroutines ended", done, want);
                q.loop();   // nothing is left
            }
            if (mc::heap::count() || g_live) mc::fail("%zu allocations, %ld values leaked", mc::heap::count(), g_live);
            clk::dfs = nullptr;
            mc::cnt("executions") += 1;
            mc::sample_trace();
        });
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    g_pending.reserve(16);
    for (const char* c : { "resumptions", "executions", "states", "transitions" }) mc::cnt(c);
    const std::vector<std::vector<int>> one{ { 0 }, { 1 }, { 2 }, { 3 }, { 7 }, { -1 } };
    const std::vector<std::vector<int>> two{ { 1 }, { 2 }, { 4 }, { 1, 1 }, { 1, 3 }, { 3, 1 }, { 2, 2 }, { 0, 2 } };
    const int fc = th ? 8 : 4;
    for (int n = 0; n <= 4; ++n) if (mc::begin_scenario("timers of one sleep: " + std::to_string(n))) explore(n, one, false, n == 4 && !th ? 2 : fc);
    for (int n = 1; n <= (th ? 4 : 3); ++n) if (mc::begin_scenario("timers of several sleeps: " + std::to_string(n))) explore(n, two, false, n == 4 ? 4 : fc);
    for (int n = 1; n <= 3; ++n) if (mc::begin_scenario("timers started from resumed coroutines: " + std::to_string(n))) explore(n, two, true, n == 3 ? 3 : fc);
    if (th && mc::begin_scenario("five timers")) explore(5, { { 1 }, { 2 }, { 3 }, { 1, 2 }, { 3, 1 } }, false, 3);
    return mc::finish();
}
