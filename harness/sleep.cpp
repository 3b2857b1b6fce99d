// T01: awl::sleep_for under every interleaving; built with the standard stop_token and with the C++17 replacement.
#ifdef AWL_JTHREAD_EXTRAS
#include "jthread_inc.hpp"
#else
#include "sched.hpp"
#include "mc.hpp"
#include <stop_token>
#endif
#include "Awl/Sleep.h"
#include <functional>
#include <optional>

namespace
{
    using namespace std::chrono_literals;
    const auto hour = std::chrono::hours(1);
    long ends[4];
    void start() { sched::Quiet q; memset(ends, 0, sizeof ends); }
    void after()
    {
        std::string s = mc::g_scenario;
        for (long t : ends) s += " " + std::to_string(t);
        mc::outcome(s);
    }
    // Sleeps and checks when it returns.  Timers expire only when nothing else can happen unless early_timeouts is set.
    template <class D>
    void sleep(int i, D d, std::stop_token t)
    {
        long ns = std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
        long t0 = sched::now_ns();
        awl::sleep_for(d, t);
        long t1 = sched::now_ns();
        bool r = t.stop_requested();
        sched::Quiet q;
        ends[i] = t1 + 1;
        if (!r && t1 - t0 < ns) mc::fail("the sleep of %ld ns ends after %ld ns and stop is not requested", ns, t1 - t0);
    }
    void prompt(int i) { sched::Quiet q; if (ends[i] > 1000000000L * 1000) mc::fail("the stop request is missed: the sleep goes on until its timeout"); }
    void full(int i, long ns) { sched::Quiet q; if (ends[i] < ns) mc::fail("the sleep ends too early"); }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    sched::Options o;
    o.preemptions = th ? 6 : 4;
    o.spurious = th ? 2 : 1;
    o.early_timeouts = false;
    sched::Options o3 = o;
    o3.preemptions = th ? 2 : 1;
    sched::Options early = o;
    early.early_timeouts = true;
    early.preemptions = th ? 6 : 4;

    sched::explore("stop before, at the beginning of, or during the sleep", []
    {
        start();
        {
            std::stop_source s;
            std::thread t([s]() mutable { s.request_stop(); });
            sleep(0, hour, s.get_token());
            prompt(0);
            t.join();
        }
    }, after, o);

    sched::explore("stop against a short timeout", []
    {
        start();
        {
            std::stop_source s;
            std::thread t([s]() mutable { s.request_stop(); });
            sleep(0, 5ms, s.get_token());
            t.join();
        }
    }, after, early);

    sched::explore("nobody stops", []
    {
        start();
        {
            std::stop_source s;
            sleep(0, 5ms, s.get_token());
            full(0, 5000000);
            sleep(1, std::chrono::duration<double>(0.25), s.get_token());
            full(1, 255000000);
            sleep(2, hour, std::stop_token());
            full(2, 3600L * 1000000000);
        }
    }, after, early);

    sched::explore("stopped before", []
    {
        start();
        {
            std::stop_source s;
            s.request_stop();
            sleep(0, hour, s.get_token());
            prompt(0);
        }
    }, after, o);

    sched::explore("zero and negative durations", []
    {
        start();
        {
            std::stop_source s;
            std::thread t([s]() mutable { s.request_stop(); });
            sleep(0, 0ms, s.get_token());
            prompt(0);
            sleep(1, -5ms, s.get_token());
            prompt(1);
            t.join();
        }
    }, after, early);

    sched::explore("two sleepers, one source", []
    {
        start();
        {
            std::stop_source s;
            std::thread t([&] { sleep(0, hour, s.get_token()); prompt(0); });
            std::thread u([s]() mutable { s.request_stop(); });
            sleep(1, hour, s.get_token());
            prompt(1);
            t.join(); u.join();
        }
    }, after, o3);

    sched::explore("two requests", []
    {
        start();
        {
            std::stop_source s;
            std::thread t([s]() mutable { s.request_stop(); });
            std::thread u([s]() mutable { s.request_stop(); });
            sleep(0, hour, s.get_token());
            prompt(0);
            t.join(); u.join();
        }
    }, after, o3);

    sched::explore("a sleeping jthread is destroyed", []
    {
        start();
        {
            std::jthread t([](std::stop_token k) { sleep(0, hour, k); prompt(0); sleep(1, hour, k); prompt(1); });
        }
    }, after, o);

    sched::explore("another callback of the same source, also after the sleep", []
    {
        start();
        {
            std::stop_source s;
            int n = 0;
            std::stop_callback<std::function<void()>> cb(s.get_token(), [&] { ++n; });
            std::thread t([s]() mutable { s.request_stop(); });
            sleep(0, 5ms, s.get_token());
            t.join();
            if (n != 1) mc::fail("the other callback ran %d times", n);
        }
    }, after, early);

    sched::explore("the only source is destroyed during the sleep", []
    {
        start();
        {
            std::optional<std::stop_source> s;
            s.emplace();
            std::stop_token k = s->get_token();
            std::thread t([&] { s.reset(); });
            sleep(0, 5ms, k);
            t.join();
            full(0, 5000000);
        }
    }, after, early);

    return mc::finish();
}
