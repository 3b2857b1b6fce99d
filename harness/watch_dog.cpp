// T02: awl::watch_dog under every interleaving; built with the standard stop_token and with the C++17 replacement.
#ifdef AWL_JTHREAD_EXTRAS
#include "jthread_inc.hpp"
#else
#include "sched.hpp"
#include "mc.hpp"
#include <stop_token>
#endif
#include "Awl/WatchDog.h"
#include <functional>
#include <optional>

namespace
{
    using namespace std::chrono_literals;
    int logs;
    long logged_at;
    bool gone, stopping;
    void start() { sched::Quiet q; logs = 0; logged_at = -1; gone = stopping = false; }
    void after() { mc::outcome(std::string(mc::g_scenario) + std::to_string(logs)); }
    // data: owned by the user of the watchdog, who may free it when the watchdog is gone
    std::function<void()> log_to(int* data = nullptr)
    {
        return [data]
        {
            { sched::Quiet q; if (gone) mc::fail("the watchdog logs after it has been destroyed"); ++logs; logged_at = sched::now_ns(); }
            if (data) ++*data;
        };
    }
    int nlogs() { sched::Quiet q; return logs; }
    void destroyed() { sched::Quiet q; gone = true; }
    void at_most_after(long ns)
    {
        sched::Quiet q;
        if (logs > 1) mc::fail("a stall is logged %d times", logs);
        if (logs && logged_at < ns) mc::fail("a stall is logged %ld ns before the timeout", ns - logged_at);
    }
    void wait_stop(std::stop_token t) { while (!t.stop_requested()) sched::yield(); }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    sched::Options o;
    o.preemptions = th ? 3 : 2;
    o.spurious = 1;
    o.early_timeouts = false;
    sched::Options early = o;
    early.early_timeouts = true;
    early.preemptions = th ? 3 : 2;

    sched::explore("destroyed before the timeout", []
    {
        start();
        {
            std::stop_source s;
            { awl::watch_dog w(s.get_token(), 3600s, log_to()); if (w.get_token().stop_requested()) mc::fail("stopped without a reason"); }
            destroyed();
            if (nlogs()) mc::fail("a stall is logged, but the timeout has not elapsed");
            if (sched::now_ns() > 1000L * 1000000000) mc::fail("destruction waits for the timeout");
        }
    }, after, o);

    sched::explore("destroyed about the timeout", []
    {
        start();
        {
            std::stop_source s;
            int* data = new int(0);
            { awl::watch_dog w(s.get_token(), 5ms, log_to(data)); }
            destroyed();
            at_most_after(5000000);
            if (*data != nlogs()) mc::fail("the effect of logging is not visible after destruction");
            delete data;
        }
    }, after, early);

    sched::explore("the timeout elapses", []
    {
        start();
        {
            std::stop_source s;
            {
                awl::watch_dog w(s.get_token(), 5ms, log_to());
                auto t = w.get_token();
                while (!t.stop_requested()) std::this_thread::sleep_for(1ms);
                if (nlogs() != 1) mc::fail("the watchdog stops the test without logging");
                at_most_after(5000000);
                if (sched::now_ns() < 5000000) mc::fail("the test is stopped before the timeout");
                if (s.stop_requested()) mc::fail("the watchdog stops its parent");
            }
            destroyed();
            at_most_after(5000000);
        }
    }, after, o);

    sched::explore("the parent is stopped", []
    {
        start();
        {
            std::stop_source s;
            std::thread t([s]() mutable { s.request_stop(); });
            {
                awl::watch_dog w(s.get_token(), 3600s, log_to());
                wait_stop(w.get_token());
                if (!s.stop_requested()) mc::fail("stopped without a reason");
                if (nlogs()) mc::fail("a stall is logged, but the timeout has not elapsed");
            }
            destroyed();
            if (nlogs()) mc::fail("a stall is logged, but the timeout has not elapsed");
            if (sched::now_ns() > 1000L * 1000000000) mc::fail("cancellation waits for the timeout");
            t.join();
        }
    }, after, o);

    sched::explore("the parent is stopped about the destruction and the timeout", []
    {
        start();
        {
            std::stop_source s;
            std::thread t([s]() mutable { s.request_stop(); });
            { awl::watch_dog w(s.get_token(), 5ms, log_to()); }
            destroyed();
            at_most_after(5000000);
            t.join();
        }
    }, after, [&] { auto x = early; x.preemptions = th ? 2 : 1; return x; }());

    sched::explore("the parent has been stopped before", []
    {
        start();
        {
            std::stop_source s;
            s.request_stop();
            { awl::watch_dog w(s.get_token(), 3600s, log_to()); if (!w.get_token().stop_requested()) mc::fail("the stop request of the parent is missed"); }
            destroyed();
            if (nlogs()) mc::fail("a stall is logged, but the timeout has not elapsed");
        }
    }, after, o);

    sched::explore("the watched activity ends by itself and its token outlives the watchdog", []
    {
        start();
        {
            std::stop_source s;
            std::stop_token k;
            int n = 0;
            {
                awl::watch_dog w(s.get_token(), 5ms, log_to());
                k = w.get_token();
                std::stop_callback<std::function<void()>> cb(k, [&n] { ++n; });
                sched::point();
            }
            destroyed();
            at_most_after(5000000);
            (void)k.stop_requested();
            if (n > 1) mc::fail("stopped twice");
            if (nlogs() && !k.stop_requested()) mc::fail("a logged stall does not stop the activity");
        }
    }, after, early);

    sched::explore("two watchdogs of one parent", []
    {
        start();
        {
            std::stop_source s;
            {
                awl::watch_dog w(s.get_token(), 3600s, log_to());
                awl::watch_dog v(s.get_token(), 3600s, log_to());
                s.request_stop();
                if (!w.get_token().stop_requested() || !v.get_token().stop_requested()) mc::fail("the stop request of the parent is missed");
            }
            destroyed();
            if (nlogs()) mc::fail("a stall is logged, but the timeout has not elapsed");
        }
    }, after, [&] { auto x = o; x.preemptions = th ? 2 : 1; return x; }());

    return mc::finish();
}
