// J02: condition_variable_any2 (the C++17 replacement of condition_variable_any) under every interleaving.
#include "jthread_inc.hpp"
#include <optional>
#include <functional>

namespace
{
    using CV = std::condition_variable_any2;
    using namespace std::chrono_literals;

    // A lockable that knows its owner.
    struct Lock
    {
        std::mutex m;
        int owner = -1;
        void lock() { m.lock(); sched::Quiet q; owner = sched::self(); }
        void unlock()
        {
            { sched::Quiet q; if (owner != sched::self()) mc::fail("the wait unlocks a lock that the caller does not hold"); owner = -1; }
            m.unlock();
        }
        void held(const char* where) { sched::Quiet q; if (owner != sched::self()) mc::fail("the lock is not held %s", where); }
    };

    struct Shared
    {
        Lock l;
        std::optional<CV> cv { std::in_place };
        int ready = 0;          // guarded by l
        int other = 0;
    };

    int log_[8];
    void start() { sched::Quiet q; memset(log_, 0, sizeof log_); }
    void put(int i, int v) { sched::Quiet q; log_[i] = v; }
    int got(int i) { sched::Quiet q; return log_[i]; }
    void after()
    {
        std::string s = mc::g_scenario;
        for (int v : log_) s += " " + std::to_string(v);
        mc::outcome(s);
    }
    auto pred(Shared& s) { return [&s] { s.l.held("when the predicate is evaluated"); return s.ready > 0; }; }

    enum Kind { Plain, Timed, TimedFor };
    // Waits with a token; checks the lock, the result and the time; returns the result.
    bool wait(Shared& s, CV& cv, Kind k, std::stop_token t, std::chrono::nanoseconds d, bool take = true)
    {
        s.l.lock();
        long start = sched::now_ns();
        bool r = false;
        if (k == Plain) r = cv.wait(s.l, t, pred(s));
        else if (k == Timed) r = cv.wait_until(s.l, t, std::chrono::steady_clock::now() + d, pred(s));
        else r = cv.wait_for(s.l, t, d, pred(s));
        s.l.held("after the wait");
        long t1 = sched::now_ns();
        if (r != (s.ready > 0)) mc::fail("the result of the wait is %d, the predicate is %d", (int)r, s.ready > 0);
        if (!r && !t.stop_requested() && (k == Plain || t1 - start < d.count())) mc::fail("the wait ends without notification, stop or timeout");
        if (r && take) --s.ready;
        s.l.unlock();
        return r;
    }
    void notify(Shared& s, bool all, int n = 1, bool inside = false)
    {
        s.l.lock();
        s.ready += n;
        if (inside) { if (all) s.cv->notify_all(); else s.cv->notify_one(); }
        s.l.unlock();
        if (!inside) { if (all) s.cv->notify_all(); else s.cv->notify_one(); }
    }
    const std::chrono::nanoseconds hour = 3600s;
    // Timers of an hour expire only when nothing else can happen (early_timeouts == false).
    void in_time(const char* what) { if (sched::now_ns() > 1800L * 1000000000 + 0) mc::fail("%s is missed: the wait goes on until its timeout", what); }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    sched::Options o;
    o.preemptions = th ? 5 : 3;
    o.spurious = 1;
    o.early_timeouts = false;
    sched::Options o3 = o;
    o3.preemptions = th ? 2 : 1;
    sched::Options early = o;
    early.early_timeouts = true;
    early.preemptions = th ? 3 : 2;

    for (bool inside : { false, true })
        sched::explore(std::string("plain wait") + (inside ? ", notified under the lock" : ""), [inside]
        {
            start();
            {
                Shared s;
                std::thread t([&] { notify(s, false, 1, inside); });
                s.l.lock();
                while (!s.ready) { s.cv->wait(s.l); s.l.held("after the wait"); }
                s.l.unlock();
                t.join();
            }
        }, after, o);

    for (int n : { 0, 1, 2 })
        sched::explore(std::string("wait with a predicate, ") + (n == 0 ? "no" : n == 1 ? "one notification for" : "two notifications for") + " two waiters", [n]
        {
            start();
            {
                Shared s;
                auto w = [&] { s.l.lock(); s.cv->wait(s.l, pred(s)); s.l.held("after the wait"); if (s.ready <= 0) mc::fail("the wait ends although the predicate is false"); --s.ready; s.l.unlock(); };
                std::thread t(w), u(w);
                if (n == 0) notify(s, true, 2);
                else if (n == 1) { notify(s, false); notify(s, true); }
                else { notify(s, false); notify(s, false); }
                t.join(); u.join();
            }
        }, after, o3);

    for (Kind k : { Plain, Timed, TimedFor })
    {
        std::string name = k == Plain ? "wait" : k == Timed ? "wait_until" : "wait_for";
        sched::explore(name + " against stop", [k]
        {
            start();
            {
                Shared s;
                std::stop_source src;
                std::thread t([src]() mutable { src.request_stop(); });
                bool r = wait(s, *s.cv, k, src.get_token(), hour);
                if (r) mc::fail("result");
                in_time("a stop request");
                t.join();
            }
        }, after, o);
        sched::explore(name + " against stop and notification", [k]
        {
            start();
            {
                Shared s;
                std::stop_source src;
                std::thread t([src]() mutable { src.request_stop(); });
                std::thread u([&] { notify(s, false); });
                put(0, wait(s, *s.cv, k, src.get_token(), hour));
                in_time("a stop request or a notification");
                t.join();
                u.join();
            }
        }, after, o3);
        sched::explore(name + " against notification", [k]
        {
            start();
            {
                Shared s;
                std::stop_source src;
                std::thread u([&] { notify(s, false); });
                if (!wait(s, *s.cv, k, src.get_token(), hour)) mc::fail("the wait ends without the notification");
                in_time("a notification");
                u.join();
            }
        }, after, o);
        sched::explore(name + ", two waiters, one of them is stopped", [k]
        {
            start();
            {
                Shared s;
                std::stop_source src, other;
                std::thread t([&] { put(0, wait(s, *s.cv, k, src.get_token(), hour)); in_time("a stop request"); });
                std::thread u([&] { put(1, wait(s, *s.cv, k, other.get_token(), hour)); in_time("a notification"); });
                src.request_stop();
                notify(s, true, 1);
                // Whoever takes it: the stopped waiter may, then the other one is still waiting.
                t.join();
                if (got(0)) notify(s, true, 1);
                u.join();
                if (!got(1)) mc::fail("the waiter that was not stopped gives up");
            }
        }, after, o3);
        sched::explore(name + " when stop has been requested before", [k]
        {
            start();
            {
                Shared s;
                std::stop_source src;
                src.request_stop();
                std::thread u([&] { notify(s, false); });
                put(0, wait(s, *s.cv, k, src.get_token(), hour));
                in_time("a stop request");
                u.join();
            }
        }, after, o);
        sched::explore(name + " with a token that cannot be stopped", [k]
        {
            start();
            {
                Shared s;
                std::thread u([&] { notify(s, true); });
                if (!wait(s, *s.cv, k, std::stop_token(), hour)) mc::fail("result");
                in_time("a notification");
                u.join();
            }
        }, after, o);
        sched::explore(name + ", two threads request stop, two waiters", [k]
        {
            start();
            {
                Shared s;
                std::stop_source src;
                std::thread t([&] { if (wait(s, *s.cv, k, src.get_token(), hour)) mc::fail("result"); in_time("a stop request"); });
                std::thread u([src]() mutable { src.request_stop(); });
                if (wait(s, *s.cv, k, src.get_token(), hour)) mc::fail("result");
                in_time("a stop request");
                t.join(); u.join();
            }
        }, after, o3);
        sched::explore(name + ", the stop request comes from under the lock", [k]
        {
            start();
            {
                Shared s;
                std::stop_source src;
                std::thread u([&] { s.l.lock(); src.request_stop(); s.other = 1; s.l.unlock(); });
                if (wait(s, *s.cv, k, src.get_token(), hour)) mc::fail("result");
                in_time("a stop request");
                u.join();
            }
        }, after, o);
        sched::explore(name + " in a thread that is stopped and joined by the owner", [k]
        {
            start();
            {
                Shared s;
                std::jthread t([&](std::stop_token tok) { while (wait(s, *s.cv, k, tok, hour)) ; in_time("a stop request"); });
                notify(s, false);
            }
        }, after, o);
    }

    for (Kind k : { Timed, TimedFor })
    {
        std::string name = k == Timed ? "wait_until" : "wait_for";
        sched::explore(name + ", short timeout, stop and notification", [k]
        {
            start();
            {
                Shared s;
                std::stop_source src;
                std::thread t([src]() mutable { src.request_stop(); });
                std::thread u([&] { notify(s, false); });
                put(0, wait(s, *s.cv, k, src.get_token(), 5ms));
                t.join(); u.join();
            }
        }, after, early);
        sched::explore(name + ", nothing happens", [k]
        {
            start();
            {
                Shared s;
                std::stop_source src;
                if (wait(s, *s.cv, k, src.get_token(), 5ms)) mc::fail("result");
                if (sched::now_ns() < 5000000) mc::fail("the wait ends before its timeout");
            }
        }, after, early);
    }
    for (int k = 0; k < 4; ++k)
        sched::explore("timed wait without a token, " + std::to_string(k), [k]
        {
            start();
            {
                Shared s;
                std::thread u([&] { notify(s, false); });
                s.l.lock();
                auto until = std::chrono::steady_clock::now() + 5ms;
                if (k < 2)
                {
                    bool r = k == 0 ? s.cv->wait_until(s.l, until, pred(s)) : s.cv->wait_for(s.l, 5ms, pred(s));
                    s.l.held("after the wait");
                    if (r != (s.ready > 0)) mc::fail("the result of the wait is %d, the predicate is %d", (int)r, s.ready > 0);
                    if (!r && std::chrono::steady_clock::now() < until) mc::fail("the wait gives up before its timeout");
                }
                else
                {
                    while (!s.ready)
                    {
                        auto r = k == 2 ? s.cv->wait_until(s.l, until) : s.cv->wait_for(s.l, until - std::chrono::steady_clock::now());
                        s.l.held("after the wait");
                        if (r == std::cv_status::timeout && std::chrono::steady_clock::now() < until) mc::fail("timeout reported before it is due");
                        if (r == std::cv_status::timeout) { put(0, 1); break; }
                    }
                }
                s.l.unlock();
                u.join();
            }
        }, after, early);

    sched::explore("the condition variable is destroyed after the notification, before the waiters return", []
    {
        start();
        {
            Shared s;
            auto w = [&] { s.l.lock(); CV& cv = *s.cv; put(4, got(4) + 1); cv.wait(s.l); s.l.held("after the wait"); s.l.unlock(); };
            std::thread t(w);
            // Wait until t is inside the wait: it holds the lock from its registration on.
            for (;;) { s.l.lock(); bool in = got(4) == 1; if (in) break; s.l.unlock(); sched::yield(); }
            s.cv->notify_all();
            s.cv.reset();
            s.l.unlock();
            t.join();
        }
    }, after, [&] { auto x = o; x.spurious = 0; return x; }());

    sched::explore("two waiters, notify_one under the lock wakes exactly one", []
    {
        start();
        {
            Shared s;
            auto w = [&] { s.l.lock(); put(4, got(4) + 1); s.cv->wait(s.l); put(5, got(5) + 1); s.l.unlock(); };
            std::thread t(w), u(w);
            for (;;) { s.l.lock(); if (got(4) == 2) break; s.l.unlock(); sched::yield(); }
            s.cv->notify_one();
            s.l.unlock();
            for (;;) { s.l.lock(); int n = got(5); if (n >= 1) { if (n == 1) s.cv->notify_one(); s.l.unlock(); break; } s.l.unlock(); sched::yield(); }
            t.join(); u.join();
        }
    }, after, [&] { auto x = o3; x.spurious = 0; return x; }());

    sched::explore("a predicate that throws", []
    {
        start();
        {
            Shared s;
            std::stop_source src;
            std::thread t([&] { src.request_stop(); });
            for (int k = 0; k < 3; ++k)
            {
                s.l.lock();
                int n = 0;
                auto p = [&] { s.l.held("when the predicate is evaluated"); if (++n == 1) throw 7; return true; };
                try
                {
                    if (k == 0) s.cv->wait(s.l, src.get_token(), p);
                    else if (k == 1) s.cv->wait_for(s.l, src.get_token(), 5ms, p);
                    else s.cv->wait(s.l, p);
                    mc::fail("the exception is lost");
                }
                catch (int) {}
                s.l.held("after an exception of the predicate");
                s.l.unlock();
            }
            t.join();
        }
    }, after, o);

    return mc::finish();
}
