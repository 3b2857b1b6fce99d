// J01, concurrent part: stop_source, stop_token and stop_callback under every interleaving.
#include "jthread_inc.hpp"
#include <optional>

namespace
{
    // Harness bookkeeping: plain memory, hidden from the race detector by Quiet.
    struct Cb
    {
        int started, finished, runner;
        bool destroyed;
        int when_destroyed_running;
    };
    Cb cbs[8];
    int results[8];
    int nres;

    void reset() { sched::Quiet q; memset(cbs, 0, sizeof cbs); nres = 0; }
    void begin(int i)
    {
        sched::Quiet q;
        Cb& c = cbs[i];
        if (c.destroyed) mc::fail("callback %d runs after its deregistration has returned", i);
        if (c.started++) mc::fail("callback %d runs twice", i);
        c.runner = sched::self();
    }
    void end(int i) { sched::Quiet q; cbs[i].finished++; if (cbs[i].destroyed) mc::fail("deregistration of callback %d returned while it was running in another thread", i); }

    // touch: data owned by the callback; freed by the owner after deregistration
    struct Fn
    {
        int id;
        int* touch;
        std::function<void()> extra;
        void operator()() const
        {
            begin(id);
            if (touch) ++*touch;
            sched::point();
            if (extra) extra();
            if (id < 8 && !gone(id)) { if (touch) ++*touch; }
            end(id);
        }
        static bool gone(int) { return false; }
    };
    // Callbacks live on the heap, so that whoever touches one after its destruction is found.
    template <class C> struct Box
    {
        std::unique_ptr<C> p;
        Box() = default;
        template <class... A> Box(A&&... a) : p(new C(std::forward<A>(a)...)) {}
        template <class... A> void emplace(A&&... a) { p.reset(new C(std::forward<A>(a)...)); }
        void reset() { delete p.release(); }
        explicit operator bool() const { return bool(p); }
    };
    using Callback = Box<std::stop_callback<Fn>>;

    void deregistered(int i, bool inside = false)
    {
        sched::Quiet q;
        if (!inside) cbs[i].destroyed = true;
        if (!inside && cbs[i].started != cbs[i].finished) mc::fail("deregistration of callback %d returned while it was running in another thread", i);
    }
    void request(std::stop_source& s)
    {
        bool r = s.request_stop();
        if (!s.stop_requested()) mc::fail("stop_requested() is false after request_stop()");
        sched::Quiet q;
        results[nres++] = r;
    }
    void one_winner()
    {
        sched::Quiet q;
        int n = 0;
        for (int i = 0; i < nres; ++i) n += results[i];
        if (n != 1) mc::fail("%d of %d stop requests succeeded", n, nres);
    }
    void ran(int i, int n) { sched::Quiet q; if (cbs[i].started != n || cbs[i].finished != n) mc::fail("callback %d ran %d times instead of %d", i, cbs[i].started, n); }
    void after()
    {
        std::string s = mc::g_scenario;
        for (int i = 0; i < 4; ++i) s += "/" + std::to_string(cbs[i].started) + ":" + std::to_string(cbs[i].runner);
        for (int i = 0; i < nres; ++i) s += results[i] ? "T" : "F";
        mc::outcome(s);
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    sched::Options o;
    o.preemptions = th ? 4 : 3;
    sched::Options o3 = o;         // three threads
    o3.preemptions = th ? 3 : 2;

    sched::explore("two requesters, two callbacks", []
    {
        reset();
        {
            std::stop_source s;
            Callback a(s.get_token(), Fn { 0 }), b(s.get_token(), Fn { 1 });
            std::thread t([s]() mutable { request(s); });
            request(s);
            if (!s.get_token().stop_requested()) mc::fail("stop_requested() is false after request_stop()");
            t.join();
            one_winner();
            ran(0, 1); ran(1, 1);
        }
    }, after, o);

    sched::explore("three requesters", []
    {
        reset();
        {
            std::stop_source s;
            Callback a(s.get_token(), Fn { 0 });
            std::thread t([s]() mutable { request(s); });
            std::thread u([s]() mutable { request(s); });
            request(s);
            t.join(); u.join();
            one_winner();
            ran(0, 1);
        }
    }, after, o3);

    sched::explore("registration against a request", []
    {
        reset();
        {
            std::stop_source s;
            std::thread t([s]() mutable { request(s); });
            {
                Callback a(s.get_token(), Fn { 0 });
                Callback b(s.get_token(), Fn { 1 });
                t.join();
                ran(0, 1); ran(1, 1);
                one_winner();
            }
        }
    }, after, o);

    sched::explore("two registering threads against a request", []
    {
        reset();
        {
            std::stop_source s;
            auto reg = [&s](int id)
            {
                int* data = new int(0);
                {
                    Callback a(s.get_token(), Fn { id, data });
                    sched::point();
                }
                deregistered(id);
                delete data;
            };
            std::thread t([&] { reg(0); });
            std::thread u([&] { reg(1); });
            request(s);
            t.join(); u.join();
            one_winner();
        }
    }, after, o3);

    sched::explore("deregistration against a request", []
    {
        reset();
        {
            std::stop_source s;
            std::thread t([s]() mutable { request(s); });
            int* data = new int(0);
            {
                Callback a(s.get_token(), Fn { 0, data });
            }
            deregistered(0);
            delete data;
            t.join();
            one_winner();
        }
    }, after, o);

    sched::explore("three callbacks, the middle one is deregistered during a request", []
    {
        reset();
        {
            std::stop_source s;
            Callback a(s.get_token(), Fn { 0 });
            Callback b;
            int* data = new int(0);
            b.emplace(s.get_token(), Fn { 1, data });
            Callback c(s.get_token(), Fn { 2 });
            std::thread t([s]() mutable { request(s); });
            b.reset();
            deregistered(1);
            delete data;
            t.join();
            ran(0, 1); ran(2, 1);
        }
    }, after, o);

    sched::explore("two threads deregister neighbours during a request", []
    {
        reset();
        {
            std::stop_source s;
            Callback a, b;
            a.emplace(s.get_token(), Fn { 0 });
            b.emplace(s.get_token(), Fn { 1 });
            Callback c(s.get_token(), Fn { 2 });
            std::thread t([&] { a.reset(); deregistered(0); });
            std::thread u([&] { b.reset(); deregistered(1); });
            request(s);
            t.join(); u.join();
            ran(2, 1);
        }
    }, after, o3);

    sched::explore("a callback deregisters itself", []
    {
        reset();
        {
            std::stop_source s;
            auto p = std::make_shared<Callback>();
            auto* raw = p.get();
            Callback b;
            // The callable must not be used after it has destroyed itself.
            struct Self { Callback* p; void operator()() const { auto q = p; (void)q; } };
            raw->emplace(s.get_token(), Fn { 0, nullptr });
            Box<std::stop_callback<std::function<void()>>> self;
            self.emplace(s.get_token(), [&self] { begin(1); auto* me = &self; end(1); me->reset(); });
            b.emplace(s.get_token(), Fn { 2 });
            std::thread t([s]() mutable { request(s); });
            b.reset();
            deregistered(2);
            t.join();
            ran(0, 1); ran(1, 1);
            if (self) mc::fail("the callback is still there");
        }
    }, after, o);

    sched::explore("a callback deregisters another one, also deregistered by nobody else", []
    {
        reset();
        {
            std::stop_source s;
            Callback b;
            b.emplace(s.get_token(), Fn { 0 });
            Callback a(s.get_token(), Fn { 1, nullptr, [&] { b.reset(); deregistered(0); } });
            std::thread t([s]() mutable { request(s); });
            request(s);
            t.join();
            one_winner();
            ran(1, 1);
        }
    }, after, o);

    sched::explore("deregistration does not wait for other callbacks", []
    {
        reset();
        {
            std::stop_source s;
            std::atomic<bool> go { false };
            // Callback 1 runs first (last registered) and waits until the other thread has deregistered callback 0.
            Callback a;
            a.emplace(s.get_token(), Fn { 0 });
            Callback b(s.get_token(), Fn { 1, nullptr, [&] { while (!go) std::this_thread::yield(); } });
            std::thread t([s]() mutable { request(s); });
            a.reset();
            deregistered(0);
            go = true;
            t.join();
            ran(1, 1);
        }
    }, after, o);

    sched::explore("registration from a callback, and a second request from it", []
    {
        reset();
        {
            std::stop_source s;
            Callback a(s.get_token(), Fn { 0, nullptr, [&]
            {
                Callback n(s.get_token(), Fn { 1 });
                ran(1, 1);
                if (s.request_stop()) mc::fail("a second request succeeds");
            } });
            std::thread t([s]() mutable { request(s); });
            Callback b(s.get_token(), Fn { 2 });
            t.join();
            ran(0, 1); ran(1, 1); ran(2, 1);
        }
    }, after, o);

    sched::explore("the last source, tokens and callback go in different threads", []
    {
        reset();
        {
            auto s = std::make_unique<std::stop_source>();
            std::stop_token k = s->get_token();
            std::thread t([k]() mutable { std::stop_token l = k; std::stop_token m = std::move(k); if (m.stop_requested() != l.stop_requested() && !l.stop_requested()) mc::fail("a request is forgotten"); });
            std::thread u([&s]
            {
                std::stop_source copy(*s);
                std::stop_source other = std::move(copy);
                request(other);
            });
            { std::stop_token n; n = k; if (!(n == k) || !n.stop_possible()) mc::fail("stop_possible"); k = std::stop_token(); }
            u.join();
            s.reset();
            t.join();
        }
    }, after, o3);

    sched::explore("a callback outlives the sources", []
    {
        reset();
        {
            std::optional<std::stop_source> s { std::stop_source() };
            std::stop_token k = s->get_token();
            std::thread t([&s] { s.reset(); });
            {
                Callback a(k, Fn { 0 });
                std::stop_token l = k;
                Callback b(std::move(l), Fn { 1 });
            }
            t.join();
            ran(0, 0); ran(1, 0);
            if (k.stop_possible()) mc::fail("stop_possible() without sources");
            if (k.stop_requested()) mc::fail("stop_requested() without a request");
        }
    }, after, o);

    sched::explore("what happens before a request is visible to the callback and to who sees the request", []
    {
        reset();
        {
            std::stop_source s;
            int data = 0, more = 0;
            std::stop_token k = s.get_token();
            std::thread t([&] { data = 1; s.request_stop(); });
            {
                Box<std::stop_callback<std::function<void()>>> cb(k, [&] { begin(0); if (data != 1) mc::fail("stale data in the callback"); more = 1; end(0); });
                if (k.stop_requested() && data != 1) mc::fail("stale data");
            }
            deregistered(0);
            bool r;
            { sched::Quiet q; r = cbs[0].started; }
            if (r && more != 1) mc::fail("the effects of the callback are not visible after its deregistration");
            t.join();
        }
    }, after, o);
    return mc::finish();
}
