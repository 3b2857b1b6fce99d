// J03: jthread (the C++17 replacement) under every interleaving.
#include "jthread_inc.hpp"
#include <optional>
#include <vector>

namespace
{
    struct St { int started, ended, stopped_seen; bool owner_done; };
    St st[8];
    void start() { sched::Quiet q; memset(st, 0, sizeof st); }
    void began(int i) { sched::Quiet q; if (st[i].started++) mc::fail("thread function %d runs twice", i); if (st[i].owner_done) mc::fail("thread %d starts after its jthread was joined", i); }
    void ended(int i) { sched::Quiet q; st[i].ended++; }
    void joined(int i) { sched::Quiet q; if (st[i].started != 1 || st[i].ended != 1) mc::fail("thread %d is not joined", i); st[i].owner_done = true; }
    bool alive(int i) { sched::Quiet q; return !st[i].ended; }
    void must_live(int i) { if (!alive(i)) mc::fail("thread %d ended without a stop request", i); }
    void after()
    {
        std::string s = mc::g_scenario;
        for (auto& t : st) s += " " + std::to_string(t.started) + std::to_string(t.stopped_seen);
        mc::outcome(s);
    }
    // Runs until its own token is stopped.
    struct Loop
    {
        int i;
        int* data = nullptr;
        void operator()(std::stop_token t) const
        {
            began(i);
            if (!t.stop_possible()) mc::fail("the token of thread %d cannot be stopped", i);
            if (data) ++*data;
            while (!t.stop_requested()) std::this_thread::yield();
            if (data) ++*data;
            ended(i);
        }
    };
    struct Once
    {
        int i;
        int* data = nullptr;
        void operator()() const { began(i); if (data) ++*data; ended(i); }
    };
    // A jthread that gave its thread away owns nothing it could stop.
    void moved_from(std::jthread& t)
    {
        if (t.joinable() || t.get_id() != std::thread::id()) mc::fail("a moved-from jthread is joinable");
        if (t.get_stop_source().stop_possible() || t.get_stop_token().stop_possible()) mc::fail("a moved-from jthread has a stop state");
        if (t.request_stop()) mc::fail("a moved-from jthread requests stop");
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    sched::Options o;
    o.preemptions = th ? 8 : 5;
    sched::Options o3 = o;
    o3.preemptions = th ? 4 : 2;

    sched::explore("destruction", []
    {
        start();
        int data = 0;
        { std::jthread t(Loop { 0, &data }); }
        joined(0);
        if (data != 2) mc::fail("effects of the thread are lost");
    }, after, o);

    sched::explore("destruction of a thread without a token", []
    {
        start();
        int data = 0;
        std::stop_token k;
        { std::jthread t(Once { 0, &data }); k = t.get_stop_token(); }
        joined(0);
        if (data != 1) mc::fail("effects of the thread are lost");
        if (!k.stop_requested()) mc::fail("destruction of a joinable jthread does not request stop");
    }, after, o);

    sched::explore("explicit join is no stop", []
    {
        start();
        int data = 0;
        std::stop_token k;
        {
            std::jthread t(Once { 0, &data });
            k = t.get_stop_token();
            if (!t.joinable() || t.get_id() == std::thread::id()) mc::fail("joinable()");
            t.join();
            joined(0);
            if (t.joinable()) mc::fail("joinable() after join()");
            if (k.stop_requested()) mc::fail("stopped without a request");
        }
        if (k.stop_requested()) mc::fail("destroying a joined jthread requests stop");
        if (k.stop_possible()) mc::fail("stop is possible without sources");
    }, after, o);

    sched::explore("move construction while the thread starts", []
    {
        start();
        std::stop_token k;
        {
            std::optional<std::jthread> a;
            a.emplace(Loop { 0 });
            k = a->get_stop_token();
            auto id = a->get_id();
            {
                std::jthread b(std::move(*a));
                moved_from(*a);
                if (b.get_id() != id || b.get_stop_token() != k) mc::fail("the thread or its stop source is not moved");
                a.reset();
                must_live(0);
                if (k.stop_requested()) mc::fail("destroying a moved-from jthread requests stop");
            }
            joined(0);
        }
        if (!k.stop_requested()) mc::fail("no stop");
    }, after, o);

    sched::explore("assignment over a running thread", []
    {
        start();
        int data = 0;
        {
            std::jthread a(Loop { 0, &data });
            std::stop_token ka = a.get_stop_token();
            std::jthread b(Loop { 1 });
            std::stop_token kb = b.get_stop_token();
            a = std::move(b);
            moved_from(b);
            joined(0);
            ++data;
            if (!ka.stop_requested()) mc::fail("no stop");
            must_live(1);
            if (kb.stop_requested()) mc::fail("the moved thread is stopped");
            if (a.get_stop_token() != kb || !a.joinable() || b.joinable()) mc::fail("the thread is not moved");
        }
        joined(1);
    }, after, o3);

    sched::explore("assignment over an empty and a finished thread", []
    {
        start();
        {
            std::jthread a;
            if (a.joinable() || a.get_stop_source().stop_possible()) mc::fail("an empty jthread has a state");
            std::jthread b(Loop { 0 });
            a = std::move(b);
            moved_from(b);
            must_live(0);
            std::jthread c(Once { 1 });
            c = std::move(a);
            moved_from(a);
            joined(1);
            must_live(0);
            c = std::jthread();
            joined(0);
            if (c.joinable()) mc::fail("joinable()");
        }
    }, after, o3);

    sched::explore("swap", []
    {
        start();
        {
            std::jthread a(Loop { 0 });
            {
                std::jthread b(Loop { 1 });
                auto ka = a.get_stop_token(), kb = b.get_stop_token();
                a.swap(b);
                if (a.get_stop_token() != kb || b.get_stop_token() != ka) mc::fail("the stop sources are not swapped");
            }
            joined(0);
            must_live(1);
        }
        joined(1);
    }, after, o3);

    sched::explore("stop requested through the jthread stops its own thread only", []
    {
        start();
        {
            std::jthread a(Loop { 0 }), b(Loop { 1 });
            if (!a.request_stop()) mc::fail("the request fails");
            if (a.request_stop()) mc::fail("the second request succeeds");
            a.join();
            joined(0);
            must_live(1);
            if (b.get_stop_token().stop_requested()) mc::fail("the other thread is stopped");
        }
        joined(1);
    }, after, o3);

    sched::explore("another thread requests stop during destruction, with a callback", []
    {
        start();
        int data = 0;
        {
            std::optional<std::jthread> a;
            a.emplace(Loop { 0 });
            std::stop_callback<std::function<void()>> cb(a->get_stop_token(), [&data] { ++data; });
            std::thread t([s = a->get_stop_source()]() mutable { s.request_stop(); });
            a.reset();
            joined(0);
            t.join();
            if (data != 1) mc::fail("the callback ran %d times", data);
        }
    }, after, o3);

    sched::explore("a thread uses a callback on its own token", []
    {
        start();
        int data = 0;
        {
            std::jthread a([&data](std::stop_token k)
            {
                began(0);
                {
                    std::stop_callback<std::function<void()>> cb(k, [&data] { ++data; });
                    while (!k.stop_requested()) std::this_thread::yield();
                }
                if (data != 1) mc::fail("the callback is missing");
                ended(0);
            });
        }
        joined(0);
    }, after, o);

    sched::explore("detached", []
    {
        start();
        std::stop_source s;
        {
            std::jthread a(Loop { 0 });
            s = a.get_stop_source();
            a.detach();
            if (a.joinable()) mc::fail("joinable() after detach()");
        }
        must_live(0);
        if (s.stop_requested()) mc::fail("destroying a detached jthread requests stop");
        s.request_stop();
        while (alive(0)) sched::yield();
    }, after, o);

    sched::explore("arguments with and without a token, moved and by reference; member functions", []
    {
        start();
        {
            struct S
            {
                int v = 0;
                void g(int n) { v += n; }
            } s, s2;
            int x = 0;
            std::jthread a([](std::stop_token t, std::unique_ptr<int> p, int& r) { if (!t.stop_possible()) mc::fail("token"); r = *p; }, std::make_unique<int>(7), std::ref(x));
            std::jthread b([](std::stop_token t, S* s, int n) { if (!t.stop_possible()) mc::fail("token"); s->g(n); }, &s, 3);
            std::jthread c(&S::g, &s2, 4);
            a.join(); b.join(); c.join();
            if (x != 7 || s.v != 3 || s2.v != 4) mc::fail("arguments are lost");
        }
    }, after, [&] { auto x = o3; x.preemptions = th ? 3 : 2; return x; }());

    sched::explore("in a vector", []
    {
        start();
        {
            std::vector<std::jthread> v;
            v.emplace_back(Loop { 0 });
            v.emplace_back(Loop { 1 });     // moves the first one
            must_live(0);
            must_live(1);
            v.erase(v.begin());
            joined(0);
            must_live(1);
        }
        joined(1);
    }, after, o3);

    sched::explore("a thread gets its own token, not the one of its creator", []
    {
        start();
        {
            std::jthread a([](std::stop_token k)
            {
                began(0);
                std::stop_token inner;
                {
                    std::jthread b([k](std::stop_token m) { began(1); if (k == m) mc::fail("foreign token"); while (!m.stop_requested()) std::this_thread::yield(); ended(1); });
                    inner = b.get_stop_token();
                    if (inner == k) mc::fail("foreign token");
                    while (!k.stop_requested()) std::this_thread::yield();
                    must_live(1);
                }
                joined(1);
                ended(0);
            });
        }
        joined(0);
    }, after, o3);

    return mc::finish();
}
