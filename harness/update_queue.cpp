// U01, concurrent part: every interleaving of producers, a clearing thread and the applying thread.
#include "sched.hpp"
#include "mc.hpp"
#include "Awl/UpdateQueue.h"
#include <thread>
#include <memory>

namespace
{
    constexpr int maxu = 16;
    // Bookkeeping of the harness, one thread runs at a time; not seen by the race detector.
    struct Book
    {
        int live[maxu];         // closures in existence
        int applied[maxu];
        int pushed_at[maxu];    // event time stamps
        int seq;
        std::vector<int> order;
        void reset() { memset(live, 0, sizeof live); memset(applied, 0, sizeof applied); for (auto& p : pushed_at) p = -1; seq = 0; order.clear(); }
    };
    Book& book() { static Book* b = new Book; return *b; }

    // Everything below touches the book only inside Quiet.
    struct Update
    {
        int id;
        explicit Update(int i) : id(i) { sched::Quiet q; ++book().live[id]; }
        Update(const Update& o) : id(o.id) { sched::Quiet q; ++book().live[id]; }
        ~Update() { sched::Quiet q; if (--book().live[id] < 0) mc::fail("the closure of update %d is destroyed twice", id); }
    };

    struct Fn
    {
        Update u;
        int* data;      // what the update modifies: accessed by the applying thread only
        std::function<void()> extra;
        void operator()(int arg) const
        {
            {
                sched::Quiet q;
                if (arg != 42) mc::fail("an update receives a wrong argument");
                if (book().live[u.id] <= 0) mc::fail("update %d is applied after its closure was released", u.id);
                if (book().applied[u.id]++) mc::fail("update %d is applied twice", u.id);
                book().order.push_back(u.id);
            }
            ++*data;
            if (extra) extra();
        }
    };

    using Queue = awl::UpdateQueue<int>;

    void push(Queue& q, int id, int* data, std::function<void()> extra = {})
    {
        q.Push(Fn { Update(id), data, std::move(extra) });
        sched::Quiet k;
        book().pushed_at[id] = book().seq++;
    }

    void check_order(std::initializer_list<int> ids)
    {
        sched::Quiet q;
        int last = -1;
        for (int id : ids)
            for (size_t i = 0; i < book().order.size(); ++i)
                if (book().order[i] == id)
                {
                    if ((int)i < last) mc::fail("updates of one producer are applied out of order");
                    last = (int)i;
                }
    }

    void apply(Queue& q, const char* which)
    {
        std::vector<int>* must;
        {
            sched::Quiet k;
            must = new std::vector<int>;
            for (int i = 0; i < maxu; ++i) if (book().pushed_at[i] >= 0) must->push_back(i);
        }
        q.ApplyUpdates(42);
        sched::Quiet k;
        for (int i : *must) if (!book().applied[i] ) mc::fail("update %d was pushed before %s began and is not applied when it ends", i, which);
        for (int i : *must) if (book().applied[i] && book().live[i]) mc::fail("the closure of update %d is alive after it has been applied", i);
        delete must;
    }

    void finish(int n, bool all_applied)
    {
        sched::Quiet k;
        for (int i = 0; i < n; ++i)
        {
            if (book().live[i]) mc::fail("the closure of update %d is never released", i);
            if (all_applied && book().applied[i] != 1) mc::fail("update %d is applied %d times", i, book().applied[i]);
        }
    }
    void start() { sched::Quiet k; book().reset(); }
    void after()
    {
        std::string s;
        for (int i : book().order) s += char('a' + i);
        mc::outcome(std::string(mc::g_scenario) + s);
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    sched::Options o;
    o.preemptions = th ? 12 : 6;

    sched::explore("two producers, two updates each; three applies", []
    {
        start();
        {
            Queue q;
            int data = 0;
            std::thread a([&] { push(q, 0, &data); push(q, 1, &data); });
            std::thread b([&] { push(q, 2, &data); push(q, 3, &data); });
            apply(q, "the first apply");
            apply(q, "the second apply");
            a.join(); b.join();
            apply(q, "the last apply");
            check_order({ 0, 1 });
            check_order({ 2, 3 });
            if (data != 4) mc::fail("lost updates");
            finish(4, true);
        }
    }, after, o);

    sched::Options o2 = o;
    o2.preemptions = th ? 16 : 8;
    sched::explore("one producer, three updates; applies in another thread", []
    {
        start();
        {
            Queue q;
            int data = 0;
            std::thread a([&] { for (int i = 0; i < 3; ++i) push(q, i, &data); });
            apply(q, "the first apply");
            apply(q, "the second apply");
            apply(q, "the third apply");
            a.join();
            apply(q, "the last apply");
            check_order({ 0, 1, 2 });
            finish(3, true);
        }
    }, after, o2);

    sched::explore("updates that push updates, with another producer", []
    {
        start();
        {
            Queue q;
            int data = 0;
            std::thread a([&] { push(q, 0, &data, [&] { push(q, 4, &data); }); push(q, 1, &data); });
            std::thread b([&] { push(q, 2, &data); });
            apply(q, "the first apply");
            a.join();
            apply(q, "the second apply");
            b.join();
            apply(q, "the third apply");
            apply(q, "the last apply");
            check_order({ 0, 1 });
            check_order({ 0, 4 });
            if (data != 4) mc::fail("lost updates");
            for (int i : { 0, 1, 2, 4 }) if (book().applied[i] != 1) mc::fail("update %d applied %d times", i, book().applied[i]);
            finish(3, true);
        }
    }, after, o);

    sched::explore("a producer that clears, against applies", []
    {
        start();
        {
            Queue q;
            int data = 0;
            std::thread a([&]
            {
                push(q, 0, &data);
                push(q, 1, &data);
                int ap;
                q.ClearPending();
                {
                    sched::Quiet k;
                    // pushed by this thread before: each has been taken by an apply or is cleared now
                }
                push(q, 2, &data);
            });
            q.ApplyUpdates(42);
            q.ApplyUpdates(42);
            a.join();
            {
                sched::Quiet k;
                // Everything cleared is gone for good.
            }
            q.ApplyUpdates(42);
            {
                sched::Quiet k;
                if (book().applied[2] != 1) mc::fail("the update pushed after clearing is applied %d times", book().applied[2]);
                if (book().applied[1] && !book().applied[0]) mc::fail("clearing removed an earlier update but not a later one");
                for (int i = 0; i < 3; ++i) if (book().live[i]) mc::fail("the closure of the %s update %d is still alive", book().applied[i] ? "applied" : "cleared", i);
            }
            check_order({ 0, 1, 2 });
        }
        finish(3, false);
    }, after, o2);

    sched::explore("a third thread clears", []
    {
        start();
        {
            Queue q;
            int data = 0;
            std::thread a([&] { push(q, 0, &data); push(q, 1, &data); });
            std::thread b([&] { q.ClearPending(); });
            q.ApplyUpdates(42);
            b.join();
            a.join();
            q.ApplyUpdates(42);
            check_order({ 0, 1 });
            {
                sched::Quiet k;
                for (int i = 0; i < 2; ++i) if (book().live[i]) mc::fail("the closure of the %s update %d is still alive", book().applied[i] ? "applied" : "cleared", i);
            }
        }
        finish(2, false);
    }, after, o);

    sched::explore("the queue is destroyed with pending updates", []
    {
        start();
        {
            Queue q;
            int data = 0;
            std::thread a([&] { push(q, 0, &data); push(q, 1, &data); });
            q.ApplyUpdates(42);
            a.join();
        }
        finish(2, false);
    }, after, o);

    sched::explore("an update throws while a producer pushes", []
    {
        start();
        {
            Queue q;
            int data = 0;
            push(q, 0, &data, [] { throw 1; });
            std::thread a([&] { push(q, 1, &data); push(q, 2, &data); });
            bool thrown = false;
            try { q.ApplyUpdates(42); } catch (int) { thrown = true; }
            if (!thrown) mc::fail("the exception of an update does not reach the caller");
            a.join();
            q.ApplyUpdates(42);
            check_order({ 1, 2 });
            {
                sched::Quiet k;
                // pushed after the batch was taken: applied by the next call
                for (int i = 0; i < 3; ++i) if (book().live[i]) mc::fail("the closure of update %d is still alive", i);
            }
        }
        finish(3, false);
    }, after, o);
    return mc::finish();
}
