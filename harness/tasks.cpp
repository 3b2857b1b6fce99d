// G02: awl::ProcessTask and awl::UpdateTask: scripts of tasks awaiting each other, times every order of resuming
// their suspension points, awaiting, moving, releasing and destroying the task objects.
#include "heap.hpp"
#include "coro.hpp"
#include "Awl/StringFormat.h"
#include "Awl/Coro/ProcessTask.h"
#include "Awl/Coro/UpdateTask.h"
#include <memory>

using namespace cor;

namespace
{
    int pick(mc::Dfs& d, int n) { mc::heap::Untrack u; return d.choose(n); }
    void leak(const char* when) { if (mc::heap::count()) mc::fail("%zu allocations (coroutine frames) leaked %s", mc::heap::count(), when); }

    struct Node { bool finished = false; int ends = 0; bool threw = false; int locals = 0; bool detached = false; int value = 0; };
    std::deque<Node>* g_nodes = nullptr;
    int new_node() { mc::heap::Untrack u; g_nodes->emplace_back(); return (int)g_nodes->size() - 1; }
    Node& node(int i) { return (*g_nodes)[i]; }
    void ended(int i, bool threw)
    {
        Node& n = node(i);
        if (++n.ends != 1) mc::fail("task %d ran to its end %d times", i, n.ends);
        n.threw = threw;
        n.finished = true;
    }
    struct EndMark   // knows whether the body ran to its end, threw or was destroyed halfway
    {
        int id; bool normal = false;
        explicit EndMark(int i) : id(i) { ++node(i).locals; }
        ~EndMark() { --node(id).locals; if (normal) ended(id, false); }
    };

    // A task body: 'G' waits at a gate, 'T' throws; with children (leaf scripts chosen per script):
    //   'A' awaits a new child, 'X' does so and replaces its exception by 500, 'D' creates a child, 'W' awaits the one created
    //   by 'D' (or creates one), 'K' creates and drops a child, 'M' as 'D' but moves the task object and asks is_ready/get,
    //   'V' awaits a child without value, 'U' awaits an update task, 'R' releases an update task, 'L' lets one finish
    //   (if its script has no gate) and then releases it.
    int g_seq = 0;

    awl::ProcessTask<Val> leaf(int id, std::string ops, Val param)
    {
        EndMark mark(id);
        Val local(1);
        for (char c : ops)
        {
            param.get(); local.get();
            if (c == 'G') { Gate g(++g_seq); co_await g; }
            else if (c == 'T') { ended(id, true); throw Boom{ id }; }
        }
        mark.normal = true;
        co_return Val(7 + (int)ops.size());
    }
    awl::ProcessTask<void> vleaf(int id, std::string ops, Val param)
    {
        EndMark mark(id);
        for (char c : ops)
        {
            param.get();
            if (c == 'G') { Gate g(++g_seq); co_await g; }
            else if (c == 'T') { ended(id, true); throw Boom{ id }; }
        }
        mark.normal = true;
    }
    awl::UpdateTask uleaf(int id, std::string ops, Val param)
    {
        EndMark mark(id);
        for (char c : ops)
        {
            param.get();
            if (c == 'G') { Gate g(++g_seq); co_await g; }
        }
        mark.normal = true;
        co_return;
    }
    bool throws(const std::string& s) { return s.find('T') != std::string::npos; }
    void was(int id, const char* what) { if (!node(id).finished) mc::fail("%s before the task it awaited (%d) ended", what, id); mc::cnt("handovers") += 1; }

    template <class Task>
    Task body(int id, std::string ops, std::string child, Val param)
    {
        EndMark mark(id);
        Val local(1);
        int sum = 1000;
        awl::ProcessTask<Val> kept;
        int kept_id = -1;
        for (char c : ops)
        {
            param.get(); local.get();
            switch (c)
            {
            case 'G': { Gate g(++g_seq); co_await g; break; }
            case 'T': if constexpr (!std::is_same_v<Task, awl::UpdateTask>) { ended(id, true); throw Boom{ id }; } break;
            case 'X':
            case 'A':
            {
                int k = new_node();
                bool caught = false;
                int got = 0;
                if (c == 'X' || std::is_same_v<Task, awl::UpdateTask>)
                {
                    try { auto t = leaf(k, child, Val(2)); Val v = co_await t; got = v.get(); }
                    catch (const Boom& b) { if (b.id != k) mc::fail("the exception of another task arrived"); caught = true; }
                }
                else
                {
                    try { auto t = leaf(k, child, Val(2)); Val v = co_await t; got = v.get(); }
                    catch (const Boom& b) { if (b.id != k) mc::fail("the exception of another task arrived"); was(k, "an exception arrived"); ended(id, true); throw; }
                }
                was(k, "an awaiting task was resumed");
                if (caught != throws(child)) mc::fail("awaiting a task: exception %d, expected %d", (int)caught, (int)throws(child));
                if (!caught && got != 7 + (int)child.size()) mc::fail("awaiting a task gave %d", got);
                sum += caught ? 500 : got;
                break;
            }
            case 'D': { kept_id = new_node(); kept = leaf(kept_id, child, Val(2)); break; }
            case 'W':
            {
                if (kept_id < 0) { kept_id = new_node(); kept = leaf(kept_id, child, Val(2)); }
                bool caught = false; int got = 0;
                try { Val v = co_await kept; got = v.get(); }
                catch (const Boom& b) { if (b.id != kept_id) mc::fail("the exception of another task arrived"); caught = true; }
                was(kept_id, "an awaiting task was resumed");
                if (caught != throws(child) || (!caught && got != 7 + (int)child.size())) mc::fail("awaiting a kept task gave %d, exception %d", got, (int)caught);
                sum += caught ? 500 : got;
                kept_id = -1;
                kept = awl::ProcessTask<Val>();
                break;
            }
            case 'K': { int k = new_node(); { auto t = leaf(k, child, Val(2)); } if (node(k).locals) mc::fail("a dropped task keeps its objects"); break; }
            case 'M':
            {
                int k = new_node();
                auto t = leaf(k, child, Val(2));
                awl::ProcessTask<Val> o(std::move(t));
                t = std::move(o);
                bool ready = false, caught = false;
                try { ready = t.is_ready(); } catch (const Boom&) { caught = true; }
                if (node(k).finished != (ready || caught)) mc::fail("is_ready() differs from the state of the task");
                if (ready) { Val v = t.get(); if (v.get() != 7 + (int)child.size()) mc::fail("get() gave %d", v.get()); }
                break;
            }
            case 'V':
            {
                int k = new_node();
                bool caught = false;
                try { auto t = vleaf(k, child, Val(2)); co_await t; }
                catch (const Boom& b) { if (b.id != k) mc::fail("the exception of another task arrived"); caught = true; }
                was(k, "an awaiting task was resumed");
                if (caught != throws(child)) mc::fail("awaiting a task without value: exception %d, expected %d", (int)caught, (int)throws(child));
                sum += caught ? 500 : 3;
                break;
            }
            case 'U':
            {
                int k = new_node();
                { auto t = uleaf(k, child, Val(2)); if (t.done() != node(k).finished) mc::fail("done() differs from the state of the task"); co_await t; if (!t || !t.done()) mc::fail("an awaited update task is not done"); }
                was(k, "an awaiting task was resumed");
                break;
            }
            case 'R': { int k = new_node(); node(k).detached = true; auto t = uleaf(k, child + "", Val(2)); t.release(); if (t) mc::fail("a released update task is still owned"); t.release(); break; }
            case 'N': { int k = new_node(); auto t = uleaf(k, child, Val(2)); awl::UpdateTask o(std::move(t)); awl::UpdateTask p; p = std::move(o); if (t || o || !p) mc::fail("moving an update task"); if (p.done()) p.release(); break; }
            }
        }
        mark.normal = true;
        node(id).value = sum;
        if constexpr (std::is_same_v<Task, awl::ProcessTask<Val>>) co_return Val(sum);
        else co_return;
    }

    struct Seen { int resumed = 0; bool caught = false; int value = 0; };
    template <class Task>
    Job await_root(Task* t, int id, Seen* s)
    {
        Val local(1);
        try
        {
            if constexpr (std::is_same_v<Task, awl::ProcessTask<Val>>) { Val v = co_await *t; s->value = v.get(); }
            else co_await *t;
        }
        catch (const Boom& b) { s->caught = true; }
        was(id, "the awaiting coroutine was resumed");
        if (++s->resumed != 1) mc::fail("the awaiting coroutine was resumed twice");
        local.get();
    }

    std::vector<std::string> words(const std::string& alphabet, int maxlen)
    {
        std::vector<std::string> all{ "" };
        for (size_t from = 0, len = 0; (int)len < maxlen; ++len)
        {
            size_t to = all.size();
            for (size_t i = from; i < to; ++i)
            {
                if (!all[i].empty() && all[i].back() == 'T') continue;
                for (char c : alphabet) all.push_back(all[i] + c);
            }
            from = to;
        }
        return all;
    }

    template <class Task>
    void explore(const std::vector<std::string>& roots, const std::vector<std::string>& children)
    {
        constexpr bool update = std::is_same_v<Task, awl::UpdateTask>;
        mc::Dfs d;
        d.run([&](mc::Dfs& d)
        {
            const std::string ops = roots[d.choose((int)roots.size())];
            const bool uses = ops.find_first_not_of("GT") != std::string::npos;
            std::vector<std::string> allowed;
            for (auto& c : children) if (!throws(c) || ops.find_first_of("URN") == std::string::npos) allowed.push_back(c);
            const std::string child = uses ? allowed[d.choose((int)allowed.size())] : "";
            if (!d.mine()) return;
            mc::trace("root \"%s\", children \"%s\"", ops.c_str(), child.c_str());
            std::deque<Node> nodes;
            g_nodes = &nodes;
            g_seq = 0;
            Seen seen;
            bool expect_throw = !update && (throws(ops) || (ops.find('A') != std::string::npos && throws(child)));
            int expected = 1000;
            for (char c : ops)
            {
                if (c == 'A' || c == 'X' || c == 'W') expected += throws(child) ? 500 : 7 + (int)child.size();
                if (c == 'V') expected += throws(child) ? 500 : 3;
            }
            {
                mc::heap::Track t;
                int id = new_node();
                auto holder = std::make_unique<Task>(body<Task>(id, ops, child, Val(3)));
                std::unique_ptr<Job> job;
                bool detached = false;
                int manip = 1;
                for (int guard = 0; guard < 40; ++guard)
                {
                    enum { Open, AwaitIt, Destroy, Move, Release, KillJob };
                    struct Op { int what; size_t arg; };
                    Op opt[16]; int n = 0;
                    for (size_t i = 0; i < gates().size(); ++i) opt[n++] = { Open, i };
                    if (holder && !job && !detached) opt[n++] = { AwaitIt, 0 };
                    if (holder && !detached && manip)
                    {
                        // An awaited task may be destroyed only after it resumed its awaiter.
                        if (!job || seen.resumed) opt[n++] = { Destroy, 0 };
                        opt[n++] = { Move, 0 };
                        if (update) opt[n++] = { Release, 0 };
                    }
                    if (n == 0) break;
                    Op op = opt[pick(d, n)];
                    mc::cnt("transitions") += 1;
                    switch (op.what)
                    {
                    case Open: mc::trace("open gate %d", gates()[op.arg]->id); open(op.arg); break;
                    case AwaitIt:
                        mc::trace("await the root (%s)", node(id).finished ? "ended" : "running");
                        job = std::make_unique<Job>(await_root<Task>(holder.get(), id, &seen));
                        break;
                    case Destroy: mc::trace("destroy the root"); holder.reset(); if (node(id).locals) mc::fail("a destroyed task keeps its objects"); --manip; break;
                    case Move:
                    {
                        mc::trace("move the root");
                        auto h = std::make_unique<Task>(std::move(*holder));
                        { Task other = body<Task>(new_node(), "G", "", Val(4)); other = std::move(*h); *h = std::move(other); }
                        *holder = std::move(*h);
                        --manip;
                        break;
                    }
                    case Release:
                        if constexpr (update)
                        {
                            mc::trace("release the root (%s)", node(id).finished ? "ended" : "running");
                            holder->release();
                            if (*holder) mc::fail("a released task is still owned");
                            detached = true;
                            --manip;
                        }
                        break;
                    }
                    if (job && seen.resumed != (node(id).finished ? 1 : 0)) mc::fail("the root %s but its awaiter was resumed %d times", node(id).finished ? "ended" : "is running", seen.resumed);
                }
                if (!gates().empty()) mc::fail("internal: gates left");
                for (size_t i = 0; i < nodes.size(); ++i)
                    if (nodes[i].detached && nodes[i].ends != 1) mc::fail("released update task %zu never ended", i);
                if ((holder || detached) && !node(id).finished) mc::fail("the root is suspended for ever");
                if (node(id).finished)
                {
                    if (node(id).threw != expect_throw) mc::fail("the root threw: %d, expected %d", (int)node(id).threw, (int)expect_throw);
                    if (!expect_throw && node(id).value != expected) mc::fail("internal: the root computed %d, expected %d", node(id).value, expected);
                    if (job)
                    {
                        if (seen.caught != expect_throw) mc::fail("the awaiter caught an exception: %d, expected %d", (int)seen.caught, (int)expect_throw);
                        if constexpr (std::is_same_v<Task, awl::ProcessTask<Val>>) if (!expect_throw && seen.value != expected) mc::fail("the awaiter got %d, expected %d", seen.value, expected);
                    }
                    else if (holder)
                    {
                        if constexpr (std::is_same_v<Task, awl::ProcessTask<Val>>)
                        {
                            bool caught = false;
                            try { if (!holder->is_ready()) mc::fail("is_ready() is false for an ended task"); Val v = holder->get(); if (v.get() != expected) mc::fail("get() gave %d, expected %d", v.get(), expected); }
                            catch (const Boom&) { caught = true; }
                            if (caught != expect_throw) mc::fail("get(): exception %d, expected %d", (int)caught, (int)expect_throw);
                        }
                    }
                }
                if (pick(d, 2)) { job.reset(); holder.reset(); } else { holder.reset(); job.reset(); }
            }
            for (size_t i = 0; i < nodes.size(); ++i) if (nodes[i].locals) mc::fail("objects of task %zu leaked", i);
            if (g_live) mc::fail("%ld values leaked", g_live);
            leak("at the end");
            mc::cnt("executions") += 1;
            mc::sample_trace();
            g_nodes = nullptr;
        });
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    gates().reserve(32);
    for (const char* c : { "handovers", "executions", "transitions", "states" }) mc::cnt(c);
    // Thorough: also long scripts with short children, and short scripts with long children.
    const int lens[3] = { 3, 4, 2 }, child_lens[3] = { 2, 1, 3 };
    for (int round = 0; round < (th ? 3 : 1); ++round)
    {
        const std::vector<std::string> children = words("GT", child_lens[round]);
        const int len = lens[round];
        const std::string bounds = " (" + std::to_string(len) + " steps)";
        if (mc::begin_scenario("ProcessTask with a value" + bounds)) explore<awl::ProcessTask<Val>>(words("GTAXDWKMVURN", len), children);
        if (mc::begin_scenario("ProcessTask without a value" + bounds)) explore<awl::ProcessTask<void>>(words("GTAXDWVURN", len), children);
        if (mc::begin_scenario("UpdateTask" + bounds)) explore<awl::UpdateTask>(words("GAXDWVURN", len), children);
    }
    return mc::finish();
}
