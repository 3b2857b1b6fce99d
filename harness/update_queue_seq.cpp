// U01, one thread: every history of pushes (plain, re-entrant, throwing, clearing updates), applies and clears.
#include "mc.hpp"
#include "Awl/UpdateQueue.h"
#include <memory>

namespace
{
    int live[64], applied[64];
    int throw_copy = 0;     // countdown: the n-th copy of a closure throws

    struct CopyError {};

    struct Token
    {
        int id;
        explicit Token(int i) : id(i) { ++live[id]; }
        Token(const Token& o) : id(o.id) { if (throw_copy && --throw_copy == 0) throw CopyError(); ++live[id]; }
        Token(Token&& o) noexcept : id(o.id) { ++live[id]; }
        ~Token() { if (--live[id] < 0) mc::fail("a closure is destroyed twice"); }
    };

    using Queue = awl::UpdateQueue<int>;
    enum Kind { Plain, Pushes, Throws, Clears, Kinds };

    struct Sys
    {
        Queue* q = nullptr;
        int next = 0;
        std::vector<std::pair<int, int>> pending;   // model: id, kind
        std::vector<int> expect, got;

        void reset()
        {
            if (q) delete q;
            memset(live, 0, sizeof live);
            memset(applied, 0, sizeof applied);
            q = new Queue;
            next = 0;
            pending.clear();
        }
        bool push(int kind, bool fail_copy = false, int nth = 1)
        {
            int id = next++;
            auto fn = [this, t = Token(id), kind](int x)
            {
                if (x != 7) mc::fail("wrong argument");
                if (!live[t.id]) mc::fail("a released update is applied");
                if (applied[t.id]++) mc::fail("an update is applied twice");
                got.push_back(t.id);
                if (kind == Pushes) push(Plain);
                if (kind == Throws) throw 1;
                if (kind == Clears) clear();
            };
            std::function<void(int)> f(std::move(fn));
            bool done = true;
            throw_copy = fail_copy ? nth : 0;
            try { q->Push(f); } catch (CopyError&) { done = false; }
            bool hit = fail_copy && throw_copy == 0;
            throw_copy = 0;
            if (hit == done && fail_copy && hit) mc::fail("Push swallows an exception");
            if (done) pending.push_back({ id, kind });
            return hit;
        }
        void clear() { q->ClearPending(); pending.clear(); }
        void apply()
        {
            auto batch = pending;
            pending.clear();
            got.clear();
            bool thrown = false;
            // The model runs first as far as order is concerned; nested effects happen in the callbacks.
            std::vector<int> want;
            bool t = false;
            for (auto& p : batch) { want.push_back(p.first); if (p.second == Throws) { t = true; break; } }
            try { q->ApplyUpdates(7); } catch (int) { thrown = true; }
            if (thrown != t) mc::fail("exception of an update: expected %d, got %d", t, thrown);
            if (got != want) mc::fail("applied %zu updates, expected %zu (or in another order)", got.size(), want.size());
        }
        void check()
        {
            for (int i = 0; i < next; ++i)
            {
                bool pend = false;
                for (auto& p : pending) if (p.first == i) pend = true;
                if (pend && !live[i]) mc::fail("the closure of pending update %d was released", i);
                if (!pend && live[i]) mc::fail("the closure of update %d (applied, cleared or dropped) is still alive", i);
                if (pend && live[i] > 1) mc::fail("the queue keeps %d copies of update %d", live[i], i);
            }
        }
        void end()
        {
            delete q;
            q = nullptr;
            for (int i = 0; i < next; ++i) if (live[i]) mc::fail("the closure of update %d is never released", i);
        }
    };
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const int depth = mc::cfg().thorough ? 8 : 7;
    if (!mc::begin_scenario("all histories")) return mc::finish();
    mc::Dfs d;
    static const char* names[] = { "push", "push an update that pushes", "push an update that throws", "push an update that clears", "apply", "clear", "push whose first closure copy throws", "push whose second closure copy throws" };
    d.run([&](mc::Dfs& c)
    {
        Sys s;
        s.reset();
        for (int i = 0; i < depth; ++i)
        {
            int op = c.choose(8);
            if (i == 1 && !c.mine()) break;
            mc::trace("%s", names[op]);
            if (op < Kinds) s.push(op);
            else if (op == 4) s.apply();
            else if (op == 5) s.clear();
            else s.push(Plain, true, op - 5);
            s.check();
        }
        s.end();
        ++mc::cnt("transitions");
    });
    return mc::finish();
}
