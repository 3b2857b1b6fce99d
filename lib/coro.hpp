// Shared by the coroutine checkers: values with instance accounting, gates (suspension points resumed by the
// explorer) and an independent consumer coroutine type.
#pragma once
#include "mc.hpp"
#include <coroutine>

namespace cor
{
    // Every instance has an identity, so that double destruction, use after destruction and leaks are seen.
    inline long g_live = 0;
    struct Val
    {
        int v;
        uint32_t canary;
        int* owner;      // counter of the frame this instance belongs to, if any
        explicit Val(int x, int* o = nullptr) : v(x), canary(0xC0FFEE), owner(o) { ++g_live; if (owner) ++*owner; }
        Val(const Val& o) : v(o.get()), canary(0xC0FFEE), owner(nullptr) { ++g_live; }
        Val(Val&& o) noexcept : v(o.get()), canary(0xC0FFEE), owner(nullptr) { o.v = -1; ++g_live; }
        Val& operator=(const Val& o) { get(); v = o.get(); return *this; }
        Val& operator=(Val&& o) noexcept { get(); v = o.get(); if (&o != this) o.v = -1; return *this; }
        ~Val()
        {
            if (canary != 0xC0FFEE) mc::fail("a value was destroyed twice or never constructed");
            canary = 0xDEAD; --g_live;
            if (owner) --*owner;
        }
        int get() const { if (canary != 0xC0FFEE) mc::fail("a dead value was used"); return v; }
    };

    struct Boom { int id; };

    // A suspension point: the explorer decides when the coroutine suspended there goes on.
    struct Gate;
    inline std::vector<Gate*>& gates() { static std::vector<Gate*> g; return g; }
    struct Gate
    {
        std::coroutine_handle<> h;
        int id;
        explicit Gate(int i) : id(i) {}
        Gate(const Gate&) = delete;
        ~Gate() { drop(); }
        void drop() { auto& g = gates(); for (size_t i = 0; i < g.size(); ++i) if (g[i] == this) { g.erase(g.begin() + i); break; } }
        bool await_ready() const noexcept { return false; }
        void await_suspend(std::coroutine_handle<> c) { h = c; gates().push_back(this); }
        void await_resume() const noexcept {}
    };
    inline void open(size_t i)
    {
        Gate* g = gates()[i];
        auto h = g->h;
        gates().erase(gates().begin() + i);
        h.resume();
    }

    // An eager coroutine owned by the explorer; its frame lives until the owner lets it go.
    struct Job
    {
        struct promise_type
        {
            Job get_return_object() { return Job{ std::coroutine_handle<promise_type>::from_promise(*this) }; }
            std::suspend_never initial_suspend() noexcept { return {}; }
            std::suspend_always final_suspend() noexcept { return {}; }
            void return_void() {}
            void unhandled_exception() { mc::fail("an exception left a consumer"); }
        };
        std::coroutine_handle<promise_type> h;
        explicit Job(std::coroutine_handle<promise_type> c) : h(c) {}
        Job(Job&& o) : h(o.h) { o.h = nullptr; }
        Job(const Job&) = delete;
        ~Job() { kill(); }
        void kill() { if (h) { auto c = h; h = nullptr; c.destroy(); } }
        bool done() const { return !h || h.done(); }
    };
}
