// Controlled scheduler: explores the thread interleavings of real code (see sched.cpp).
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace sched
{
    struct Options
    {
        int preemptions = 2;        // switches away from a thread that could have continued
        int spurious = 0;           // spurious wake-ups of condition variables per execution
        bool early_timeouts = true; // timers may expire while other threads still run (counts as a preemption)
        int max_steps = 5000;       // scheduling points per execution; more is a livelock
        bool leaks = true;          // memory allocated during an execution must be released during it
    };

    struct Event { int thread; int code; long arg; long time; };

    // Runs body once per schedule, as thread 0; all threads it creates must be finished when it returns.
    // after() runs when the execution is over, outside the scheduler.
    void explore(const std::string& name, std::function<void()> body, std::function<void()> after, Options o = {});

    // To be used by the body and its threads.
    void event(int code, long arg = 0);         // append to the log (no synchronisation, no scheduling point)
    const std::vector<Event>& events();
    int choose(int n);                          // data nondeterminism
    void point();                               // a scheduling point that does nothing
    void yield();                               // as std::this_thread::yield
    long now_ns();                              // virtual time
    int self();
    bool running();

    // Suspends instrumentation: harness bookkeeping, allocated from the ordinary heap.
    struct Quiet { Quiet(); ~Quiet(); };
}

extern "C" void mc_pause();
