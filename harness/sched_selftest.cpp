// The scheduler has to find the classic bugs in these toy programs, and to accept their correct versions.
// argv: name of the program.  Prints the number of schedules and exits 0 (no violation) or 1.
#include "sched.hpp"
#include "mc.hpp"
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <semaphore>
#include <stop_token>
#include <thread>

int plain;
std::atomic<int> at { 0 };
std::atomic<bool> flag { false };

int main(int argc, char** argv)
{
    mc::init(argc - 1, argv + 1);
    std::string t = argv[1];
    sched::Options o;
    auto none = [] {};
    if (t == "race") sched::explore(t, [] { std::thread a([] { ++plain; }); ++plain; a.join(); }, none, o);
    if (t == "norace") sched::explore(t, [] { std::mutex m; std::thread a([&] { std::lock_guard l(m); ++plain; }); { std::lock_guard l(m); ++plain; } a.join(); }, none, o);
    if (t == "lostupdate") sched::explore(t, [] { at = 0; std::thread a([] { int x = at; at = x + 1; }); int x = at; at = x + 1; a.join(); if (at != 2) mc::fail("lost update"); }, none, o);
    if (t == "update") sched::explore(t, [] { at = 0; std::thread a([] { ++at; }); ++at; a.join(); if (at != 2) mc::fail("lost update"); }, none, o);
    if (t == "deadlock") sched::explore(t, [] { std::mutex m, n; std::thread a([&] { std::lock_guard l(m); std::lock_guard k(n); }); { std::lock_guard l(n); std::lock_guard k(m); } a.join(); }, none, o);
    if (t == "relaxed") sched::explore(t, [] { flag = false; plain = 0; std::thread a([] { plain = 1; flag.store(true, std::memory_order_relaxed); }); if (flag.load(std::memory_order_relaxed)) plain = 2; a.join(); }, none, o);
    if (t == "acqrel") sched::explore(t, [] { flag = false; plain = 0; std::thread a([] { plain = 1; flag.store(true, std::memory_order_release); }); if (flag.load(std::memory_order_acquire)) plain = 2; a.join(); }, none, o);
    if (t == "lostwakeup") sched::explore(t, [] { std::mutex m; std::condition_variable cv; bool go = false; std::thread a([&] { { std::lock_guard l(m); go = true; } cv.notify_one(); }); bool g; { std::lock_guard l(m); g = go; } if (!g) { std::unique_lock l(m); cv.wait(l); } a.join(); }, none, o);
    if (t == "wakeup") sched::explore(t, [] { std::mutex m; std::condition_variable cv; bool go = false; std::thread a([&] { std::lock_guard l(m); go = true; cv.notify_one(); }); { std::unique_lock l(m); cv.wait(l, [&] { return go; }); } a.join(); }, none, o);
    if (t == "uaf") sched::explore(t, [] { auto p = new std::atomic<int>(0); std::thread a([=] { ++*p; }); if (*p == 0) ++*p; delete p; a.join(); }, none, o);
    if (t == "leak") sched::explore(t, [] { static int* volatile p; p = new int(1); }, none, o), sched::explore("leak2", [] { at = 0; std::thread a([] { at = 1; }); if (at) new int; a.join(); }, none, o);
    if (t == "sharedptr") sched::explore(t, [] { auto p = std::make_shared<int>(1); std::thread a([p] { auto q = p; }); p.reset(); a.join(); }, none, o);
    if (t == "spin") sched::explore(t, [] { flag = false; std::thread a([] { flag = true; }); while (!flag) {} a.join(); }, none, o);
    if (t == "spinforever") sched::explore(t, [] { flag = false; std::thread a([] {}); while (!flag) {} a.join(); }, none, o);
    if (t == "sem") sched::explore(t, [] { std::binary_semaphore s { 0 }; plain = 0; std::thread a([&] { plain = 1; s.release(); }); s.acquire(); if (plain != 1) mc::fail("sem"); a.join(); }, none, o);
    if (t == "stop") sched::explore(t, [] { std::stop_source s; std::atomic<int> n { 0 }; std::thread a([&] { s.request_stop(); }); { std::stop_callback cb(s.get_token(), [&] { ++n; }); } a.join(); if (n > 1) mc::fail("twice"); }, none, o);
    if (t == "sleep") sched::explore(t, [] { auto b = std::chrono::steady_clock::now(); std::this_thread::sleep_for(std::chrono::hours(1)); if (std::chrono::steady_clock::now() - b < std::chrono::hours(1)) mc::fail("early"); }, none, o);
    if (t == "timedwait") sched::explore(t, [] { std::mutex m; std::condition_variable cv; bool go = false; std::thread a([&] { std::lock_guard l(m); go = true; cv.notify_one(); }); { std::unique_lock l(m); bool ok = cv.wait_for(l, std::chrono::seconds(5), [&] { return go; }); sched::event(ok); } a.join(); }, [] { mc::outcome(std::to_string(sched::events()[0].code)); }, o);
    if (t == "static") sched::explore(t, [] { auto f = [] { struct X { int v; X() { sched::point(); v = 1; } }; static X x; return x.v; }; std::thread a([=] { f(); }); f(); a.join(); }, none, o);
    printf("%llu schedules, %zu outcomes\n", mc::cnt("executions"), mc::res().outcomes.size());
    return mc::cnt("executions") ? 0 : 2;
}
