// A controlled scheduler for real C++ code.
//
// The code under test is compiled with -fsanitize=thread, but linked with the run-time below instead of libtsan:
// every atomic operation, and every pthread call (this file defines the pthread functions, so libstdc++ uses them
// too), is a scheduling point.  Exactly one thread runs at a time.  All schedules with at most N preemptions are
// enumerated (depth first, stateless).  Plain memory accesses are checked with vector clocks: a conflicting pair that
// is not ordered by the synchronisation of that execution is reported as a data race, so it is enough to switch
// threads at synchronisation operations.  The heap of an execution is an arena whose addresses are not reused:
// an access to freed memory, a double free and a leak are reported.  Time is virtual.
#include "mc.hpp"
#include "sched.hpp"
#include <pthread.h>
#include <sched.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <stdarg.h>
#include <limits.h>

namespace
{
    constexpr int MAXT = 8;
    constexpr size_t STACK = 256 * 1024;
    constexpr size_t ARENA = 32 * 1024 * 1024;

    using u32 = uint32_t;
    using u64 = uint64_t;

    struct VC
    {
        u32 c[MAXT];
        void clear() { memset(c, 0, sizeof c); }
        void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
    };

    enum State { Unused, Runnable, BlockedMutex, BlockedCond, BlockedJoin, BlockedSleep, BlockedFutex, BlockedGuard, Finished };
    const char* state_name(State s)
    {
        static const char* n[] = { "unused", "runnable", "waiting for a mutex", "waiting on a condition variable", "joining", "sleeping", "in a futex wait", "waiting for a static initialisation", "finished" };
        return n[s];
    }

    struct Thread
    {
        int id;
        State st;
        bool yielded;
        bool timed;
        bool timed_out;
        bool detached, joined;
        long deadline;
        const void* obj;
        int join_target;
        pthread_t real;
        void* (*fn)(void*);
        void* arg;
        VC vc, acq, rel;        // acq: joined by an acquire fence; rel: published by relaxed stores after a release fence
        bool has_rel;
        int go;                 // futex word
        int ignore;
        const void* spin_addr;
        u64 spin_val;
        int spin_n;
    };

    struct Cell
    {
        u32 exec;
        u32 w;              // clock of the last write
        uint8_t wt;
        uint8_t freed;      // 1 + thread that freed it
        u32 r[MAXT];
    };

    struct Region { char* base; size_t size; Cell* sh; };

    struct Mutex { const void* p; int owner; int count; VC vc; };
    struct AtomicLoc { VC vc; };

    template <class V>
    struct Table      // open addressing keyed by address; cleared per execution
    {
        struct E { const void* k; u32 exec; V v; };
        std::vector<E> t;
        size_t used = 0;
        u32 gen = 1;
        Table() : t(1 << 14) {}
        void clear() { ++gen; used = 0; }
        V& get(const void* k, bool* fresh = nullptr)
        {
            if (used * 2 > t.size()) mc::fail("internal: table full");
            size_t m = t.size() - 1, i = (reinterpret_cast<u64>(k) * 0x9e3779b97f4a7c15ull >> 20) & m;
            while (t[i].exec == gen && t[i].k != k) i = (i + 1) & m;
            if (fresh) *fresh = t[i].exec != gen;
            if (t[i].exec != gen) { t[i].exec = gen; t[i].k = k; t[i].v = V {}; ++used; }
            return t[i].v;
        }
        template <class F> void each(F f) { for (auto& e : t) if (e.exec == gen) f(e.k, e.v); }
    };

    struct Block { size_t size; bool live; };

    struct Step { int thread; const char* what; const void* addr; };

    struct World
    {
        bool active = false;
        Thread th[MAXT];
        int nth = 0;
        int cur = -1;
        long now = 0;
        int preemptions = 0, spurious = 0, steps = 0;
        int idle_yields = 0;
        sched::Options opt;
        u32 exec = 0;
        Table<Mutex> mutexes;
        Table<AtomicLoc> atoms;
        Table<int> guards;      // owner + 1
        std::vector<Step> log;
        std::vector<sched::Event> ev;
        mc::Dfs dfs;
        std::function<void()>* body = nullptr;
        int done = 0;           // futex word of the controller
        int exec_in_scenario = 0;
    };

    World* gw = nullptr;    // not a guarded static: the guard functions use it
    inline World& W() { return *gw; }

    thread_local Thread* me = nullptr;

    Region heap_r, stack_r, glob_r;
    size_t arena_base = 0, arena_top = 0;
    size_t live_blocks = 0;

    extern "C" char __data_start, _end;

    long raw_futex(int* a, int op, int v)
    {
        long r;
        register long r10 __asm__("r10") = 0;
        __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10) : "rcx", "r11", "memory");
        return r;
    }
    void wait_word(int* a)
    {
        for (int i = 0; i < 200; ++i) { if (__atomic_load_n(a, __ATOMIC_ACQUIRE)) break; __builtin_ia32_pause(); }
        while (!__atomic_load_n(a, __ATOMIC_ACQUIRE)) raw_futex(a, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
        __atomic_store_n(a, 0, __ATOMIC_RELAXED);
    }
    void post_word(int* a)
    {
        __atomic_store_n(a, 1, __ATOMIC_RELEASE);
        raw_futex(a, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
    }

    // ---- real functions ----
    template <class F> F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
#define REAL(name) ([]{ static auto f = real<decltype(&::name)>(#name); return f; }())

    void* map(size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }

    Region make_region(char* b, size_t n) { return { b, n, (Cell*)map(n * sizeof(Cell)) }; }

    void dump()
    {
        if (!gw || !gw->active) return;
        auto& w = W();
        if (me) ++me->ignore;
        size_t from = w.log.size() > 400 ? w.log.size() - 400 : 0;
        int last = -1;
        for (size_t i = from; i < w.log.size(); ++i)
        {
            auto& s = w.log[i];
            mc::trace("%s T%d %s %p", s.thread != last ? "->" : "  ", s.thread, s.what, s.addr);
            last = s.thread;
        }
        for (int i = 0; i < w.nth; ++i) mc::trace("T%d: %s", i, state_name(w.th[i].st));
        for (auto& e : w.ev) mc::trace("event T%d code %d arg %ld at %ld ns", e.thread, e.code, e.arg, e.time);
    }

    [[noreturn]] void violation(const char* fmt, ...)
    {
        char b[512];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        if (me) ++me->ignore;
        mc::fail("%s", b);
    }

    void note(const char* what, const void* a) { auto& l = W().log; if (l.size() == l.capacity()) mc::fail("internal: log full"); l.push_back({ me->id, what, a }); }

    bool eligible(const Thread& t, bool yielded_too) { return t.st == Runnable && (yielded_too || !t.yielded); }

    // Picks the next thread.  Called by the running thread; may_continue: it could go on itself.
    int pick(bool may_continue)
    {
        auto& w = W();
        while (true)
        {
            int list[MAXT * 2 + 4], n = 0;
            bool any = false;
            for (int i = 0; i < w.nth; ++i) if (eligible(w.th[i], false)) any = true;
            if (!any)
            {
                bool runnable = false;
                for (int i = 0; i < w.nth; ++i) if (w.th[i].st == Runnable) runnable = true;
                if (runnable)
                {
                    // Everybody who can run is polling: let time pass if somebody waits for it.
                    bool timer = false;
                    for (int i = 0; i < w.nth; ++i) if (w.th[i].st > Runnable && w.th[i].st < Finished && w.th[i].timed) timer = true;
                    if (++w.idle_yields > 60) violation("livelock: the threads that can run only poll and nothing changes");
                    for (int i = 0; i < w.nth; ++i) w.th[i].yielded = false;
                    if (!timer) continue;
                }
                // Nobody can run: time passes.
                long best = LONG_MAX;
                for (int i = 0; i < w.nth; ++i) if (w.th[i].st > Runnable && w.th[i].st < Finished && w.th[i].timed) best = std::min(best, w.th[i].deadline);
                if (best == LONG_MAX)
                {
                    if (runnable) continue;
                    violation("deadlock: no thread can run");
                }
                if (best > w.now) w.now = best;
                for (int i = 0; i < w.nth; ++i)
                {
                    auto& t = w.th[i];
                    if (t.st > Runnable && t.st < Finished && t.timed && t.deadline <= w.now) { t.st = Runnable; t.timed_out = true; }
                }
                continue;
            }
            bool self = may_continue && me && eligible(*me, false);
            bool budget = !self || w.preemptions < w.opt.preemptions;
            if (self) list[n++] = me->id;
            if (budget)
            {
                for (int i = 0; i < w.nth; ++i) if (!(self && i == me->id) && eligible(w.th[i], false)) list[n++] = i;
            }
            // extra alternatives: a timer expires early, a spurious wake-up
            int timers = 0;
            if (w.opt.early_timeouts && w.preemptions < w.opt.preemptions)
            {
                for (int i = 0; i < w.nth; ++i) if (w.th[i].st > Runnable && w.th[i].st < Finished && w.th[i].timed) { timers = 1; break; }
            }
            int spur[MAXT], ns = 0;
            if (w.spurious < w.opt.spurious)
            {
                for (int i = 0; i < w.nth; ++i) if (w.th[i].st == BlockedCond) spur[ns++] = i;
            }
            int total = n + timers + ns;
            int c = total > 1 ? w.dfs.choose(total) : 0;
            if (c < n)
            {
                if (self && list[c] != me->id) ++w.preemptions;
                return list[c];
            }
            if (c < n + timers)
            {
                ++w.preemptions;
                long best = LONG_MAX;
                for (int i = 0; i < w.nth; ++i) if (w.th[i].st > Runnable && w.th[i].st < Finished && w.th[i].timed) best = std::min(best, w.th[i].deadline);
                if (best > w.now) w.now = best;
                for (int i = 0; i < w.nth; ++i)
                {
                    auto& t = w.th[i];
                    if (t.st > Runnable && t.st < Finished && t.timed && t.deadline <= w.now) { t.st = Runnable; t.timed_out = true; }
                }
                w.log.push_back({ me ? me->id : 0, "(a timer expires)", nullptr });
                continue;
            }
            ++w.spurious;
            w.th[spur[c - n - timers]].st = Runnable;
            w.log.push_back({ spur[c - n - timers], "(spurious wake-up)", nullptr });
        }
    }

    void changed()      // something another thread may be polling for has changed
    {
        auto& w = W();
        for (int i = 0; i < w.nth; ++i) w.th[i].yielded = false;
        w.idle_yields = 0;
    }

    void reschedule(bool may_continue)
    {
        auto& w = W();
        if (++w.steps > w.opt.max_steps) violation("livelock: more than %d steps in one execution", w.opt.max_steps);
        int n = pick(may_continue);
        if (n == me->id) return;
        Thread* self = me;
        w.cur = n;
        post_word(&w.th[n].go);
        wait_word(&self->go);
    }

    void sp(const char* what, const void* a)
    {
        if (!me || me->ignore) return;
        reschedule(true);
        note(what, a);
    }

    // Blocks the calling thread until somebody makes it runnable.
    void block(State s, const void* obj, bool timed = false, long deadline = 0)
    {
        me->st = s;
        me->obj = obj;
        me->timed = timed;
        me->deadline = deadline;
        me->timed_out = false;
        reschedule(false);
        me->timed = false;
    }

    void wake_all(State s, const void* obj)
    {
        auto& w = W();
        for (int i = 0; i < w.nth; ++i) if (w.th[i].st == s && w.th[i].obj == obj) w.th[i].st = Runnable;
    }

    void tick() { ++me->vc.c[me->id]; }

    // ---- memory accesses ----
    Cell* cell(const void* a)
    {
        auto p = (char*)a;
        if (p >= heap_r.base && p < heap_r.base + arena_top) return heap_r.sh + (p - heap_r.base);
        if (p >= stack_r.base && p < stack_r.base + stack_r.size) return stack_r.sh + (p - stack_r.base);
        if (p >= glob_r.base && p < glob_r.base + glob_r.size) return glob_r.sh + (p - glob_r.base);
        return nullptr;
    }

    void check_freed(const void* a, const char* what)
    {
        if (!me || me->ignore) return;
        Cell* c = cell(a);
        if (c && c->exec == W().exec && c->freed) violation("%s an object in freed memory (freed by T%d, used by T%d)", what, c->freed - 1, me->id);
    }

    void access(const void* a, size_t n, bool write)
    {
        if (!me || me->ignore) return;
        Cell* c = cell(a);
        if (!c) return;
        const u32 ex = W().exec;
        const int t = me->id;
        const u32 clk = me->vc.c[t];
        for (size_t i = 0; i < n; ++i, ++c)
        {
            if (c->exec != ex) { memset(c, 0, sizeof *c); c->exec = ex; c->wt = 255; }
            if (c->freed) violation("%s of freed memory at %p (freed by T%d, used by T%d)", write ? "write" : "read", (char*)a + i, c->freed - 1, t);
            if (c->wt != 255 && c->wt != t && c->w > me->vc.c[c->wt])
                violation("data race at %p: write by T%d and %s by T%d are not ordered", (char*)a + i, c->wt, write ? "write" : "read", t);
            if (write)
            {
                for (int k = 0; k < MAXT; ++k)
                    if (k != t && c->r[k] > me->vc.c[k]) violation("data race at %p: read by T%d and write by T%d are not ordered", (char*)a + i, k, t);
                c->w = clk;
                c->wt = t;
            }
            else c->r[t] = clk;
        }
    }

    // An atomic access conflicts with plain accesses only.
    void atomic_check(const void* a, size_t n, bool write)
    {
        Cell* c = cell(a);
        if (!c) return;
        const u32 ex = W().exec;
        for (size_t i = 0; i < n; ++i, ++c)
        {
            if (c->exec != ex) continue;
            if (c->freed) violation("atomic access to freed memory at %p (freed by T%d, used by T%d)", (char*)a + i, c->freed - 1, me->id);
            if (c->wt != 255 && c->wt != me->id && c->w > me->vc.c[c->wt])
                violation("data race at %p: plain write by T%d and atomic access by T%d are not ordered", (char*)a + i, c->wt, me->id);
            if (write) for (int k = 0; k < MAXT; ++k)
                if (k != me->id && c->r[k] > me->vc.c[k]) violation("data race at %p: plain read by T%d and atomic write by T%d are not ordered", (char*)a + i, k, me->id);
        }
    }

    bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
    bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

    void sync_load(const void* a, int mo)
    {
        auto& l = W().atoms.get(a);
        if (is_acq(mo)) me->vc.join(l.vc);
        else me->acq.join(l.vc);
    }
    void sync_store(const void* a, int mo, bool rmw)
    {
        auto& l = W().atoms.get(a);
        if (!rmw) l.vc.clear();
        if (is_rel(mo)) { l.vc.join(me->vc); tick(); }
        else if (me->has_rel) l.vc.join(me->rel);
        changed();
    }

    // A thread that keeps reading the same value from one place is polling.
    void poll_check(const void* a, u64 v)
    {
        if (me->spin_addr == a && me->spin_val == v) { if (++me->spin_n >= 4) { me->yielded = true; me->spin_n = 0; } }
        else { me->spin_addr = a; me->spin_val = v; me->spin_n = 0; }
    }
    void progress() { me->spin_addr = nullptr; }

    template <class T> T a_load(const volatile T* a, int mo)
    {
        if (!me || me->ignore) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
        sp("atomic load", (const void*)a);
        atomic_check((const void*)a, sizeof(T), false);
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);
        sync_load((const void*)a, mo);
        poll_check((const void*)a, (u64)v);
        return v;
    }
    template <class T> void a_store(volatile T* a, T v, int mo)
    {
        if (!me || me->ignore) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; }
        sp("atomic store", (const void*)a);
        atomic_check((const void*)a, sizeof(T), true);
        sync_store((const void*)a, mo, false);
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
        progress();
    }
    template <class T, class F> T a_rmw(volatile T* a, int mo, F f)
    {
        if (!me || me->ignore)
        {
            T o = __atomic_load_n(a, __ATOMIC_SEQ_CST);
            while (!__atomic_compare_exchange_n(a, &o, f(o), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
            return o;
        }
        sp("atomic read-modify-write", (const void*)a);
        atomic_check((const void*)a, sizeof(T), true);
        T o = *a;
        sync_load((const void*)a, mo);
        sync_store((const void*)a, mo, true);
        *a = f(o);
        progress();
        return o;
    }
    template <class T> bool a_cas(volatile T* a, T* e, T d, int mo, int fmo)
    {
        if (!me || me->ignore) return __atomic_compare_exchange_n(a, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
        sp("atomic compare-exchange", (const void*)a);
        atomic_check((const void*)a, sizeof(T), true);
        T o = *a;
        if (o == *e)
        {
            sync_load((const void*)a, mo);
            sync_store((const void*)a, mo, true);
            *a = d;
            progress();
            return true;
        }
        sync_load((const void*)a, fmo);
        *e = o;
        poll_check((const void*)a, (u64)o);
        return false;
    }

    // ---- thread start ----
    void finish_thread()
    {
        auto& w = W();
        Thread* self = me;
        note("thread ends", nullptr);
        changed();
        tick();
        self->st = Finished;
        for (int i = 0; i < w.nth; ++i) if (w.th[i].st == BlockedJoin && w.th[i].join_target == self->id) w.th[i].st = Runnable;
        w.mutexes.each([&](const void*, Mutex& m) { if (m.owner == self->id + 1) violation("a thread ends while it holds a mutex"); });
        if (self->id == 0)
        {
            for (int i = 1; i < w.nth; ++i)
                if (w.th[i].st != Finished) violation("T%d is still %s when the program ends", i, state_name(w.th[i].st));
            for (int i = 1; i < w.nth; ++i)
                if (!w.th[i].joined && !w.th[i].detached) violation("T%d has never been joined", i);
            me = nullptr;
            post_word(&w.done);
            return;
        }
        int n = pick(false);
        me = nullptr;
        w.cur = n;
        post_word(&w.th[n].go);
    }

    void* trampoline(void* p)
    {
        Thread* t = (Thread*)p;
        sigset_t ss;
        sigemptyset(&ss);
        sigaddset(&ss, SIGPROF);
        pthread_sigmask(SIG_BLOCK, &ss, nullptr);
        wait_word(&t->go);
        me = t;
        if (t->id == 0)
        {
            (*W().body)();
            // The process goes on until its detached threads have ended.
            for (int i = 1; i < W().nth; ++i)
            {
                Thread& d = W().th[i];
                while (d.detached && d.st != Finished) { t->join_target = i; block(BlockedJoin, &d); }
            }
        }
        else t->fn(t->arg);
        ++t->ignore;
        finish_thread();
        return nullptr;
    }

    int spawn(void* (*fn)(void*), void* arg)
    {
        auto& w = W();
        if (w.nth == MAXT) mc::fail("internal: too many threads");
        Thread& t = w.th[w.nth];
        int id = w.nth;
        memset((void*)&t, 0, sizeof t);
        t.id = id;
        t.st = Runnable;
        t.fn = fn;
        t.arg = arg;
        if (me) { t.vc = me->vc; tick(); }
        t.vc.c[id] = 1;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, stack_r.base + id * STACK, STACK);
        static auto create = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
        int r = create(&t.real, &at, trampoline, &t);
        pthread_attr_destroy(&at);
        if (r) mc::fail("internal: cannot create a thread (%d)", r);
        ++w.nth;
        return id;
    }

    bool managed() { return me && !me->ignore; }

    void* arena_alloc(size_t n, size_t al)
    {
        if (al < 16) al = 16;
        size_t p = (arena_top + sizeof(Block) + al + 15) & ~(al - 1);
        // 16 guard bytes between blocks
        if (p + n + 32 > ARENA) mc::fail("internal: arena exhausted");
        Block* b = (Block*)(heap_r.base + p - sizeof(Block));
        b->size = n;
        b->live = true;
        arena_top = p + n + 16;
        ++live_blocks;
        memset(heap_r.base + p, 0xcd, n);
        return heap_r.base + p;
    }

    void arena_free(void* p)
    {
        Block* b = (Block*)((char*)p - sizeof(Block));
        if (!b->live) violation("double free");
        b->live = false;
        --live_blocks;
        if (!me) return;
        auto& w = W();
        bool ig = me->ignore;
        if (!ig)
        {
            // Freeing conflicts with every access that is not ordered before it.
            access(p, b->size, true);
            w.mutexes.each([&](const void* a, Mutex& m) { if (a >= p && a < (char*)p + b->size && m.owner) violation("a mutex is destroyed while T%d holds it", m.owner - 1); });
            for (int i = 0; i < w.nth; ++i)
            {
                auto& t = w.th[i];
                if ((t.st == BlockedCond || t.st == BlockedMutex || t.st == BlockedFutex) && t.obj >= p && t.obj < (char*)p + b->size) violation("memory is freed while T%d is %s in it", i, state_name(t.st));
            }
        }
        Cell* c = cell(p);
        for (size_t i = 0; i < b->size; ++i) { if (c[i].exec != w.exec) { memset(&c[i], 0, sizeof *c); c[i].exec = w.exec; } c[i].wt = 255; c[i].freed = me->id + 1; }
    }

    void setup()
    {
        static bool done = false;
        if (done) return;
        done = true;
        gw = new World;
        // Nothing of the scheduler allocates while an execution runs.
        gw->log.reserve(1 << 17);
        gw->ev.reserve(1 << 16);
        gw->dfs.path.reserve(1 << 16);
        heap_r = make_region((char*)map(ARENA), ARENA);
        stack_r = make_region((char*)map(STACK * MAXT), STACK * MAXT);
        glob_r = make_region(&__data_start, &_end - &__data_start);
        mc::g_before_fail = dump;
    }
}

namespace sched
{
    void explore(const std::string& name, std::function<void()> body, std::function<void()> after, Options o)
    {
        setup();
        if (!mc::begin_scenario(name)) return;
        auto& w = W();
        w.opt = o;
        w.body = &body;
        w.dfs.path.clear();
        w.exec_in_scenario = 0;
        static auto rjoin = real<int (*)(pthread_t, void**)>("pthread_join");
        bool warm = true;
        auto mine = [&](bool count)
        {
            // Sharding: by the first two choices that are not the default; schedules with fewer are run by every shard,
            // because the others grow from them, and counted by one.
            if (mc::cfg().shards == 1) return true;
            uint64_t h = 1;
            int n = 0;
            for (size_t i = 0; i < w.dfs.path.size() && n < 2; ++i)
                if (w.dfs.path[i].chosen) { h = mc::mix(h, i * 131 + 7 + w.dfs.path[i].chosen * 100003ull); ++n; }
            if (n < 2 && !count) return true;
            return int(h % mc::cfg().shards) == mc::cfg().shard;
        };
        bool more = true;
        bool cut = false;
        while (more)
        {
            const size_t prefix = w.dfs.path.size();
            w.dfs.begin();
            w.nth = 0;
            w.now = 0;
            w.preemptions = w.spurious = w.steps = w.idle_yields = 0;
            ++w.exec;
            w.mutexes.clear();
            w.atoms.clear();
            w.guards.clear();
            w.log.clear();
            w.ev.clear();
            w.done = 0;
            arena_top = arena_base;
            size_t live0 = live_blocks;
            w.active = true;
            spawn(nullptr, nullptr);
            w.cur = 0;
            post_word(&w.th[0].go);
            wait_word(&w.done);
            for (int i = 0; i < w.nth; ++i) rjoin(w.th[i].real, nullptr);
            ++mc::g_progress;
            if (!warm && o.leaks && live_blocks != live0) mc::fail("%zu memory blocks allocated during the execution are never released", live_blocks - live0);
            if (after) after();
            w.active = false;
            if (warm)
            {
                // Lazily created statics of the first execution stay where they are.
                warm = false;
                arena_base = arena_top;
                live0 = live_blocks;
            }
            if (mine(true))
            {
                ++mc::cnt("executions");
                mc::cnt("transitions") += w.steps;
                mc::cnt("states") += w.dfs.pos + 1 - std::min(w.dfs.pos, prefix);   // scheduling decisions seen for the first time
            }
            auto& mx = mc::cnt("max_steps");
            mx = std::max<unsigned long long>(mx, w.steps);
            auto& mt = mc::cnt("max_threads");
            mt = std::max<unsigned long long>(mt, w.nth);
            if (w.exec % 4001 == 3)
            {
                std::string s = name + ": schedule";
                int last = -1;
                for (auto& st : w.log) if (st.thread != last) { s += " T" + std::to_string(st.thread) + ":" + st.what; last = st.thread; if (s.size() > 500) break; }
                mc::sample(s);
            }
            if ((w.exec & 63) == 0 && mc::over_budget())
            {
                mc::res().capped.push_back(name + ": time budget reached");
                cut = true;
                break;
            }
            if (w.exec_in_scenario++ == 0) continue;     // the default schedule once more, with the statics in place
            do { more = w.dfs.next(); } while (more && !mine(false));
        }
        if (!cut) ++mc::cnt("scenarios_completed");
        if (getenv("MC_VERBOSE")) fprintf(stderr, "%8.1f s %9d executions: %s\n", mc::now_s() - mc::g_start, w.exec_in_scenario, name.c_str());
    }

    void event(int code, long arg) { auto& w = W(); if (w.ev.size() == w.ev.capacity()) mc::fail("internal: event log full"); w.ev.push_back({ me ? me->id : -1, code, arg, w.now }); }
    const std::vector<Event>& events() { return W().ev; }
    int choose(int n) { return n > 1 ? W().dfs.choose(n) : 0; }
    void point() { sp("point", nullptr); }
    void yield() { sched_yield(); }
    long now_ns() { return W().now; }
    int self() { return me ? me->id : -1; }
    bool running() { return me != nullptr; }
    Quiet::Quiet() { if (me) ++me->ignore; }
    Quiet::~Quiet() { if (me) --me->ignore; }
}

// ---- memory ----
void* operator new(size_t n) { if (managed()) return arena_alloc(n, 16); void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new(size_t n, std::align_val_t a) { if (managed()) return arena_alloc(n, (size_t)a); return aligned_alloc((size_t)a, (n + (size_t)a - 1) & ~((size_t)a - 1)); }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept
{
    if (!p) return;
    if ((char*)p >= heap_r.base && (char*)p < heap_r.base + ARENA) arena_free(p);
    else free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { operator delete(p); }

extern "C"
{
    // ---- instrumentation ----
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
#define ACC(n) \
    void __tsan_read##n(void* a) { access(a, n, false); } \
    void __tsan_write##n(void* a) { access(a, n, true); } \
    void __tsan_unaligned_read##n(void* a) { access(a, n, false); } \
    void __tsan_unaligned_write##n(void* a) { access(a, n, true); } \
    void __tsan_volatile_read##n(void* a) { access(a, n, false); } \
    void __tsan_volatile_write##n(void* a) { access(a, n, true); } \
    void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, false); } \
    void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, true); }
    ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
    void __tsan_read_range(void* a, size_t n) { access(a, n, false); }
    void __tsan_write_range(void* a, size_t n) { access(a, n, true); }
    void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(a, sizeof *a, true); }
    void __tsan_vptr_read(void** a) { access(a, sizeof *a, false); }

#define ATOM(n, T) \
    T __tsan_atomic##n##_load(const volatile T* a, int mo) { return a_load<T>(a, mo); } \
    void __tsan_atomic##n##_store(volatile T* a, T v, int mo) { a_store<T>(a, v, mo); } \
    T __tsan_atomic##n##_exchange(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, [=](T) { return v; }); } \
    T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, [=](T o) { return T(o + v); }); } \
    T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, [=](T o) { return T(o - v); }); } \
    T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, [=](T o) { return T(o & v); }); } \
    T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, [=](T o) { return T(o | v); }); } \
    T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, [=](T o) { return T(o ^ v); }); } \
    T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, [=](T o) { return T(~(o & v)); }); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T d, int mo, int fmo) { return a_cas<T>(a, e, d, mo, fmo); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T d, int mo, int fmo) { return a_cas<T>(a, e, d, mo, fmo); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T d, int mo, int fmo) { a_cas<T>(a, &e, d, mo, fmo); return e; }
    ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
    void __tsan_atomic_thread_fence(int mo)
    {
        if (!managed()) return;
        sp("fence", nullptr);
        if (is_acq(mo)) me->vc.join(me->acq);
        if (is_rel(mo)) { me->rel = me->vc; me->has_rel = true; tick(); }
    }
    void __tsan_atomic_signal_fence(int) {}

    // ---- polling ----
    void mc_pause() { if (managed()) { me->yielded = true; me->spin_addr = nullptr; sp("pause", nullptr); } }
    int sched_yield() noexcept
    {
        if (managed()) { me->yielded = true; me->spin_addr = nullptr; sp("yield", nullptr); return 0; }
        return REAL(sched_yield)();
    }

    // ---- mutexes ----
    static int lock_common(pthread_mutex_t* m, bool wait, bool timed = false, long deadline = 0)
    {
        auto& w = W();
        check_freed(m, "lock of");
        const bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
        while (true)
        {
            Mutex& x = w.mutexes.get(m);
            if (x.owner == 0)
            {
                x.owner = me->id + 1;
                x.count = 1;
                me->vc.join(x.vc);
                progress();
                return 0;
            }
            if (x.owner == me->id + 1)
            {
                if (rec) { ++x.count; return 0; }
                if (!wait) return EBUSY;
                violation("T%d locks a mutex it already holds", me->id);
            }
            if (!wait) return EBUSY;
            block(BlockedMutex, m, timed, deadline);
            if (timed && me->timed_out) return ETIMEDOUT;
            note("mutex lock (after waiting)", m);
        }
    }
    static int unlock_common(pthread_mutex_t* m)
    {
        auto& w = W();
        check_freed(m, "unlock of");
        Mutex& x = w.mutexes.get(m);
        if (x.owner != me->id + 1) violation("T%d unlocks a mutex it does not hold", me->id);
        if (--x.count) return 0;
        x.owner = 0;
        x.vc = me->vc;
        tick();
        wake_all(BlockedMutex, m);
        changed();
        return 0;
    }
    int pthread_mutex_lock(pthread_mutex_t* m) noexcept
    {
        if (!managed()) return REAL(pthread_mutex_lock)(m);
        sp("mutex lock", m);
        return lock_common(m, true);
    }
    int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
    {
        if (!managed()) return REAL(pthread_mutex_trylock)(m);
        sp("mutex trylock", m);
        return lock_common(m, false);
    }
    int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
    {
        if (!managed()) return REAL(pthread_mutex_unlock)(m);
        note("mutex unlock", m);
        return unlock_common(m);
    }
    int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
    {
        if (managed() && W().mutexes.get(m).owner) violation("a mutex is destroyed while T%d holds it", W().mutexes.get(m).owner - 1);
        return 0;
    }

    // ---- condition variables ----
    static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, long deadline)
    {
        sp("condition wait", c);
        check_freed(c, "wait on");
        note("mutex unlock (wait)", m);
        Mutex& x = W().mutexes.get(m);
        if (x.owner != me->id + 1) violation("condition wait without holding the mutex");
        int count = x.count;
        x.count = 1;
        unlock_common(m);
        progress();
        if (timed && deadline <= W().now) { me->st = BlockedCond; me->timed = true; me->deadline = deadline; me->obj = c; me->timed_out = false; reschedule(false); me->timed = false; }
        else block(BlockedCond, c, timed, deadline);
        bool to = me->timed_out;
        note(to ? "wait times out" : "wait ends", c);
        lock_common(m, true);
        W().mutexes.get(m).count = count;
        return to ? ETIMEDOUT : 0;
    }
    static long to_ns(const timespec* t) { return (t->tv_sec - 1000) * 1000000000L + t->tv_nsec; }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (!managed()) return REAL(pthread_cond_wait)(c, m);
        return cond_wait(c, m, false, 0);
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
    {
        if (!managed()) return REAL(pthread_cond_timedwait)(c, m, t);
        return cond_wait(c, m, true, to_ns(t));
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t)
    {
        if (!managed()) return REAL(pthread_cond_clockwait)(c, m, k, t);
        return cond_wait(c, m, true, to_ns(t));
    }
    int pthread_cond_signal(pthread_cond_t* c) noexcept
    {
        if (!managed()) return REAL(pthread_cond_signal)(c);
        sp("notify one", c);
        check_freed(c, "notification of");
        auto& w = W();
        int ws[MAXT], n = 0;
        for (int i = 0; i < w.nth; ++i) if (w.th[i].st == BlockedCond && w.th[i].obj == c) ws[n++] = i;
        if (n) { int k = n > 1 ? w.dfs.choose(n) : 0; w.th[ws[k]].st = Runnable; changed(); }
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t* c) noexcept
    {
        if (!managed()) return REAL(pthread_cond_broadcast)(c);
        sp("notify all", c);
        check_freed(c, "notification of");
        wake_all(BlockedCond, c);
        changed();
        return 0;
    }
    int pthread_cond_destroy(pthread_cond_t* c) noexcept
    {
        if (!managed()) return REAL(pthread_cond_destroy)(c);
        auto& w = W();
        for (int i = 0; i < w.nth; ++i) if (w.th[i].st == BlockedCond && w.th[i].obj == c) violation("a condition variable is destroyed while T%d waits on it", i);
        return 0;
    }

    // ---- threads ----
    int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) noexcept
    {
        if (!managed()) return REAL(pthread_create)(t, at, fn, arg);
        sp("thread create", nullptr);
        int id = spawn(fn, arg);
        *t = W().th[id].real;
        changed();
        return 0;
    }
    static Thread* find(pthread_t t)
    {
        auto& w = W();
        for (int i = 0; i < w.nth; ++i) if (pthread_equal(w.th[i].real, t)) return &w.th[i];
        return nullptr;
    }
    int pthread_join(pthread_t t, void** r)
    {
        if (!managed()) return REAL(pthread_join)(t, r);
        sp("thread join", nullptr);
        Thread* x = find(t);
        if (!x || x->joined || x->detached) violation("join of a thread that is not joinable");
        if (x == me) violation("a thread joins itself");
        while (x->st != Finished) { me->join_target = x->id; block(BlockedJoin, x); }
        x->joined = true;
        me->vc.join(x->vc);
        progress();
        return 0;
    }
    int pthread_detach(pthread_t t) noexcept
    {
        if (!managed()) return REAL(pthread_detach)(t);
        Thread* x = find(t);
        if (!x || x->joined || x->detached) violation("detach of a thread that is not joinable");
        x->detached = true;
        return 0;
    }

    // ---- time ----
    static int rsys(long n, long a, long b, long c, long d = 0, long e = 0, long f = 0, long* out = nullptr)
    {
        long r;
        register long r10 __asm__("r10") = d;
        register long r8 __asm__("r8") = e;
        register long r9 __asm__("r9") = f;
        __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        if (out) *out = r;
        return (int)r;
    }
    int clock_gettime(clockid_t c, timespec* t) noexcept
    {
        if (!me)
        {
            return rsys(SYS_clock_gettime, c, (long)t, 0);
        }
        long n = W().now;
        t->tv_sec = 1000 + n / 1000000000L;
        t->tv_nsec = n % 1000000000L;
        return 0;
    }
    static void sleep_until_ns(long dl)
    {
        sp("sleep", nullptr);
        block(BlockedSleep, nullptr, true, dl);
        progress();
    }
    int nanosleep(const timespec* t, timespec* rem)
    {
        if (!managed()) return REAL(nanosleep)(t, rem);
        sleep_until_ns(W().now + t->tv_sec * 1000000000L + t->tv_nsec);
        return 0;
    }
    int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* rem)
    {
        if (!managed()) return REAL(clock_nanosleep)(c, fl, t, rem);
        sleep_until_ns(fl == TIMER_ABSTIME ? to_ns(t) : W().now + t->tv_sec * 1000000000L + t->tv_nsec);
        return 0;
    }
    int usleep(unsigned us) { timespec t { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return nanosleep(&t, nullptr); }

    // ---- futexes (std::atomic::wait, std::binary_semaphore) ----
    long syscall(long n, ...) noexcept
    {
        va_list ap;
        va_start(ap, n);
        long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
        va_end(ap);
        if (n == SYS_futex && managed())
        {
            int op = (int)b & 127;
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
            {
                sp("futex wait", (void*)a);
                check_freed((void*)a, "futex wait on");
                if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
                bool timed = d != 0;
                long dl = 0;
                if (timed) { auto t = (const timespec*)d; dl = op == FUTEX_WAIT_BITSET ? to_ns(t) : W().now + t->tv_sec * 1000000000L + t->tv_nsec; }
                progress();
                block(BlockedFutex, (void*)a, timed, dl);
                if (timed && me->timed_out) { errno = ETIMEDOUT; return -1; }
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
            {
                sp("futex wake", (void*)a);
                auto& w = W();
                int ws[MAXT], k = 0;
                for (int i = 0; i < w.nth; ++i) if (w.th[i].st == BlockedFutex && w.th[i].obj == (void*)a) ws[k++] = i;
                int woken = 0;
                if (c >= k) { for (int i = 0; i < k; ++i) w.th[ws[i]].st = Runnable; woken = k; }
                else if (k) { int i = k > 1 ? w.dfs.choose(k) : 0; w.th[ws[i]].st = Runnable; woken = 1; }
                if (woken) changed();
                return woken;
            }
            mc::fail("internal: futex operation %d is not modelled", op);
        }
        long r;
        rsys(n, a, b, c, d, e, f, &r);
        if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
        return r;
    }

    // ---- once-only initialisation ----
    int __cxa_guard_acquire(long long* g)
    {
        auto* done = (uint8_t*)g;
        if (!managed())
        {
            if (*done) return 0;
            return 1;
        }
        sp("static initialisation", g);
        auto& w = W();
        while (true)
        {
            if (__atomic_load_n(done, __ATOMIC_ACQUIRE)) { me->vc.join(w.atoms.get(g).vc); return 0; }
            int& o = w.guards.get(g);
            if (o == 0) { o = me->id + 1; return 1; }
            block(BlockedGuard, g);
        }
    }
    void __cxa_guard_release(long long* g)
    {
        __atomic_store_n((uint8_t*)g, 1, __ATOMIC_RELEASE);
        if (!me) return;
        W().guards.get(g) = 0;
        W().atoms.get(g).vc.join(me->vc);
        tick();
        wake_all(BlockedGuard, g);
        changed();
    }
    void __cxa_guard_abort(long long* g)
    {
        if (!me) return;
        W().guards.get(g) = 0;
        wake_all(BlockedGuard, g);
        changed();
    }
    int pthread_once(pthread_once_t* o, void (*f)(void))
    {
        if (!managed()) return REAL(pthread_once)(o, f);
        sp("once", o);
        auto& w = W();
        while (true)
        {
            if (*o == 2) { me->vc.join(w.atoms.get(o).vc); return 0; }
            if (*o == 0) break;
            block(BlockedGuard, o);
        }
        *o = 1;
        struct Undo { pthread_once_t* o; bool ok = false; ~Undo() { *o = ok ? 2 : 0; auto& w = W(); w.atoms.get(o).vc.join(me->vc); tick(); wake_all(BlockedGuard, o); changed(); } } u { o };
        f();
        u.ok = true;
        return 0;
    }
}
