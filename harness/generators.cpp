// G01: awl::generator and awl::async_generator: every producer script against every consumer script.
#include "heap.hpp"
#include "coro.hpp"
#include "Awl/Coro/Generator.h"
#include "Awl/Coro/AsyncGenerator.h"
#include <memory>
#include <ranges>

using namespace cor;
static int g_manip = 1;

namespace
{
    // A producer script: 'L' yields a named object, 'R' a temporary, 'T' throws, 'S' passes on a nested script,
    // 'C' does so and yields 90 if the nested one threw, 'F' passes on fmap over the nested one (it adds 100 and throws
    // at its second value), 'G' suspends at a gate (async only), 'Q' returns.
    struct Script { std::string ops; std::string nested; };

    struct Want { std::vector<int> values; int end = 0; };   // end: 0 = end of sequence, else the exception

    void expand(const std::string& ops, const std::string& nested, int base, Want& w)
    {
        int n = base;
        for (char c : ops)
        {
            ++n;
            switch (c)
            {
            case 'L': case 'R': w.values.push_back(n); break;
            case 'T': w.end = n; return;
            case 'Q': return;
            case 'S': expand(nested, "", n * 10, w); if (w.end) return; break;
            case 'C': expand(nested, "", n * 10, w); if (w.end) { w.end = 0; w.values.push_back(90); } break;
            case 'F':
            {
                Want i;
                expand(nested, "", n * 10, i);
                for (size_t k = 0; k < i.values.size(); ++k) { if (k == 1) { w.end = 77; return; } w.values.push_back(i.values[k] + 100); }
                if (i.end) { w.end = i.end; return; }
                break;
            }
            }
        }
    }

    void leak() { if (mc::heap::count()) mc::fail("%zu allocations (coroutine frames) leaked", mc::heap::count()); }

    int pick(mc::Dfs& d, int n) { mc::heap::Untrack u; return d.choose(n); }

    struct Add   // the function of fmap: counts its instances
    {
        Val keep{ 0 };
        int calls = 0;
        template <class X> Val operator()(X&& x) { keep.get(); if (calls++ == 1) throw Boom{ 77 }; return Val(x.get() + 100); }
    };

    template <class T>
    awl::generator<T> produce(std::string ops, std::string nested, int base, int* locals, Val param, bool copied = false)
    {
        Val local(1000, locals);
        int n = base;
        for (char c : ops)
        {
            ++n;
            local.get(); param.get();
            switch (c)
            {
            case 'L':
                if constexpr (std::is_rvalue_reference_v<T>) { Val x(n, locals); co_yield std::move(x); }
                else
                {
                    Val x(n, locals);
                    co_yield x;
                    if constexpr (!std::is_const_v<std::remove_reference_t<T>>) { if (x.get() != (copied ? n : -n)) mc::fail("a change made through the reference got lost"); }
                }
                break;
            case 'R': co_yield Val(n, locals); break;
            case 'T': throw Boom{ n };
            case 'Q': co_return;
            case 'S':
            {
                auto sub = produce<T>(nested, "", n * 10, locals, Val(5));
                for (auto&& v : sub) co_yield static_cast<decltype(v)>(v);
                break;
            }
            case 'C':
            {
                bool caught = false;
                try
                {
                    auto sub = produce<T>(nested, "", n * 10, locals, Val(5));
                    for (auto&& v : sub) co_yield static_cast<decltype(v)>(v);
                }
                catch (const Boom&) { caught = true; }
                if (caught) co_yield Val(90, locals);
                break;
            }
            case 'F':
            {
                auto sub = awl::fmap(Add{}, produce<T>(nested, "", n * 10, locals, Val(5), true));
                for (auto&& v : sub) { Val c(v.get(), locals); co_yield std::move(c); }
                break;
            }
            }
        }
    }

    std::vector<std::string> words(const std::string& alphabet, int maxlen)
    {
        std::vector<std::string> all{ "" };
        for (size_t from = 0, len = 0; (int)len < maxlen; ++len)
        {
            size_t to = all.size();
            for (size_t i = from; i < to; ++i)
            {
                if (!all[i].empty() && (all[i].back() == 'T' || all[i].back() == 'Q')) continue;
                for (char c : alphabet) all.push_back(all[i] + c);
            }
            from = to;
        }
        return all;
    }

    template <class T>
    struct Slot
    {
        awl::generator<T> g;
        typename awl::generator<T>::iterator it;
        Want want;
        int* locals = nullptr;
        size_t pos = 0;
        int state = 0;       // 0 empty, 1 not started, 2 at a value, 3 finished or thrown
    };

    template <class T>
    void check_at(Slot<T>& s)
    {
        // After begin() or ++ returned normally.
        if (s.pos < s.want.values.size())
        {
            if (s.it == s.g.end() || s.g.end() == s.it || !(s.it != s.g.end())) mc::fail("the sequence ended before value %d", s.want.values[s.pos]);
            int got = (*s.it).get(), again = got;
            if constexpr (!std::is_rvalue_reference_v<T>) again = s.it->get();
            if (got != s.want.values[s.pos] || again != got) mc::fail("value %zu is %d, the producer yielded %d", s.pos, got, s.want.values[s.pos]);
            s.state = 2;
            mc::cnt("values") += 1;
        }
        else
        {
            if (s.want.end) mc::fail("the exception %d of the producer was not passed on", s.want.end);
            if (!(s.it == s.g.end()) || s.it != s.g.end()) mc::fail("the sequence did not end after %zu values", s.pos);
            s.state = 3;
        }
        if (s.state == 3 && *s.locals) mc::fail("%d local objects of a finished producer are alive", *s.locals);
    }
    template <class T>
    void thrown(Slot<T>& s, int id)
    {
        if (s.pos != s.want.values.size() || id != s.want.end) mc::fail("exception %d after %zu values; the producer throws %d after %zu", id, s.pos, s.want.end, s.want.values.size());
        s.state = 3;
        if (*s.locals) mc::fail("%d local objects of a producer that threw are alive", *s.locals);
        mc::cnt("exceptions") += 1;
    }

    template <class T>
    void consumer(const std::vector<std::string>& mains, const std::vector<std::string>& nest, int depth, int shape)
    {
        mc::Dfs d;
        d.run([&](mc::Dfs& d)
        {
            const std::string m0 = mains[pick(d, (int)mains.size())];
            const bool uses = m0.find_first_of("SCF") != std::string::npos;
            const std::string n0 = uses ? nest[pick(d, (int)nest.size())] : "";
            if (!d.mine()) return;
            mc::trace("producer A: \"%s\", nested \"%s\"; producer B: \"LR\"", m0.c_str(), n0.c_str());
            int locals[3] = { 0, 0, 0 };
            {
                mc::heap::Track t;
                Slot<T> s[2];
                s[0].locals = &locals[0]; s[1].locals = &locals[1];
                expand(m0, n0, 0, s[0].want);
                expand("LR", "", 50, s[1].want);
                s[0].g = produce<T>(m0, n0, 0, &locals[0], Val(5)); s[0].state = 1;
                if (shape) { s[1].g = produce<T>("LR", "", 50, &locals[1], Val(6)); s[1].state = 1; }
                auto step = [&](Slot<T>& x, int how)
                {
                    if (x.state == 2)
                    {
                        if constexpr (std::is_rvalue_reference_v<T>) { Val mv = *x.it; mv.get(); }
                        else if constexpr (!std::is_const_v<std::remove_reference_t<T>>) (*x.it).v = -(*x.it).v;
                    }
                    bool first = x.state == 1;
                    if (!first) ++x.pos;
                    try
                    {
                        if (first) x.it = x.g.begin();
                        else if (how) x.it++;
                        else { auto& r = ++x.it; if (&r != &x.it) mc::fail("++ does not return the iterator"); }
                    }
                    catch (const Boom& b) { thrown(x, b.id); return; }
                    check_at(x);
                };
                int manip = shape ? 3 : 0;
                for (int k = 0; k < depth; ++k)
                {
                    enum { Stop, Step0, Post0, Step1, MoveCtor, Assign01, Assign10, Swap, Reset0, SelfAssign, N };
                    static const char* names[] = { "stop", "advance A", "advance A (post)", "advance B", "move A away and back", "A = move(B)", "B = move(A)", "swap", "A = {}", "A = move(A)" };
                    mc::heap::Untrack u;
                    std::vector<int> ops{ Stop };
                    ops.reserve(16);
                    if (s[0].state == 1 || s[0].state == 2) ops.push_back(Step0);
                    if (s[0].state == 2 && s[0].pos == 1) ops.push_back(Post0);
                    const bool may = shape ? manip > 0 : manip < g_manip;
                    if (shape)
                    {
                        if (s[1].state == 1 || s[1].state == 2) ops.push_back(Step1);
                        if (may) for (int o : { (int)Assign01, (int)Assign10, (int)Swap }) ops.push_back(o);
                    }
                    if (may) { ops.push_back(MoveCtor); ops.push_back(Reset0); ops.push_back(SelfAssign); }
                    int op = ops[pick(d, (int)ops.size())];
                    mc::trace("%s", names[op]);
                    mc::cnt("transitions") += 1;
                    if (op == Stop) break;
                    if (op != Step0 && op != Post0 && op != Step1) manip += shape ? -1 : 1;
                    mc::heap::Track t2;
                    auto info_swap = [](Slot<T>& a, Slot<T>& b) { std::swap(a.it, b.it); std::swap(a.want, b.want); std::swap(a.pos, b.pos); std::swap(a.state, b.state); std::swap(a.locals, b.locals); };
                    auto clear = [](Slot<T>& a, const char* what)
                    {
                        // the generator that was there is gone: so are its objects
                        if (a.locals && *a.locals) mc::fail("%d objects of a producer are alive after %s", *a.locals, what);
                        a.it = {}; a.want = {}; a.pos = 0; a.state = 0;
                    };
                    auto empty_check = [](Slot<T>& a)
                    {
                        if (a.g.begin() != a.g.end()) mc::fail("a generator without a coroutine yields something");
                    };
                    switch (op)
                    {
                    case Step0: step(s[0], 0); break;
                    case Post0: step(s[0], 1); break;
                    case Step1: step(s[1], 0); break;
                    case MoveCtor: { awl::generator<T> g(std::move(s[0].g)); auto keep = s[0].state; s[0].state = 0; empty_check(s[0]); s[0].g = std::move(g); s[0].state = keep; break; }
                    case Assign01: { s[0].g = std::move(s[1].g); clear(s[0], "another generator was assigned over it"); info_swap(s[0], s[1]); empty_check(s[1]); break; }
                    case Assign10: { s[1].g = std::move(s[0].g); clear(s[1], "another generator was assigned over it"); info_swap(s[0], s[1]); empty_check(s[0]); break; }
                    case Swap: if (k & 1) s[0].g.swap(s[1].g); else awl::swap(s[0].g, s[1].g); info_swap(s[0], s[1]); break;
                    case Reset0: s[0].g = awl::generator<T>(); clear(s[0], "it was reset"); empty_check(s[0]); break;
                    case SelfAssign: { auto& r = s[0].g; s[0].g = std::move(r); break; }
                    }
                    if (s[0].state == 2 && (*s[0].it).get() != s[0].want.values[s[0].pos]) mc::fail("the current value of A changed under the consumer");
                    if (s[1].state == 2 && (*s[1].it).get() != s[1].want.values[s[1].pos]) mc::fail("the current value of B changed under the consumer");
                }
                mc::cnt("executions") += 1;
            }
            if (locals[0] || locals[1]) mc::fail("local objects of a producer leaked");
            if (g_live) mc::fail("%ld values leaked", g_live);
            leak();
            mc::sample_trace();
        });
    }

    template <class T>
    void whole(const std::vector<std::string>& mains, const std::vector<std::string>& nest)
    {
        // The range-for loop and the range algorithms, over every script.
        for (auto& m : mains) for (auto& n : nest)
        {
            if (m.find_first_of("SCF") == std::string::npos && !n.empty()) continue;
            mc::trace_reset();
            mc::trace("range-for over \"%s\", nested \"%s\"", m.c_str(), n.c_str());
            Want w;
            expand(m, n, 0, w);
            int locals = 0;
            std::vector<int> got; int end = 0;
            try { mc::heap::Track t; for (auto&& v : produce<T>(m, n, 0, &locals, Val(1))) { mc::heap::Untrack u; got.push_back(v.get()); if constexpr (!std::is_const_v<std::remove_reference_t<T>>) v.v = -v.v; } }
            catch (const Boom& b) { end = b.id; }
            if (got != w.values || end != w.end) mc::fail("the loop saw %zu values and exception %d, expected %zu and %d", got.size(), end, w.values.size(), w.end);
            if (locals || g_live) mc::fail("objects of the producer leaked");
            leak();
            mc::cnt("executions") += 1;
        }
    }

    // ---- async ----
    awl::async_generator<Val> aproduce(std::string ops, std::string nested, int base, int* locals, Val param)
    {
        Val local(1000, locals);
        int n = base;
        for (char c : ops)
        {
            ++n;
            local.get(); param.get();
            switch (c)
            {
            case 'G': { Gate g(n); co_await g; break; }
            case 'L': { Val x(n, locals); co_yield x; if (x.get() != -n) mc::fail("a change made through the reference got lost"); break; }
            case 'R': co_yield Val(n, locals); break;
            case 'T': throw Boom{ n };
            case 'Q': co_return;
            case 'S':
            {
                auto sub = aproduce(nested, "", n * 10, locals, Val(5));
                for (auto it = co_await sub.begin(); it != sub.end(); co_await ++it) co_yield *it;
                break;
            }
            case 'C':
            {
                bool caught = false;
                try
                {
                    auto sub = aproduce(nested, "", n * 10, locals, Val(5));
                    for (auto it = co_await sub.begin(); it != sub.end(); co_await ++it) co_yield *it;
                }
                catch (const Boom&) { caught = true; }
                if (caught) co_yield Val(90, locals);
                break;
            }
            }
        }
    }

    struct Out { std::vector<int> values; int end = 0; bool finished = false; bool stopped = false; bool stepping = false; };

    // Consumes up to max values; mode 1 moves the generator after the first value, mode 2 swaps it through another object.
    Job aconsume(awl::async_generator<Val> g, int max, int mode, Out* out, int gate)
    {
        Val local(1);
        try
        {
            out->stepping = true;
            auto it = co_await g.begin();
            out->stepping = false;
            while (it != g.end())
            {
                int v = (*it).get();
                out->values.push_back(v);
                (*it).v = -v;
                if ((int)out->values.size() == max) { out->stopped = true; break; }
                if (mode == 1) { awl::async_generator<Val> o(std::move(g)); if (!(co_await g.begin() == g.end())) mc::fail("a moved-from generator yields something"); g = std::move(o); }
                else if (mode == 2) { awl::async_generator<Val> o; o.swap(g); swap(o, g); }
                else if (mode == 3) { auto& r = g; g = std::move(r); }
                else if (mode == 4) { Gate gt(gate); co_await gt; }
                if ((*it).get() != -v) mc::fail("the current value changed under the consumer");
                out->stepping = true;
                auto& r = co_await ++it;
                out->stepping = false;
                if (&r != &it) mc::fail("++ does not return the iterator");
            }
            if (!out->stopped) out->finished = true;
        }
        catch (const Boom& b) { out->end = b.id; out->stepping = false; out->finished = true; }
        if (out->stopped) { g = awl::async_generator<Val>(); }
        local.get();
    }

    void async_one(const std::vector<std::string>& mains, const std::vector<std::string>& nest, bool two)
    {
        mc::Dfs d;
        d.run([&](mc::Dfs& d)
        {
            const std::string m0 = mains[pick(d, (int)mains.size())];
            const bool uses = m0.find_first_of("SC") != std::string::npos;
            const std::string n0 = uses ? nest[pick(d, (int)nest.size())] : "";
            int max0 = pick(d, two ? 2 : 4), mode0 = pick(d, two ? 2 : 5);
            if (two) { max0 *= 2; mode0 *= 4; }
            if (!d.mine()) return;
            mc::trace("producer A: \"%s\", nested \"%s\"; consumer: stops at %d, mode %d", m0.c_str(), n0.c_str(), max0, mode0);
            int locals[2] = { 0, 0 };
            {
                mc::heap::Track t;
                Want w[2];
                expand(m0, n0, 0, w[0]);
                expand("GLGR", "", 50, w[1]);
                Out out[2];
                std::vector<Job> jobs;
                jobs.reserve(2);
                jobs.push_back(aconsume(aproduce(m0, n0, 0, &locals[0], Val(5)), max0, mode0, &out[0], 900));
                if (two) jobs.push_back(aconsume(aproduce("GLGR", "", 50, &locals[1], Val(5)), 0, 0, &out[1], 901));
                auto check = [&](int i)
                {
                    int max = i ? 0 : max0;
                    size_t lim = max ? std::min<size_t>(max, w[i].values.size()) : w[i].values.size();
                    if (out[i].values.size() > lim) mc::fail("the consumer got %zu values, %zu were due", out[i].values.size(), lim);
                    for (size_t k = 0; k < out[i].values.size(); ++k) if (out[i].values[k] != w[i].values[k]) mc::fail("value %zu is %d, the producer yielded %d", k, out[i].values[k], w[i].values[k]);
                    if (out[i].finished && (out[i].values.size() != w[i].values.size() || out[i].end != w[i].end))
                        mc::fail("the consumer finished with %zu values and exception %d, expected %zu and %d", out[i].values.size(), out[i].end, w[i].values.size(), w[i].end);
                    if (jobs[i].h && jobs[i].done() && !out[i].finished && !out[i].stopped) mc::fail("internal: consumer neither finished nor stopped");
                };
                check(0); if (two) check(1);
                int steps = 0;
                bool killed[2] = { false, false };
                for (;;)
                {
                    size_t n = gates().size();
                    int alive = 0;
                    for (size_t i = 0; i < jobs.size(); ++i) if (!killed[i] && !jobs[i].done()) ++alive;
                    if (n == 0)
                    {
                        if (alive) mc::fail("a consumer is suspended for ever");
                        break;
                    }
                    if (++steps > 12) break;
                    // resume any gate, or destroy a suspended consumer together with its generator
                    int c = pick(d, (int)n + alive);
                    mc::cnt("transitions") += 1;
                    if (c < (int)n) { mc::trace("open gate %d", gates()[c]->id); open(c); }
                    else
                    {
                        int k = c - (int)n;
                        for (size_t i = 0; i < jobs.size(); ++i) if (!killed[i] && !jobs[i].done() && k-- == 0)
                        {
                            mc::trace("destroy consumer %zu", i);
                            jobs[i].kill();
                            killed[i] = true;
                            if (locals[i]) mc::fail("objects of producer %zu outlived it", i);
                            break;
                        }
                    }
                    for (size_t i = 0; i < jobs.size(); ++i) check((int)i);
                }
                mc::cnt("executions") += 1;
            }
            if (locals[0] || locals[1]) mc::fail("local objects of a producer leaked");
            if (g_live) mc::fail("%ld values leaked", g_live);
            leak();
            if (!gates().empty()) mc::fail("internal: a gate leaked");
            mc::sample_trace();
        });
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    gates().reserve(16);
    for (const char* c : { "values", "exceptions", "executions", "transitions", "states" }) mc::cnt(c);
    if (th) g_manip = 2;
    const auto mains = words("LRTSCFQ", th ? 4 : 3), nest = words("LRT", th ? 3 : 2);
    const auto small = words("LRTSC", 2), snest = words("LR", 1);
    if (mc::begin_scenario("generator<Val>: every script consumed")) consumer<Val>(mains, nest, 5, 0), leak();
    if (mc::begin_scenario("generator<const Val&>: every script consumed")) consumer<const Val&>(small, nest, 5, 0), leak();
    if (mc::begin_scenario("generator<Val&>: every script consumed")) consumer<Val&>(words("L", 2), snest, 5, 0), leak();
    if (mc::begin_scenario("generator<Val&&>: every script consumed")) consumer<Val&&>(small, nest, 5, 0), leak();
    if (mc::begin_scenario("two generators: moves, swaps and resets")) consumer<Val>(words("LRT", 2), snest, th ? 6 : 5, 1), leak();
    if (mc::begin_scenario("range-for")) whole<Val>(mains, nest), whole<const Val&>(mains, nest), whole<Val&&>(mains, nest), leak();
    const auto amains = words("GLRTSC", th ? 4 : 3), anest = words("GLT", th ? 3 : 2);
    if (mc::begin_scenario("async_generator: every script consumed")) async_one(amains, anest, false), leak();
    if (mc::begin_scenario("two async consumers interleaved")) async_one(words("GLRT", th ? 4 : 3), anest, true), leak();
    return mc::finish();
}
