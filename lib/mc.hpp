// Common machinery of the bounded model checkers in /verif/harness.
//
// Every harness drives the real code of /repo through its public API, enumerates a bounded space of
// behaviours exhaustively and compares each step with a reference model.  This header has:
//   * result/violation reporting (JSON for ../check.py, replayable trace of the failing execution),
//   * Dfs      - stateless enumeration of all choice sequences,
//   * bfs()    - explicit-state search that rebuilds states by replaying their history on the real object
//                and merges states by a caller-supplied canonical form,
//   * heap     - a tracked operator new, used for leak accounting, allocation-failure injection and for
//                hashing the concrete memory graph of an object up to renaming of heap addresses.
#pragma once

#include <algorithm>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <time.h>

namespace mc
{
    struct Config
    {
        bool thorough = false;
        long seed = 1;
        std::string out;
        std::string only;       // run only scenarios whose name contains this
        std::string replay;     // replay file (scenario + choices)
        int shard = 0, shards = 1;
        std::set<std::string> known;
        double budget = 600;    // seconds; a harness that stops early says so in its result
    };

    inline Config& cfg() { static Config c; return c; }

    struct Result
    {
        std::map<std::string, unsigned long long> n;
        std::vector<std::string> samples;
        std::set<std::string> outcomes;
        std::vector<std::string> scenarios;
        std::vector<std::string> capped;
        std::map<std::string, std::string> known_hit;
    };

    inline Result& res() { static Result r; return r; }

    inline unsigned long long& cnt(const char* name) { return res().n[name]; }

    // ---- trace of the current execution (static storage: readable from a crash handler) ----
    constexpr size_t trace_cap = 1 << 16;
    inline char g_trace[trace_cap];
    inline size_t g_trace_len = 0;
    inline char g_scenario[256];
    inline volatile unsigned long long g_progress = 0;
    inline bool g_trace_on = true;

    inline void trace_reset() { g_trace_len = 0; g_trace[0] = 0; g_progress = g_progress + 1; }

    inline void trace(const char* fmt, ...)
    {
        if (!g_trace_on) return;
        va_list ap;
        va_start(ap, fmt);
        if (g_trace_len + 512 < trace_cap)
        {
            int k = vsnprintf(g_trace + g_trace_len, 510, fmt, ap);
            if (k > 509) k = 509;
            g_trace_len += k;
            g_trace[g_trace_len++] = '\n';
            g_trace[g_trace_len] = 0;
        }
        va_end(ap);
    }

    inline std::string js(const std::string& s)
    {
        std::string o = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c == '\n') o += "\\n";
            else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += c;
        }
        return o + "\"";
    }

    inline double now_s()
    {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }
    inline double g_start = 0;

    inline bool over_budget() { return now_s() - g_start > cfg().budget; }

    inline void (*g_before_fail)() = nullptr;    // lets a scheduler append its schedule to the trace

    inline void write_result(const char* violation)
    {
        if (violation && g_before_fail) { auto f = g_before_fail; g_before_fail = nullptr; f(); }
        // Plain stdio: also called from death callbacks.
        FILE* f = cfg().out.empty() ? stdout : fopen(cfg().out.c_str(), "w");
        if (!f) return;
        fprintf(f, "{");
        bool first = true;
        fprintf(f, "\"counts\":{");
        for (auto& p : res().n) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(p.first).c_str(), p.second); first = false; }
        fprintf(f, "},\"outcomes\":%zu,\"samples\":[", res().outcomes.size());
        first = true;
        for (auto& s : res().samples) { fprintf(f, "%s%s", first ? "" : ",", js(s).c_str()); first = false; }
        fprintf(f, "],\"scenarios\":[");
        first = true;
        for (auto& s : res().scenarios) { fprintf(f, "%s%s", first ? "" : ",", js(s).c_str()); first = false; }
        fprintf(f, "],\"capped\":[");
        first = true;
        for (auto& s : res().capped) { fprintf(f, "%s%s", first ? "" : ",", js(s).c_str()); first = false; }
        fprintf(f, "],\"known\":{");
        first = true;
        for (auto& p : res().known_hit) { fprintf(f, "%s%s:%s", first ? "" : ",", js(p.first).c_str(), js(p.second).c_str()); first = false; }
        fprintf(f, "}");
        if (violation)
        {
            fprintf(f, ",\"violation\":{\"scenario\":%s,\"what\":%s,\"trace\":%s}", js(g_scenario).c_str(), js(violation).c_str(), js(std::string(g_trace, g_trace_len)).c_str());
        }
        fprintf(f, "}\n");
        fflush(f);
        if (f != stdout) fclose(f);
    }

    inline bool g_dying = false;

    [[noreturn]] inline void fail(const char* fmt, ...)
    {
        char buf[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if (!g_dying)
        {
            g_dying = true;
            write_result(buf);
            fprintf(stderr, "VIOLATED [%s]: %s\n%.*s\n", g_scenario, buf, (int)std::min(g_trace_len, (size_t)8000), g_trace);
        }
        _exit(1);
    }

    // A failure identified by a key that may be listed as a known finding: returns (true) if listed.
    inline bool fail_keyed(const std::string& key, const std::string& what)
    {
        if (cfg().known.count(key))
        {
            res().known_hit.emplace(key, what);
            return true;
        }
        fail("[%s] %s", key.c_str(), what.c_str());
    }

    inline void sample(const std::string& s, size_t max = 6)
    {
        if (res().samples.size() < max) res().samples.push_back(s);
    }
    inline void sample_trace(size_t max = 6)
    {
        if (res().samples.size() < max)
        {
            std::string t(g_trace, std::min(g_trace_len, (size_t)700));
            for (auto& c : t) if (c == '\n') c = ';';
            res().samples.push_back(std::string(g_scenario) + ": " + t);
        }
    }

    inline void outcome(const std::string& s) { if (res().outcomes.size() < 100000) res().outcomes.insert(s); }

    extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

    inline void on_death() { if (!g_dying) { g_dying = true; write_result("sanitizer report (memory error or undefined behaviour; see stderr)"); } }

    inline void on_signal(int sig)
    {
        const char* what = sig == SIGABRT ? "abort (assertion failure, std::terminate or sanitizer)" :
            sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic trap" : sig == SIGILL ? "illegal instruction" : "bus error";
        if (!g_dying)
        {
            g_dying = true;
            write_result(what);
            fprintf(stderr, "VIOLATED [%s]: %s\n%.*s\n", g_scenario, what, (int)std::min(g_trace_len, (size_t)8000), g_trace);
        }
        _exit(1);
    }

    inline unsigned long long g_last_progress = 0;
    inline int g_stalled = 0;
    inline int g_stall_limit = 30;   // ticks of 2 s CPU

    inline void on_prof(int)
    {
        if (g_progress == g_last_progress)
        {
            if (++g_stalled >= g_stall_limit)
            {
                fail("execution does not terminate (no progress within %d s of CPU time)", g_stall_limit * 2);
            }
        }
        else
        {
            g_stalled = 0;
            g_last_progress = g_progress;
        }
    }

    inline void init(int argc, char** argv)
    {
        g_start = now_s();
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--tier") cfg().thorough = next() == "thorough";
            else if (a == "--seed") cfg().seed = atol(next().c_str());
            else if (a == "--out") cfg().out = next();
            else if (a == "--only") cfg().only = next();
            else if (a == "--replay") cfg().replay = next();
            else if (a == "--budget") cfg().budget = atof(next().c_str());
            else if (a == "--shard") { std::string s = next(); sscanf(s.c_str(), "%d/%d", &cfg().shard, &cfg().shards); }
            else if (a == "--known") cfg().known.insert(next());
        }
        if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
        struct sigaction sa {};
        sa.sa_handler = on_signal;
        sa.sa_flags = SA_NODEFER;
        static char* alt = (char*)malloc(1 << 16);
        stack_t ss {};
        ss.ss_sp = alt;
        ss.ss_size = 1 << 16;
        sigaltstack(&ss, nullptr);
        sa.sa_flags |= SA_ONSTACK;
        for (int s : { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL }) sigaction(s, &sa, nullptr);
        struct sigaction sp {};
        sp.sa_handler = on_prof;
        sp.sa_flags = SA_RESTART | SA_ONSTACK;
        sigaction(SIGPROF, &sp, nullptr);
        itimerval it { { 2, 0 }, { 2, 0 } };
        setitimer(ITIMER_PROF, &it, nullptr);
    }

    inline int finish()
    {
        write_result(nullptr);
        return 0;
    }

    inline bool begin_scenario(const std::string& name)
    {
        if (!cfg().only.empty() && name.find(cfg().only) == std::string::npos) return false;
        snprintf(g_scenario, sizeof g_scenario, "%s", name.c_str());
        res().scenarios.push_back(name);
        return true;
    }

    inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
    {
        auto c = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
        return h;
    }
    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        return h ^ (h >> 32);
    }

    // ---- stateless enumeration of all choice sequences ----
    class Dfs
    {
    public:
        struct Point { int chosen; int width; };

        // Returns 0..n-1; n must depend only on earlier choices.
        int choose(int n)
        {
            if (n <= 0) fail("internal: empty choice");
            if (pos < path.size())
            {
                if (path[pos].width != n) fail("internal: nondeterministic replay (choice %zu has %d alternatives, had %d)", pos, n, path[pos].width);
                return path[pos++].chosen;
            }
            path.push_back({ 0, n });
            ++pos;
            return 0;
        }

        // True if this process has to explore the subtree below the current prefix.
        bool mine()
        {
            if (cfg().shards == 1) return true;
            uint64_t h = 7;
            for (size_t i = 0; i < pos; ++i) h = mix(h, path[i].chosen);
            return int(h % cfg().shards) == cfg().shard;
        }

        void begin() { pos = 0; trace_reset(); }

        bool next()
        {
            path.resize(pos);   // an execution may stop early
            while (!path.empty() && path.back().chosen + 1 >= path.back().width) path.pop_back();
            if (path.empty()) return false;
            ++path.back().chosen;
            return true;
        }

        template <class F>
        void run(F&& f)
        {
            path.clear();
            do
            {
                const size_t prefix = path.size();
                begin();
                f(*this);
                ++cnt("executions");
                cnt("states") += pos + 1 - std::min(pos, prefix);     // nodes of the choice tree seen for the first time
                if ((cnt("executions") & 255) == 0 && over_budget())
                {
                    res().capped.push_back(std::string(g_scenario) + ": time budget reached");
                    return;
                }
            } while (next());
        }

        std::vector<Point> path;
        size_t pos = 0;
    };

    // True while bfs() rebuilds a known state: the steps were checked when they were first taken.
    inline bool g_replaying = false;

    // ---- explicit-state search; states are rebuilt by replaying their history on a fresh real object ----
    // Sys: default constructible; int ops() - number of operations enabled in the current state;
    //      void apply(int op) - performs it on the object and on the model and compares (mc::fail on mismatch);
    //      uint64_t canon() - canonical form: equal only for states with equal futures.
    template <class Make>
    void bfs(Make make, int max_depth, size_t max_states)
    {
        struct Rec { uint32_t parent; uint16_t op; uint16_t depth; };
        std::vector<Rec> recs;
        std::unordered_set<uint64_t> seen;
        std::deque<uint32_t> frontier;
        trace_reset();
        {
            auto s = make();
            seen.insert(s->canon());
        }
        recs.push_back({ 0, 0, 0 });
        frontier.push_back(0);
        ++cnt("states");
        bool capped = false;
        int done_depth = 0;
        std::vector<int> hist;
        while (!frontier.empty())
        {
            uint32_t cur = frontier.front();
            frontier.pop_front();
            const int depth = recs[cur].depth;
            done_depth = depth;
            if (depth >= max_depth) { capped = true; continue; }
            if (over_budget()) { capped = true; break; }
            hist.clear();
            for (uint32_t i = cur; i != 0; i = recs[i].parent) hist.push_back(recs[i].op);
            std::reverse(hist.begin(), hist.end());
            int n = 1;
            for (int op = 0; op < n; ++op)
            {
                trace_reset();
                auto s = make();
                g_replaying = true;
                for (int h : hist) s->apply(h);
                g_replaying = false;
                if (op == 0) n = s->ops();
                if (n == 0) break;
                s->apply(op);
                ++cnt("transitions");
                uint64_t c = s->canon();
                if (seen.insert(c).second)
                {
                    ++cnt("states");
                    if (recs.size() < max_states)
                    {
                        recs.push_back({ cur, uint16_t(op), uint16_t(depth + 1) });
                        frontier.push_back(uint32_t(recs.size() - 1));
                        if (recs.size() % 997 == 5) sample_trace();
                    }
                    else capped = true;
                }
                s.reset();
            }
            ++cnt("executions");
        }
        auto& md = cnt("max_depth");
        md = std::max<unsigned long long>(md, done_depth);
        if (!capped) ++cnt("closed_state_spaces");
        else res().capped.push_back(std::string(g_scenario) + ": bound reached (depth " + std::to_string(done_depth) + ")");
    }
}
