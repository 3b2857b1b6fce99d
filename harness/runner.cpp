// X02: the test runner: every command line from a small grammar over a set of linked tests, one of which may fail.
#include "heap.hpp"
#include "Awl/Testing/UnitTest.h"
#include "Awl/Testing/TestMap.h"
#include "Awl/Testing/TestConsole.h"
#include "Awl/Testing/CommandLineProvider.h"
#include <iostream>
#include <set>
#include <sstream>

int awl_main(int argc, awl::Char* argv[]);   // the real main()

namespace
{
    const std::vector<std::string> g_names{ "Beta_Benchmark", "Alpha_Test", "A", "AlphaBeta_Test", "alpha_Test", "Gamma_Test_Unstable" };

    struct Values { int count; unsigned limit; bool fast; std::string text; std::vector<int> nums; bool operator==(const Values&) const = default; };
    struct Ran { int test; Values v; };
    std::vector<Ran> g_ran;
    int g_fail = -1;          // the test that fails
    int g_fail_round = 1;     // at which of its runs

    std::string mark(int i) { return "<" + std::to_string(i) + ">"; }

    template <int N> void test_func(const awl::testing::TestContext& context)
    {
        AWT_ATTRIBUTE(int, count, 7);
        AWT_ATTRIBUTE(unsigned int, limit, 5u);
        AWT_FLAG(fast);
        AWT_ATTRIBUTE(std::string, text, "dflt");
        AWT_ATTRIBUTE(std::vector<int>, nums, {});
        g_ran.push_back({ N, { count, limit, fast, text, nums } });
        context.out << mark(N);
        if (N == g_fail)
        {
            int rounds = 0;
            for (auto& r : g_ran) rounds += r.test == N;
            if (rounds == g_fail_round) AWT_FAILM(Planned failure.);
        }
        AWT_ASSERT(true);
        AWT_ASSERT_EQUAL(N, N);
        awl::testing::Assert::Throws<std::logic_error>([] { throw std::logic_error("x"); });
    }
    template <int... N> constexpr auto funcs(std::integer_sequence<int, N...>) { return std::vector<awl::testing::TestFunc>{ &test_func<N>... }; }

    using Opt = std::vector<std::string>;   // an option and its value
    const std::vector<Opt> g_menu
    {
        { "--filter", ".*_Test" }, { "--filter", ".*" }, { "--filter", "Alpha.*" }, { "--filter", "A" }, { "--filter", "(Alpha|Beta)_.*" }, { "--filter", "_Test" }, { "--filter", "" }, { "--filter", "[" },
        { "--filter", "alpha_Test" }, { "--filter", ".*a.*" },
        { "--run", "Alpha_Test" }, { "--run", "alpha_Test A Beta_Benchmark" }, { "--run", "Alpha_Test Missing" }, { "--run", "A A" }, { "--run", "Alpha" },
        { "--list" }, { "--loop", "0" }, { "--loop", "2" }, { "--loop", "x" },
        { "--output", "all" }, { "--output", "failed" }, { "--output", "null" }, { "--output", "bogus" },
        { "--count", "12" }, { "--count", "-5" }, { "--count", "x" }, { "--count" }, { "--count", "99999999999" },
        { "--limit", "4294967295" }, { "--limit", "0" }, { "--fast" }, { "--text", "hello" }, { "--text", "-v" }, { "--nums", "1 -2 3" }, { "--nums" },
        { "--unknown", "v" }, { "stray" }, { "--_x" }, { "-count" },
    };

    bool ends(const std::string& s, const std::string& t) { return s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0; }
    // nothing: not a regular expression
    bool matches(const std::string& f, const std::string& n, bool& bad)
    {
        if (f == ".*_Test") return ends(n, "_Test");
        if (f == ".*" || f == "") return true;
        if (f == "Alpha.*") return n.rfind("Alpha", 0) == 0;
        if (f == "A" || f == "_Test" || f == "alpha_Test") return n == f;
        if (f == "(Alpha|Beta)_.*") return n.rfind("Alpha_", 0) == 0 || n.rfind("Beta_", 0) == 0;
        if (f == ".*a.*") return n.find('a') != std::string::npos;
        if (f == "[") { bad = true; return false; }
        mc::fail("internal: unknown filter");
    }
    bool is_name(const std::string& a)
    {
        if (a.size() < 4 || a[0] != '-' || a[1] != '-' || !isalpha((unsigned char)a[2])) return false;
        for (size_t i = 3; i < a.size(); ++i) if (!isalnum((unsigned char)a[i]) && a[i] != '_') return false;
        return true;
    }

    struct Expect
    {
        std::vector<int> order;        // tests by number of g_names, in the order they should run
        bool failed = false, error = false, listed = false;
        std::vector<std::string> names;
        long announced = -1;
        std::string output = "failed";
        Values v{ 7, 5u, false, "dflt", {} };
    };

    Expect predict(const std::vector<std::string>& args)
    {
        Expect e;
        std::map<std::string, std::pair<bool, std::string>> opt;
        std::string cur; bool open = false;
        for (auto& a : args)
        {
            if (is_name(a)) { cur = a.substr(2); open = true; if (!opt.emplace(cur, std::make_pair(false, std::string())).second) { e.error = true; return e; } }
            else if (open) { opt[cur] = { true, a }; open = false; }
            else { e.error = true; return e; }
        }
        auto has = [&](const char* n) { return opt.count(n) != 0; };
        std::vector<std::string> sorted = g_names;
        std::sort(sorted.begin(), sorted.end());
        auto number = [](const std::string& n) { for (size_t i = 0; i < g_names.size(); ++i) if (g_names[i] == n) return (int)i; return -1; };
        if (has("count")) { auto& s = opt["count"].second; if (s == "12") e.v.count = 12; else if (s == "-5") e.v.count = -5; }
        if (has("limit")) e.v.limit = opt["limit"].second == "0" ? 0u : 4294967295u;
        if (has("fast")) e.v.fast = true;
        if (has("text")) e.v.text = opt["text"].second;
        if (has("nums") && opt["nums"].second == "1 -2 3") { e.v.nums = { 1, -2, 3 }; }
        if (has("output")) e.output = opt["output"].second;
        bool bad = false;
        if (has("list"))
        {
            e.listed = true;
            std::string f = has("filter") ? opt["filter"].second : "";
            for (auto& n : sorted) if (matches(f, n, bad)) e.names.push_back(n);
            if (bad) e.error = true;
            return e;
        }
        std::vector<std::string> todo;
        bool missing = false;
        std::set<std::string> run;
        if (has("run")) { std::istringstream in(opt["run"].second); std::string w; while (in >> w) run.insert(w); }
        if (!run.empty())
        {
            e.announced = (long)run.size();
            for (auto& n : run) { if (number(n) < 0) { missing = true; break; } todo.push_back(n); }
        }
        else
        {
            std::string f = has("filter") ? opt["filter"].second : ".*_Test";
            for (auto& n : sorted) if (matches(f, n, bad)) todo.push_back(n);
            if (bad) { e.failed = true; return e; }
            e.announced = (long)todo.size();
        }
        int rounds = 1;
        if (has("loop") && opt["loop"].second == "2") rounds = 2;
        for (auto& n : todo)
        {
            if (e.output != "all" && e.output != "failed" && e.output != "null") { e.failed = true; return e; }
            for (int r = 1; r <= rounds; ++r)
            {
                e.order.push_back(number(n));
                if (number(n) == g_fail && r == g_fail_round) { e.failed = true; return e; }
            }
        }
        if (missing) e.failed = true;
        return e;
    }

    std::string show(const std::vector<int>& v) { std::string s; for (int i : v) s += g_names[i] + " "; return s; }

    void run_one(const std::vector<std::string>& args, const std::vector<int>& link_order)
    {
        static const auto fs = funcs(std::make_integer_sequence<int, 6>());
        const Expect e = predict(args);
        std::vector<std::string> storage{ "AwlTest" };
        storage.insert(storage.end(), args.begin(), args.end());
        std::vector<char*> argv;
        for (auto& s : storage) argv.push_back(s.data());
        g_ran.clear();
        std::ostringstream captured;
        auto* old = std::cout.rdbuf(captured.rdbuf());
        int rc = -1; bool escaped = false;
        {
            std::deque<awl::testing::TestLink> links;
            for (int i : link_order) links.emplace_back(g_names[i].c_str(), fs[i]);
            try { rc = awl_main((int)argv.size(), argv.data()); } catch (...) { escaped = true; }
            awl::testing::Shutdown();
        }
        std::cout.rdbuf(old);
        const std::string out = captured.str();
        mc::trace("output: %.400s", out.c_str());
        if (escaped) mc::fail("an exception left main()");
        std::vector<int> ran;
        for (auto& r : g_ran) ran.push_back(r.test);
        if (ran != e.order) mc::fail("the tests run are: %s; expected: %s", show(ran).c_str(), show(e.order).c_str());
        for (auto& r : g_ran) if (!(r.v == e.v)) mc::fail("test %s got count %d limit %u fast %d text '%s' and %zu numbers; expected %d %u %d '%s' %zu", g_names[r.test].c_str(), r.v.count, r.v.limit, (int)r.v.fast, r.v.text.c_str(), r.v.nums.size(), e.v.count, e.v.limit, (int)e.v.fast, e.v.text.c_str(), e.v.nums.size());
        const bool ok = !e.failed && !e.error;
        if ((rc == 0) != ok) mc::fail("the exit code is %d although %s", rc, e.error ? "the command line is wrong" : e.failed ? "a test failed" : "everything passed");
        const bool says_passed = out.find("The tests passed") != std::string::npos, says_failed = out.find("The tests failed") != std::string::npos;
        if (says_passed != (ok && !e.listed) || says_failed != e.failed) mc::fail("the summary is wrong");
        if (e.error) { if (out.empty()) mc::fail("an error is not reported"); mc::cnt("wrong command lines") += 1; return; }
        if (e.listed)
        {
            std::string want;
            for (auto& n : e.names) want += n + "\n";
            want += "Total " + std::to_string(e.names.size()) + " tests.\n";
            if (out.rfind(want, 0) != 0) mc::fail("the list of tests differs");
            return;
        }
        if (e.announced >= 0 && out.find("Running " + std::to_string(e.announced) + " tests") == std::string::npos) mc::fail("%ld tests are not announced", e.announced);
        // What the tests printed: everything, what the failed run printed, or nothing.
        std::string seen, want;
        for (size_t i = 0; i + 2 < out.size(); ++i) if (out[i] == '<' && isdigit((unsigned char)out[i + 1]) && out[i + 2] == '>') seen += out.substr(i, 3);
        if (e.output == "all") { for (int i : e.order) want += mark(i); }
        else if (e.output == "failed" && e.failed && !e.order.empty() && e.order.back() == g_fail) want = mark(g_fail);
        if (seen != want) mc::fail("the output of the tests is '%s', expected '%s'", seen.c_str(), want.c_str());
        size_t passed = 0;
        for (size_t p = out.find("\tPassed within"); p != std::string::npos; p = out.find("\tPassed within", p + 1)) ++passed;
        size_t should = e.order.size() - (e.failed && !e.order.empty() && e.order.back() == g_fail && (int)std::count(e.order.begin(), e.order.end(), g_fail) == g_fail_round ? 1 : 0);
        if (passed != should) mc::fail("%zu runs are reported as passed, %zu passed", passed, should);
        mc::cnt("tests run") += e.order.size(); mc::cnt("transitions") += e.order.size();
    }

    void explore(int options, bool with_orders)
    {
        mc::Dfs d;
        d.run([&](mc::Dfs& d)
        {
            std::vector<std::string> args;
            std::string t;
            for (int i = 0; i < options; ++i) { auto& o = g_menu[d.choose((int)g_menu.size())]; for (auto& a : o) { args.push_back(a); t += "'" + a + "' "; } }
            if (!d.mine()) return;
            g_fail = d.choose(1 + (int)g_names.size()) - 1;
            g_fail_round = 1;
            if (g_fail >= 0 && t.find("'--loop' '2'") != std::string::npos) g_fail_round = 1 + d.choose(2);
            std::vector<int> order{ 0, 1, 2, 3, 4, 5 };
            if (with_orders) { int k = d.choose(3); if (k == 1) std::reverse(order.begin(), order.end()); if (k == 2) std::rotate(order.begin(), order.begin() + 2, order.end()); }
            mc::trace("AwlTest %s; %s", t.c_str(), g_fail < 0 ? "no test fails" : (g_names[g_fail] + " fails").c_str());
            run_one(args, order);
            mc::cnt("executions") += 1;
            mc::sample_trace();
        });
    }

    void duplicates()
    {
        // Two tests of one name are refused; an unknown one is too.
        std::ostringstream captured;
        auto* old = std::cout.rdbuf(captured.rdbuf());
        g_fail = -1; g_ran.clear();
        bool thrown = false;
        {
            std::deque<awl::testing::TestLink> links;
            for (const char* n : { "X_Test", "Y_Test", "X_Test" }) links.emplace_back(n, &test_func<0>);
            try { awl::testing::TestMap m; } catch (const awl::testing::TestException&) { thrown = true; }
            awl::testing::Shutdown();
        }
        std::cout.rdbuf(old);
        if (!thrown) mc::fail("two tests of the same name are accepted");
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    for (int n = 0; n <= 1; ++n) if (mc::begin_scenario("command lines of " + std::to_string(n) + " options")) explore(n, true);
    if (mc::begin_scenario("command lines of 2 options")) explore(2, th);
    if (th && mc::begin_scenario("command lines of 3 options")) explore(3, false);
    if (mc::begin_scenario("tests of the same name")) duplicates();
    return mc::finish();
}
