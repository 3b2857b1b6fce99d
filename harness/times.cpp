// T03: calendar fields to time points, stop watches and the text form of durations.
// T04: loggers.
#include "heap.hpp"
#include <chrono>
#include <time.h>

namespace clk { inline long long steady = 1000; inline int reads = 0; inline long long step = 0; }
namespace std::chrono::_V2
{
    steady_clock::time_point steady_clock::now() noexcept { ++clk::reads; const long long t = clk::steady; clk::steady += clk::step; return time_point(duration(t)); }
}

#include "Awl/Time.h"
#include "Awl/Logger.h"
#include "Awl/ConsoleLogger.h"

namespace
{
    using namespace std::chrono;
    void tick(const char* what) { mc::cnt(what) += 1; mc::cnt("executions") += 1; mc::cnt("states") += 1; mc::cnt("transitions") += 1; }

    bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
    int length(int y, int m) { static const int l[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return l[m] + (m == 1 && leap(y)); }
    // Counting days one year and one month at a time.
    long long days(int y, int m, int d)
    {
        long long n = 0;
        for (int k = 1970; k < y; ++k) n += 365 + leap(k);
        for (int k = y; k < 1970; ++k) n -= 365 + leap(k);
        for (int k = 0; k < m; ++k) n += length(y, k);
        return n + d - 1;
    }

    template <class D> void one(int y, int m, int d, int h, int mi, int s, long long want)
    {
        const auto tp = awl::make_time<system_clock, D>(y, m, d, h, mi, s);
        static_assert(std::is_same_v<std::decay_t<decltype(tp)>, time_point<system_clock, D>>);
        if (tp.time_since_epoch() != seconds(want)) mc::fail("%d-%d-%d %d:%02d:%02d is %lld seconds, not %lld", y, m + 1, d, h, mi, s, (long long)duration_cast<seconds>(tp.time_since_epoch()).count(), want);
        tick("times");
    }

    void calendar(const char* zone, int offset, bool th)
    {
        if (!mc::begin_scenario("calendar in " + std::string(zone))) return;
        setenv("TZ", zone, 1); tzset();
        const int first = th ? 1902 : 1968, last = th ? 2200 : 2102;
        for (int y = first; y <= last; ++y) for (int m = 0; m < 12; ++m) for (int d = 1; d <= length(y, m); ++d)
        {
            const bool edge = d == 1 || d == length(y, m) || d == 28 || d == 15;
            for (int h : { 0, 1, 12, 23 })
            {
                if (!edge && h != 12) continue;
                for (int mi : { 0, 59 }) for (int s : { 0, 59 })
                {
                    if (!edge && (mi || s)) continue;
                    const long long want = days(y, m, d) * 86400 + h * 3600 + mi * 60 + s - offset;
                    one<system_clock::duration>(y, m, d, h, mi, s, want);
                    if (edge && d == 1) { one<seconds>(y, m, d, h, mi, s, want); one<milliseconds>(y, m, d, h, mi, s, want); }
                }
            }
        }
        for (int h = 0; h < 24; ++h) for (int mi = 0; mi < 60; ++mi) for (int s = 0; s < 60; ++s) one<system_clock::duration>(2024, 1, 29, h, mi, s, days(2024, 1, 29) * 86400 + h * 3600 + mi * 60 + s - offset);
        for (long long ns : { 0ll, 1ll, 999999999ll, 1000000000ll, -1ll, 100200300ll })
        {
            const auto tp = awl::make_time<system_clock>(2019, 7, 17, 16, 31, 13, nanoseconds(ns));
            if (tp.time_since_epoch().count() != (days(2019, 7, 17) * 86400 + 16 * 3600 + 31 * 60 + 13 - offset) * 1000000000ll + ns) mc::fail("a time with %lld nanoseconds", ns);
            const auto tm = awl::make_time<system_clock>(2019, 7, 17, 16, 31, 13, milliseconds(ns / 1000));
            if (tm.time_since_epoch().count() != (days(2019, 7, 17) * 86400 + 16 * 3600 + 31 * 60 + 13 - offset) * 1000ll + ns / 1000) mc::fail("a time with %lld milliseconds", ns / 1000);
            tick("times");
        }
    }

    // With daylight saving time the local clock must show the given fields again, in summer and in winter.
    void summer_time(const char* zone)
    {
        if (!mc::begin_scenario("daylight saving in " + std::string(zone))) return;
        setenv("TZ", zone, 1); tzset();
        for (int y : { 2019, 2024 }) for (int m = 0; m < 12; ++m) for (int d = 1; d <= length(y, m); ++d) for (int h = 0; h < 24; ++h) for (int mi : { 0, 30 })
        {
            const auto tp = awl::make_time<system_clock>(y, m, d, h, mi, 7);
            const time_t t = system_clock::to_time_t(tp);
            tm got{}; localtime_r(&t, &got);
            if (got.tm_year + 1900 == y && got.tm_mon == m && got.tm_mday == d && got.tm_hour == h && got.tm_min == mi && got.tm_sec == 7) { tick("times"); continue; }
            // Only a time which the clock skips may come out different: nothing around it shows these fields either.
            bool exists = false;
            for (int off = -26; off <= 26; ++off)
            {
                const time_t c = days(y, m, d) * 86400 + h * 3600 + mi * 60 + 7 + off * 1800; tm x{}; localtime_r(&c, &x);
                exists = exists || (x.tm_mon == m && x.tm_mday == d && x.tm_hour == h && x.tm_min == mi);
            }
            if (exists) mc::fail("%d-%d-%d %d:%02d comes out as %d-%d %d:%02d", y, m + 1, d, h, mi, got.tm_mon + 1, got.tm_mday, got.tm_hour, got.tm_min);
            mc::cnt("skipped hours") += 1;
        }
    }

    // ---------------------------------------------------------------- durations as text
    std::string reference(__int128 ticks, __int128 num, __int128 den, int digits)
    {
        const bool neg = ticks < 0;
        __int128 t = (neg ? -ticks : ticks) * num;          // in units of 1/den seconds
        const __int128 whole = t / den; __int128 frac = t % den;
        char b[64];
        snprintf(b, sizeof b, "%s%02lld:%02d:%02d", neg ? "-" : "", (long long)(whole / 3600), int(whole / 60 % 60), int(whole % 60));
        std::string s = b;
        if (digits)
        {
            s += '.';
            for (int i = 0; i < digits; ++i) { frac *= 10; s += char('0' + int(frac / den)); frac %= den; }
        }
        return s;
    }

    template <class D> void durations(const char* name, int digits)
    {
        if (!mc::begin_scenario("text of " + std::string(name))) return;
        std::set<long long> v;
        const long double per_second = (long double)D::period::den / D::period::num;
        for (long double sec : { 0.0L, 1.0L, 9.0L, 10.0L, 59.0L, 60.0L, 61.0L, 599.0L, 600.0L, 3599.0L, 3600.0L, 3601.0L, 35999.0L, 36000.0L, 86399.0L, 86400.0L, 86401.0L, 359999.0L, 360000.0L, 604800.0L, 31536000.0L, 0.5L, 0.25L, 0.001L, 0.000001L, 12.345678L })
            for (long long k = -12; k <= 12; ++k) { const long double t = sec * per_second; if (t > 4e18L) continue; v.insert((long long)t + k); v.insert(-(long long)t + k); }
        for (long long p = 1; p < 1000000000000000000ll / 10; p *= 10) if (p / per_second < 1e8L) for (int m : { 1, 2, 5, 9 }) { v.insert(p * m); v.insert(-p * m); }
        for (long long t : v)
        {
            const std::string want = reference(t, D::period::num, D::period::den, digits);
            const D d(t);
            std::ostringstream out; awl::format_duration(out, d);
            if (out.str() != want) mc::fail("%s: %lld is '%s' instead of '%s'", name, t, out.str().c_str(), want.c_str());
            if (awl::duration_to_string<char>(d) != want) mc::fail("%s: duration_to_string(%lld)", name, t);
            if (awl::duration_to_string<wchar_t>(d) != std::wstring(want.begin(), want.end())) mc::fail("%s: wide duration_to_string(%lld)", name, t);
            tick("durations");
        }
    }

    // ---------------------------------------------------------------- stop watch
    void watches(bool th)
    {
        if (!mc::begin_scenario("stop watches")) return;
        using steady = std::chrono::steady_clock;
        const std::vector<long long> gaps = { 0, 1, 999, 1000, 999999, 1000000, 1500000, 999999999, 1000000000, 1500000000, 61000000000, 3600000000000, 90000000000000 };
        clk::step = 0;
        for (long long start : { 0ll, 1000ll, 1ll << 60 })
            for (long long a : gaps) for (long long b : gaps) for (int reset = 0; reset < 2; ++reset) for (int given = 0; given < 2; ++given)
            {
                if (!th && a > 0 && b > 2000000000) continue;
                clk::steady = start + 100000000000000ll;
                awl::StopWatch w = given ? awl::StopWatch(steady::time_point(nanoseconds(clk::steady - 5))) : awl::StopWatch();
                clk::steady += a;
                if (reset) w.Reset();
                clk::steady += b;
                const long long want = reset ? b : a + b + (given ? 5 : 0);
                if (w.GetElapsedTime().count() != want || steady::duration(w).count() != want) mc::fail("the watch shows %lld ns instead of %lld", (long long)w.GetElapsedTime().count(), want);
                if (w.GetElapsedCount<long long, std::milli>() != want / 1000000 || w.GetElapsedCount<long long, std::ratio<60>>() != want / 60000000000ll || w.GetElapsedCast<microseconds>().count() != want / 1000) mc::fail("the watch converts %lld ns wrong", want);
                if (w.GetElapsedSeconds<long long>() != want / 1000000000 || std::abs(w.GetElapsedSeconds<double>() - want / 1e9) > 1e-9 * (1 + want / 1e9)) mc::fail("the watch converts %lld ns wrong to seconds", want);
                if (w.GetElapsedCount<double, std::milli>() < want / 1e6 * (1 - 1e-12) || w.GetElapsedCount<double, std::milli>() > want / 1e6 * (1 + 1e-12)) mc::fail("the watch converts %lld ns wrong to fractional milliseconds", want);
                for (long long d : { -1, 0, 1 }) if (w.HasElapsed(nanoseconds(want + d)) != (d <= 0)) mc::fail("HasElapsed(%lld) after %lld ns", want + d, want);
                if (w.HasElapsed(milliseconds(want / 1000000 + 1)) || !w.HasElapsed(milliseconds(want / 1000000))) mc::fail("HasElapsed in milliseconds after %lld ns", want);
                std::ostringstream out; { using awl::operator<<; out << w; }
                if (out.str() != reference(want, 1, 1000000000, 9)) mc::fail("the watch prints '%s' after %lld ns", out.str().c_str(), want);
                tick("watches");
            }
    }

    // ---------------------------------------------------------------- loggers
    struct Sink : awl::Logger
    {
        std::vector<std::pair<awl::LogLevel, awl::String>> got;
        void log(awl::LogLevel level, awl::LogString m) override { got.emplace_back(level, m.str()); }
    };

    void loggers(bool th)
    {
        if (!mc::begin_scenario("loggers")) return;
        setenv("TZ", "UTC", 1); tzset();
        const char alphabet[] = { 'a', ' ', '\t', '%', '"', '\\', '{' };
        std::vector<std::string> texts = { "" };
        for (size_t from = 0, len = 0; len < (th ? 4u : 3u); ++len) { const size_t to = texts.size(); for (; from < to; ++from) for (char c : alphabet) texts.push_back(texts[from] + c); }
        for (size_t n : { 100, 1000, 5000 }) texts.push_back(std::string(n, 'x'));
        const char* names[] = { "Debug", "Trace", "Info", "Warning", "Error" };
        const auto all = { awl::LogLevel::Debug, awl::LogLevel::Trace, awl::LogLevel::Info, awl::LogLevel::Warning, awl::LogLevel::Error };
        for (const std::string& t : texts)
        {
            const std::wstring w(t.begin(), t.end());
            for (int form = 0; form < 4; ++form)
            {
                auto msg = [&]() -> awl::LogString { switch (form) { case 0: return t.c_str(); case 1: return w.c_str(); case 2: return t; default: return w; } };
                if (msg().str() != t) mc::fail("the message '%s' in form %d", t.c_str(), form);
                Sink s;
                s.debug(msg()); s.trace(msg()); s.info(msg()); s.warning(msg()); s.error(msg());
                if (s.got.size() != 5) mc::fail("%zu messages instead of 5", s.got.size());
                size_t i = 0;
                for (auto l : all) { if (s.got[i].first != l || s.got[i].second != t) mc::fail("message %zu: level or text", i); ++i; }
                std::ostringstream out;
                awl::ConsoleLogger cl(out);
                std::string rest;
                const auto before = time_point_cast<seconds>(system_clock::now());
                for (auto l : all) cl.log(l, msg());
                cl.warning(msg());
                const auto after = system_clock::now();
                rest = out.str();
                for (i = 0; i < 6; ++i)
                {
                    const std::string tail = "\t" + std::string(names[i == 5 ? 3 : i]) + "\t" + t + "\n";
                    const size_t tab = rest.find('\t');
                    if (tab == std::string::npos || rest.compare(tab, tail.size(), tail) != 0) mc::fail("line %zu of the log is '%s'", i, rest.c_str());
                    int y, mo, d, h, mi, se; 
                    if (sscanf(rest.c_str(), "%d-%d-%d %d:%d:%d", &y, &mo, &d, &h, &mi, &se) != 6) mc::fail("the time of '%s'", rest.c_str());
                    const auto at = system_clock::time_point(seconds(days(y, mo - 1, d) * 86400 + h * 3600 + mi * 60 + se));
                    if (at < before || at > after) mc::fail("another time: '%s'", rest.c_str());
                    rest.erase(0, tab + tail.size());
                }
                if (!rest.empty()) mc::fail("the log ends with '%s'", rest.c_str());
                tick("messages");
            }
        }
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
#ifdef LOGGERS
    loggers(th);
#else
    calendar("UTC", 0, th); calendar("AAA-3", 3 * 3600, th); calendar("BBB+9:30", -(9 * 3600 + 1800), th);
    summer_time("EST5EDT,M3.2.0,M11.1.0"); summer_time("CET-1CEST,M3.5.0,M10.5.0/3");
    durations<hours>("hours", 0); durations<minutes>("minutes", 0); durations<seconds>("seconds", 0); durations<milliseconds>("milliseconds", 3); durations<microseconds>("microseconds", 6); durations<nanoseconds>("nanoseconds", 9);
    durations<std::chrono::duration<long long, std::ratio<1, 4>>>("quarters of a second", 2); durations<std::chrono::duration<long long, std::deci>>("tenths of a second", 1); durations<std::chrono::days>("days", 0);
    watches(th);
#endif
    return mc::finish();
}
