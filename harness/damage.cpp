// S02: every truncation and every single-byte change (thorough: all 256 values, and pairs) of serialized values, in every
// format, read by the real code: an I/O exception or a valid value, and never anything else.
#include "rwtypes.hpp"
#include "Awl/Io/StdStream.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/VersionTolerantSerializable.h"
#include "Awl/Io/EuphoricallySerializable.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/Crypto/Crc64.h"
#include <sstream>
#include <malloc.h>

#ifndef PART
#define PART 0
#endif

// Memory in use, with a limit: input is at most a few hundred bytes here.
namespace mem
{
    size_t live = 0, limit = 0;
    bool exceeded = false;
}
void* operator new(size_t n)
{
    if (mem::limit && (n > mem::limit || mem::live + n > mem::limit)) { mem::exceeded = true; throw std::bad_alloc(); }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    mem::live += malloc_usable_size(p);
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { mem::live -= malloc_usable_size(p); free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

namespace
{
    using Bytes = std::vector<uint8_t>;
    using gen::G;
    using namespace awl::io;
    unsigned long long& n_exec() { static auto& n = mc::cnt("executions"); return n; }
    unsigned long long& n_trans() { static auto& n = mc::cnt("transitions"); return n; }
    unsigned long long& n_states() { static auto& n = mc::cnt("states"); return n; }
    unsigned long long& n_ok() { static auto& n = mc::cnt("damaged_inputs_read_as_other_values"); return n; }

    // Counts what it handed out.
    struct CountingStream : SequentialInputStream
    {
        const Bytes& b; size_t at = 0;
        CountingStream(const Bytes& v) : b(v) {}
        bool End() override { return at == b.size(); }
        size_t Read(uint8_t* p, size_t n) override { n = std::min(n, b.size() - at); if (n) memcpy(p, b.data() + at, n); at += n; return n; }
    };
    std::string hex(const Bytes& b) { return gen::hex(b.data(), b.size()); }

    enum Outcome { Ok, Io };
    template <class F> Outcome attempt(const char* how, F f)
    {
        ++n_exec(); ++n_trans();
        mem::exceeded = false;
        mem::limit = mem::live + (4u << 20);
        struct Off { ~Off() { mem::limit = 0; } } off;
        Outcome o = Ok;
        std::string bad;
        try { f(); }
        catch (const awl::io::IoException&) { o = Io; }
        catch (const std::exception& e) { mem::limit = 0; bad = e.what(); }
        catch (...) { mem::limit = 0; bad = "something"; }
        mem::limit = 0;
        if (mem::exceeded) mc::fail("%s: more than 4 MB of memory was requested", how);
        if (!bad.empty()) mc::fail("%s threw %s, which is not an I/O exception", how, bad.c_str());
        return o;
    }

    int g_no = 0;
    bool mine() { return g_no++ % mc::cfg().shards == mc::cfg().shard; }
    std::vector<uint8_t> replacements(uint8_t v)
    {
        std::vector<uint8_t> r;
        if (mc::cfg().thorough) { for (int i = 0; i < 256; ++i) if (i != v) r.push_back(i); return r; }
        std::set<uint8_t> s { 0, 1, 2, 3, 0x10, 0x7f, 0x80, 0xfe, 0xff, uint8_t(v + 1), uint8_t(v - 1), uint8_t(v ^ 1), uint8_t(v ^ 0x80), uint8_t(v ^ 0x20) };
        s.erase(v);
        return { s.begin(), s.end() };
    }
    // f(damaged bytes, truncated): every truncation, change, and change followed by more data.
    template <class F> void damage(const Bytes& b, F f)
    {
        Bytes x;
        const size_t mark = mc::g_trace_len;
        auto reset = [&] { mc::g_trace_len = mark; mc::g_trace[mark] = 0; mc::g_progress = mc::g_progress + 1; };
        for (size_t cut = 0; cut < b.size(); ++cut) { reset(); mc::trace("truncated to %zu of %zu bytes", cut, b.size()); ++n_states(); x.assign(b.begin(), b.begin() + cut); f(x, true); }
        for (size_t i = 0; i < b.size(); ++i) for (uint8_t v : replacements(b[i]))
        {
            reset(); mc::trace("byte %zu of %zu changed from %02x to %02x", i, b.size(), b[i], v);
            ++n_states();
            x = b; x[i] = v; f(x, false);
            x.resize(x.size() + 40, 1); f(x, false);
        }
        // Whole words: counts and indices that are too large by far.
        for (size_t i = 0; i + 8 <= b.size(); ++i) for (uint64_t v : { ~0ull, ~0ull / 2, 1ull << 63, 1ull << 62, 1ull << 61, (1ull << 61) + 1, 1ull << 32, 1ull << 24, 65536ull })
        {
            reset(); mc::trace("the word at byte %zu of %zu changed to %llx", i, b.size(), (unsigned long long)v);
            ++n_states();
            x = b; memcpy(&x[i], &v, 8); if (x == b) continue; f(x, false);
            x.resize(x.size() + 40, 1); f(x, false);
        }
        if (mc::cfg().thorough) for (size_t i = 0; i < b.size(); ++i) for (size_t j = i + 1; j < std::min(b.size(), i + 24); ++j) for (uint8_t v : { 0, 1, 2, 0xff }) for (uint8_t w : { 0, 1, 3, 0x80 }) if (v != b[i] && w != b[j])
        {
            reset(); mc::trace("bytes %zu and %zu of %zu changed to %02x and %02x", i, j, b.size(), v, w);
            ++n_states();
            x = b; x[i] = v; x[j] = w; f(x, false);
        }
    }

    template <class T> constexpr bool is_ring = requires(T& t) { t.push_back(*t.begin()); t.push_front(*t.begin()); t.full(); };

    template <class T> Bytes bytes_of(const T& t) { Bytes v; VectorOutputStream o(v); Write(o, t); return v; }

    // What can be read can be written and read again.
    template <class T> void valid(const T& t, const char* how)
    {
        Bytes b;
        if (attempt(how, [&] { b = bytes_of(t); }) != Ok) mc::fail("%s: the value that was read cannot be written", how);
        T u = T();
        if constexpr (is_ring<T>) G<T>::put(u, 0);
        gen::g_invalid = false;
        const std::string text = G<T>::show(t);
        if (gen::g_invalid) mc::fail("%s was read as %s, which is not a value of its type", how, text.c_str());
        VectorInputStream in(b);
        if (attempt(how, [&] { Read(in, u); }) != Ok) mc::fail("%s: the value that was read cannot be read again once written", how);
        if (G<T>::show(u) != G<T>::show(t)) mc::fail("%s: the value that was read changes when written and read", how);
        ++n_ok();
    }

    template <class T> std::vector<int> choice(int max)
    {
        std::vector<int> v;
        const int n = G<T>::count();
        for (int i = 0; i < n; i += std::max(1, n / max)) v.push_back(i);
        if (v.back() != n - 1) v.push_back(n - 1);
        return v;
    }

    template <class T> void plain(const char* name)
    {
        mc::begin_scenario(name);
        for (int i : choice<T>(mc::cfg().thorough ? 24 : 8))
        {
            mc::trace_reset();
            T w = T(); G<T>::put(w, i);
            const Bytes b = bytes_of(w);
            mc::trace("%s: value #%d = %s, bytes %s", name, i, G<T>::show(w).c_str(), hex(b).c_str());
            damage(b, [&](const Bytes& x, bool cut)
            {
                T t = T();
                if constexpr (is_ring<T>) G<T>::put(t, 0);
                CountingStream in(x);
                const Outcome o = attempt("Read", [&] { Read(in, t); });
                if (cut && o == Ok) mc::fail("reading %zu of %zu bytes succeeded", x.size(), b.size());
                if (o == Ok) valid(t, "damaged input");
                if (cut)
                {
                    T t2 = T();
                    if constexpr (is_ring<T>) G<T>::put(t2, 0);
                    std::istringstream s(std::string(x.begin(), x.end()));
                    StdInputStream sin(s);
                    if (attempt("Read from std stream", [&] { Read(sin, t2); }) == Ok) mc::fail("reading %zu of %zu bytes from a std stream succeeded", x.size(), b.size());
                }
                if constexpr (std::is_move_assignable_v<T> && !is_ring<T>)
                {
                    T keep = T(); G<T>::put(keep, 0);
                    const std::string before = G<T>::show(keep);
                    VectorInputStream vin(x);
                    PlainSerializable<T> s(keep);
                    if (attempt("PlainSerializable::Read", [&] { s.Read(vin); }) == Io && G<T>::show(keep) != before) mc::fail("a failed PlainSerializable::Read changed the value");
                }
            });
        }
        mc::sample_trace(2);
        mc::cnt("types")++;
    }

    // Formats with meta data: S is a reflectable structure.
    template <class S> void formats(const char* name)
    {
        mc::begin_scenario(name);
        using Hashed = EuphoricallySerializable<S>;
        const Header header { "fmt", 7 };
        for (int i : choice<S>(mc::cfg().thorough ? 6 : 2))
        {
            S w = S(); G<S>::put(w, i);
            for (int kind = 0; kind < 4; ++kind) if (mine())
            {
                static const char* kinds[] = { "VersionTolerantSerializable", "EuphoricallySerializable, block 24", "HeaderedSerializable, block 40", "HeaderedSerializable, one block" };
                mc::trace_reset();
                Bytes b;
                VectorOutputStream out(b);
                if (kind == 0) VersionTolerantSerializable<S>(w).Write(out);
                else if (kind == 1) Hashed(w, 24).Write(out);
                else HeaderedSerializable<S>(header, w, kind == 2 ? 40 : 4096).Write(out);
                mc::trace("%s %s: value #%d = %s, %zu bytes", name, kinds[kind], i, G<S>::show(w).c_str(), b.size());
                damage(b, [&](const Bytes& x, bool cut)
                {
                    const bool longer = x.size() > b.size();
                    S t = S(); G<S>::put(t, 0);
                    const std::string before = G<S>::show(t);
                    VectorInputStream in(x);
                    const Outcome o = attempt(kinds[kind], [&]
                    {
                        if (kind == 0) VersionTolerantSerializable<S>(t).Read(in);
                        else if (kind == 1) Hashed(t, 24).Read(in);
                        else HeaderedSerializable<S>(header, t, kind == 2 ? 40 : 4096).Read(in);
                    });
                    if (o == Io && G<S>::show(t) != before) mc::fail("a failed read changed the value to %s", G<S>::show(t).c_str());
                    if (o == Ok && cut) mc::fail("reading %zu of %zu bytes succeeded", x.size(), b.size());
                    // Everything up to the end of the data is covered by hashes.
                    if (o == Ok && kind != 0) mc::fail("changed bytes were read as %s", G<S>::show(t).c_str());
                    if (o == Ok) { Bytes again; VectorOutputStream ao(again); if (attempt("Write", [&] { VersionTolerantSerializable<S>(t).Write(ao); }) != Ok) mc::fail("the value that was read cannot be written"); ++n_ok(); }
                    (void)longer;
                });
            }
        }
        mc::sample_trace(2);
        mc::cnt("types")++;
    }

    // The header of a file: everything else than the expected one is refused.
    void headers()
    {
        mc::begin_scenario("headers");
        ty::Point w; G<ty::Point>::put(w, 0);
        for (std::string fmt : { "", "f", "fmt", "fmu", "FMT", "fmtx" }) for (size_t ver : { 0, 1, 6, 7, 8, 255, 256 }) for (std::string efmt : { "", "fmt", "fmtx" }) for (size_t ever : { 0, 7, 256 }) for (size_t limit : { 0, 2, 3, 4, 64 })
        {
            mc::trace_reset();
            mc::trace("written with format '%s' version %zu, read with '%s' version %zu, names limited to %zu", fmt.c_str(), ver, efmt.c_str(), ever, limit);
            ++n_states();
            Bytes b; VectorOutputStream out(b);
            HeaderedSerializable<ty::Point>({ fmt, ver }, w).Write(out);
            ty::Point t { 99, false };
            VectorInputStream in(b);
            const Outcome o = attempt("HeaderedSerializable::Read", [&] { HeaderedSerializable<ty::Point>({ efmt, ever }, t, defaultBlockSize, {}, limit).Read(in); });
            const bool good = fmt == efmt && ver == ever && fmt.size() <= limit;
            if (good != (o == Ok)) mc::fail(good ? "the right header was refused" : "a wrong header was accepted");
            if (o == Io && (t.x != 99 || t.y)) mc::fail("a refused file changed the value");
            if (o == Ok && (t.x != w.x || t.y != w.y)) mc::fail("another value was read");
            // The writer obeys the limit, too.
            Bytes c; VectorOutputStream cout(c);
            if ((attempt("HeaderedSerializable::Write", [&] { HeaderedSerializable<ty::Point>({ fmt, ver }, w, defaultBlockSize, {}, limit).Write(cout); }) == Ok) != (fmt.size() <= limit)) mc::fail("the limit of the format name is not obeyed when writing");
        }
    }
    // Readers of several objects: a wrong structure index in any place.
    template <class T> std::string type_name() { std::string s = __PRETTY_FUNCTION__; auto a = s.find("T = "); s = s.substr(a + 4); return s.substr(0, s.find(';')).substr(0, 90); }
    template <class T> bool selected(std::string& n) { n = type_name<T>(); return mc::cfg().only.empty() || n.find(mc::cfg().only) != std::string::npos; }
    template <class T> void each() { std::string n; if (mine() && selected<T>(n)) plain<T>(n.c_str()); }
    template <class T> void each_f() { std::string n; if (selected<T>(n)) formats<T>(n.c_str()); }
    template <class... Ts> void run(ty::List<Ts...>) { (each<Ts>(), ...); }
    template <class... Ts> void run_f(ty::List<Ts...>) { (each_f<Ts>(), ...); }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    using ty::W;
#if PART == 0
    run(ty::A1{}); run(ty::A2{}); run(ty::B1{}); run(ty::B2{});
#elif PART == 1
    run(ty::C1{}); run(ty::C2{}); run(ty::D1{}); run(ty::P1{});
#else
    run_f(ty::List<ty::Point, ty::Deep, ty::Maps, ty::Misc, W<ty::Color>, W<std::vector<bool>>, W<std::variant<int32_t, ty::Point, std::string>>, W<std::optional<std::vector<ty::Deep>>>, W<std::map<std::string, std::shared_ptr<ty::Point>>>, W<W<ty::Deep>>, W<awl::decimal<uint64_t, 5>>>{});
    if (mine() && (mc::cfg().only.empty() || mc::cfg().only == "headers")) headers();
#endif
    return mc::finish();
}
