// S01: every value of a bounded generator per type is written and read back through every kind of stream and format
// into a target holding every other value.
#include "rwtypes.hpp"
#include "Awl/Io/StdStream.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/MeasureStream.h"
#include "Awl/Io/BufferedStream.h"
#include "Awl/Io/HashStream.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/PlainReader.h"
#include "Awl/Io/VersionTolerantSerializable.h"
#include "Awl/Io/EuphoricallySerializable.h"
#include "Awl/Crypto/Crc64.h"
#include <sstream>

#ifndef PART
#define PART 0
#endif

namespace
{
    using Bytes = std::vector<uint8_t>;
    using gen::G;
    using namespace awl::io;
    unsigned long long& n_exec() { static auto& n = mc::cnt("executions"); return n; }
    unsigned long long& n_trans() { static auto& n = mc::cnt("transitions"); return n; }
    unsigned long long& n_states() { static auto& n = mc::cnt("states"); return n; }

    const Bytes tail3 = { 0xA5, 0x5A, 0xC3 };

    template <class F> void guarded(const char* what, F f)
    {
        try { f(); }
        catch (const awl::io::IoException& e) { mc::fail("%s threw an I/O exception: %s", what, e.What().c_str()); }
        catch (const std::exception& e) { mc::fail("%s threw %s", what, e.what()); }
    }
    template <class In> void expect_tail(In& in, const char* how)
    {
        uint8_t b[8];
        const size_t n = in.Read(b, 8);
        if (n != 3 || memcmp(b, tail3.data(), 3)) mc::fail("%s: reading did not consume exactly what was written (%zu bytes are left instead of 3)", how, n);
        if (!in.End()) mc::fail("%s: the stream is not at its end", how);
    }
    template <class T> void expect(const T& t, const T& w, const char* how)
    {
        ++n_trans();
        const std::string a = G<T>::show(w), b = G<T>::show(t);
        if (a != b) mc::fail("%s: read back %s instead of %s", how, b.c_str(), a.c_str());
    }

    template <class T> Bytes bytes_of(const T& t) { Bytes v; VectorOutputStream o(v); Write(o, t); return v; }

    template <class T> std::vector<std::unique_ptr<T>> values()
    {
        std::vector<std::unique_ptr<T>> v;
        for (int i = 0; i < G<T>::count(); ++i) { v.emplace_back(new T()); G<T>::put(*v.back(), i); }
        return v;
    }
    template <class T> void assign(T& t, int prior) { if (prior >= 0) G<T>::put(t, prior); }

    // Reads b (followed by the tail) into a target that held value number prior, through stream kind k.
    constexpr int kinds = 7;
    template <class T> void read_back(const Bytes& b, const T& w, int prior, int k)
    {
        static const char* names[] = { "vector stream", "vector stream as base class", "std stream", "buffered stream, block 1", "buffered stream, block 3", "hash stream, block 9", "hash stream, block 21" };
        mc::trace("read through %s into a target that holds value #%d", names[k], prior);
        ++n_exec();
        T t = T();
        assign(t, prior);
        Bytes all = b;
        all.insert(all.end(), tail3.begin(), tail3.end());
        auto go = [&](auto& in) { guarded("Read", [&] { Read(in, t); expect(t, w, names[k]); expect_tail(in, names[k]); }); };
        if (k == 0) { VectorInputStream in(all); go(in); }
        else if (k == 1) { VectorInputStream in(all); go(static_cast<SequentialInputStream&>(in)); }
        else if (k == 2) { std::istringstream s(std::string(all.begin(), all.end())); StdInputStream in(s); go(in); }
        else if (k <= 4) { VectorInputStream u(all); BufferedInputStream in(u, k == 3 ? 1 : 3); go(in); }
        else
        {
            Bytes h;
            { VectorOutputStream o(h); HashOutputStream<awl::crypto::Crc64> out(o, k == 5 ? 9 : 21); out.Write(all.data(), all.size()); }
            VectorInputStream u(h);
            HashInputStream<awl::crypto::Crc64> in(u, k == 5 ? 9 : 21);
            go(in);
        }
    }

    template <class T> void write_kinds(const T& w, const Bytes& b)
    {
        auto same = [&](const Bytes& o, const char* how) { ++n_trans(); if (o != b) mc::fail("%s wrote other bytes than the vector stream (%zu instead of %zu)", how, o.size(), b.size()); };
        { Bytes v; VectorOutputStream o(v); Write(static_cast<SequentialOutputStream&>(o), w); same(v, "the vector stream as base class"); }
        { std::ostringstream s; StdOutputStream o(s); Write(o, w); const std::string x = s.str(); same(Bytes(x.begin(), x.end()), "the std stream"); }
        for (size_t block : { 1, 3, 64 }) { Bytes v; { VectorOutputStream u(v); BufferedOutputStream o(u, block); Write(o, w); } same(v, "the buffered stream"); }
        { MeasureStream m; Write(m, w); if (m.GetLength() != b.size()) mc::fail("the measured length is %zu, but %zu bytes are written", m.GetLength(), b.size()); }
    }

    template <class T> constexpr bool is_ring = requires(T& t) { t.push_back(*t.begin()); t.push_front(*t.begin()); t.capacity(); };

    template <class T> void plain(const char* name)
    {
        mc::begin_scenario(name);
        auto vals = values<T>();
        const int n = vals.size();
        std::vector<Bytes> enc(n);
        std::map<Bytes, std::string> by;
        for (int i = 0; i < n; ++i)
        {
            mc::trace_reset();
            ++n_states();
            const std::string s = G<T>::show(*vals[i]);
            mc::trace("%s: write value #%d = %s", name, i, s.c_str());
            guarded("Write", [&] { enc[i] = bytes_of(*vals[i]); });
            if (G<T>::show(*vals[i]) != s) mc::fail("writing changed the value");
            auto [it, fresh] = by.emplace(enc[i], s);
            if (!fresh && it->second != s) mc::fail("%s and %s have the same bytes", it->second.c_str(), s.c_str());
            guarded("Write", [&] { write_kinds(*vals[i], enc[i]); });
            for (int p = is_ring<T> ? 0 : -1; p < n; ++p)
            {
                const size_t mark = mc::g_trace_len;
                read_back<T>(enc[i], *vals[i], p, 0);
                mc::g_trace_len = mark;
                if (p <= 1 || p == n - 1) for (int k = 1; k < kinds; ++k) { read_back<T>(enc[i], *vals[i], p, k); mc::g_trace_len = mark; }
            }
        }
        // One after another in one stream, in every rotation and step, into one target.
        for (int step = 1; step <= std::min(n, 5); ++step)
        {
            mc::trace_reset();
            mc::trace("%s: all values in one stream, step %d", name, step);
            Bytes all;
            { VectorOutputStream o(all); for (int i = 0; i < n; ++i) Write(o, *vals[i * step % n]); }
            T t = T();
            if constexpr (is_ring<T>) G<T>::put(t, 0);
            VectorInputStream in(all);
            for (int i = 0; i < n; ++i) { guarded("Read", [&] { Read(in, t); }); expect(t, *vals[i * step % n], "one of many values in a stream"); }
            if (!in.End()) mc::fail("the stream is not at its end");
            ++n_exec();
        }
        mc::sample_trace(2);
        mc::cnt("types")++;
        mc::cnt("values") += n;
    }

    // The version-tolerant formats, same version on both sides.
    template <class S> void tolerant(const char* name)
    {
        mc::begin_scenario(name);
        using V = awl::mp::variant_from_struct<S>;
        auto vals = values<S>();
        const int n = vals.size();
        std::map<Bytes, std::string> by;
        for (int i = 0; i < n; ++i)
        {
            mc::trace_reset();
            ++n_states();
            const std::string s = G<S>::show(*vals[i]);
            mc::trace("%s: write value #%d = %s", name, i, s.c_str());
            Bytes full, bare;
            guarded("WriteV", [&] { VectorOutputStream o(full); WriteV(o, *vals[i]); });
            guarded("WriteV", [&] { VectorOutputStream o(bare); Writer<V> w; w.WriteV(o, *vals[i]); });
            auto [it, fresh] = by.emplace(full, s);
            if (!fresh && it->second != s) mc::fail("%s and %s have the same bytes", it->second.c_str(), s.c_str());
            { VersionTolerantSerializable<S> vts(*vals[i]); Bytes o; VectorOutputStream out(o); vts.Write(out); if (o != full) mc::fail("VersionTolerantSerializable::Write and WriteV differ"); }
            full.insert(full.end(), tail3.begin(), tail3.end());
            bare.insert(bare.end(), tail3.begin(), tail3.end());
            for (int p = -1; p < n; p = p < 2 ? p + 1 : p + std::max(1, (n - 3) / 8))
            {
                mc::trace("into a target that holds value #%d", p);
                auto one = [&](const char* how, const Bytes& b, auto read) { ++n_exec(); S t = S(); assign(t, p); VectorInputStream in(b); guarded(how, [&] { read(in, t); expect(t, *vals[i], how); expect_tail(in, how); }); };
                one("ReadV", full, [](auto& in, S& t) { ReadV(in, t); });
                one("Reader with equal prototypes", bare, [](auto& in, S& t) { Reader<V> r; r.Initialize(); r.ReadV(in, t); });
                one("PlainReader", bare, [](auto& in, S& t) { PlainReader<V> r; r.ReadV(in, t); });
                one("VersionTolerantSerializable::Read", full, [](auto& in, S& t) { VersionTolerantSerializable<S> v(t); v.Read(in); });
                one("VersionTolerantSerializable::Read, not atomic", full, [](auto& in, S& t) { VersionTolerantSerializable<S, SequentialInputStream, SequentialOutputStream, false> v(t); v.Read(in); });
            }
            // A writer and a reader are used for several objects.
            if (i + 1 < n) guarded("ReadV twice", [&]
            {
                Bytes two;
                { VectorOutputStream o(two); Writer<V> w; w.WriteNewPrototypes(o); w.WriteV(o, *vals[i]); w.WriteV(o, *vals[i + 1]); }
                VectorInputStream in(two);
                Reader<V> r; r.ReadOldPrototypes(in);
                S t = S(); r.ReadV(in, t); expect(t, *vals[i], "first object of a reader"); r.ReadV(in, t); expect(t, *vals[i + 1], "second object of a reader");
                if (!in.End()) mc::fail("the stream is not at its end");
            });
        }
        if constexpr (std::is_copy_assignable_v<S>) guarded("CopyV", [&] { for (auto& v : vals) { S t = S(); CopyV(*v, t); expect(t, *v, "CopyV"); } });
        mc::sample_trace(2);
        mc::cnt("types")++;
        mc::cnt("values") += n;
    }
    template <class T> void serializable(const char* name)
    {
        mc::begin_scenario(name);
        auto vals = values<T>();
        for (auto& v : vals) for (int p = -1; p < std::min<int>(4, vals.size()); ++p)
        {
            mc::trace_reset();
            mc::trace("%s: %s into a target that holds value #%d", name, G<T>::show(*v).c_str(), p);
            Bytes b; { PlainSerializable<T, SequentialInputStream, SequentialOutputStream, false> s(*v); VectorOutputStream o(b); s.Write(o); }
            if (b != bytes_of(*v)) mc::fail("PlainSerializable::Write and Write differ");
            auto one = [&](auto atomic) { ++n_exec(); T t = T(); assign(t, p); PlainSerializable<T, SequentialInputStream, SequentialOutputStream, decltype(atomic)::value> s(t); VectorInputStream in(b); guarded("PlainSerializable::Read", [&] { s.Read(in); }); expect(t, *v, "PlainSerializable::Read"); };
            one(std::false_type{});
            if constexpr (std::is_move_assignable_v<T> && !requires(T t) { t.full(); }) one(std::true_type{});
        }
    }

    int g_no = 0;
    bool mine() { return g_no++ % mc::cfg().shards == mc::cfg().shard; }
    template <class T> std::string type_name() { std::string s = __PRETTY_FUNCTION__; auto a = s.find("T = "); s = s.substr(a + 4); return s.substr(0, s.find(';')).substr(0, 90); }

    template <class T, bool vts> void each()
    {
        if (!mine()) return;
        const std::string n = type_name<T>();
        if (!mc::cfg().only.empty() && n.find(mc::cfg().only) == std::string::npos && mc::cfg().only.find(n) == std::string::npos) return;
        mc::cfg().only.clear();
        plain<T>(n.c_str());
        if constexpr (!is_ring<T>) serializable<T>(("Serializable " + n).c_str());
        if constexpr (vts && !is_ring<T>)
        {
            tolerant<ty::W<T>>(("W<" + n + ">").c_str());
            if constexpr (awl::is_reflectable_v<T>) tolerant<T>(("ReadV " + n).c_str());
        }
    }
    template <bool vts, class... Ts> void run(ty::List<Ts...>) { (each<Ts, vts>(), ...); }

    // Sequences around the lengths at which reading goes on in another way.
    template <class T, class Make> void long_one(const char* name, size_t elem, Make make)
    {
        mc::begin_scenario(std::string("long ") + name);
        std::set<size_t> lengths;
        for (size_t n : { size_t(65536), 65536 / elem, size_t(4096) }) for (size_t m = 1; m <= (mc::cfg().thorough ? 3 : 1); ++m) for (int d = -1; d <= 1; ++d) lengths.insert(n * m + d);
        for (size_t n = 5; n < 65536; n = n * 3 + 1) lengths.insert(n);
        for (size_t n : lengths) for (size_t prior : { size_t(0), n / 2, n + 7 })
        {
            mc::trace_reset();
            mc::trace("%s of length %zu into one of length %zu", name, n, prior);
            ++n_states(); ++n_exec();
            const T w = make(n);
            Bytes b = bytes_of(w);
            b.insert(b.end(), tail3.begin(), tail3.end());
            for (int k = 0; k < 3; ++k)
            {
                T t = make(prior);
                ++n_trans();
                auto go = [&](auto& in) { guarded("Read", [&] { Read(in, t); if (!(t == w)) mc::fail("another value was read (length %zu)", t.size()); expect_tail(in, name); }); };
                if (k == 0) { VectorInputStream in(b); go(in); }
                else if (k == 1) { std::istringstream s(std::string(b.begin(), b.end())); StdInputStream in(s); go(in); }
                else { VectorInputStream u(b); BufferedInputStream in(u, 4099); go(in); }
            }
        }
        mc::cnt("types")++;
    }
    void long_all()
    {
        if (mine()) long_one<std::vector<uint8_t>>("vector<uint8_t>", 1, [](size_t n) { std::vector<uint8_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = uint8_t(i * 37 + i / 256); return v; });
        if (mine()) long_one<std::vector<int32_t>>("vector<int32_t>", 4, [](size_t n) { std::vector<int32_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = int32_t(i * 7919); return v; });
        if (mine()) long_one<std::vector<long double>>("vector<long double>", 16, [](size_t n) { std::vector<long double> v(n); for (size_t i = 0; i < n; ++i) v[i] = (long double)i * 3; return v; });
        if (mine()) long_one<std::vector<bool>>("vector<bool>", 1, [](size_t n) { std::vector<bool> v(n); for (size_t i = 0; i < n; ++i) v[i] = i % 3 == 0 || i % 7 == 0; return v; });
        if (mine()) long_one<std::string>("string", 1, [](size_t n) { std::string v(n, 0); for (size_t i = 0; i < n; ++i) v[i] = char(i * 41 + i / 256); return v; });
        if (mine()) long_one<std::u16string>("u16string", 2, [](size_t n) { std::u16string v(n, 0); for (size_t i = 0; i < n; ++i) v[i] = char16_t(i * 41); return v; });
        if (mine()) long_one<std::wstring>("wstring", 4, [](size_t n) { std::wstring v(n, 0); for (size_t i = 0; i < n; ++i) v[i] = wchar_t(i * 41); return v; });
        if (mine()) long_one<std::vector<std::string>>("vector<string>", sizeof(std::string), [](size_t n) { std::vector<std::string> v(n); for (size_t i = 0; i < n; ++i) v[i].assign(i % 3, char('a' + i % 26)); return v; });
        if (mine()) long_one<std::deque<int16_t>>("deque<int16_t>", 2, [](size_t n) { std::deque<int16_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = int16_t(i * 3); return v; });
    }

    // A structure that can be neither copied nor moved: reading it atomically restores the old value on failure.
    void immovable()
    {
        mc::begin_scenario("structure with an atomic field");
        auto vals = values<ty::At>();
        for (auto& v : vals) for (int p = 0; p < (int)vals.size(); ++p)
        {
            mc::trace_reset();
            Bytes b; { VersionTolerantSerializable<ty::At> s(*v); VectorOutputStream o(b); s.Write(o); }
            ty::At t; G<ty::At>::put(t, p);
            const std::string before = G<ty::At>::show(t);
            mc::trace("%s into %s", G<ty::At>::show(*v).c_str(), before.c_str());
            for (size_t cut = 0; cut < b.size(); ++cut)
            {
                Bytes c(b.begin(), b.begin() + cut);
                VectorInputStream in(c);
                bool thrown = false;
                try { VersionTolerantSerializable<ty::At> s(t); s.Read(in); } catch (const IoException&) { thrown = true; }
                if (!thrown) mc::fail("reading %zu of %zu bytes succeeded", cut, b.size());
                if (G<ty::At>::show(t) != before) mc::fail("a failed read (%zu of %zu bytes) changed the value to %s", cut, b.size(), G<ty::At>::show(t).c_str());
                ++n_exec();
            }
            VectorInputStream in(b);
            { VersionTolerantSerializable<ty::At> s(t); guarded("Read", [&] { s.Read(in); }); }
            expect(t, *v, "VersionTolerantSerializable::Read of an immovable structure");
        }
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    if (mc::cfg().thorough) { gen::g_len = 3; }
#if PART == 0
    run<true>(ty::A1{}); run<true>(ty::A2{});
#elif PART == 1
    run<true>(ty::B1{});
#elif PART == 2
    run<true>(ty::B2{});
#elif PART == 3
    run<true>(ty::C1{});
#elif PART == 4
    run<true>(ty::C2{});
#elif PART == 5
    run<true>(ty::D1{});
#else
    run<false>(ty::P1{});
    if (mine()) immovable();
    long_all();
#endif
    return mc::finish();
}
