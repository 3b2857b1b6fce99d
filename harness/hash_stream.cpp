// S04: every chunking of writes and reads, every damage and every failure of the stream below, of short hashed streams.
#include "mc.hpp"
#include "Awl/Io/HashStream.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/StdStream.h"
#include "Awl/Io/EuphoricallySerializable.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/Crypto/Crc64.h"
#include <sstream>

namespace
{
    using namespace awl::io;
    using Bytes = std::vector<uint8_t>;
    unsigned long long& n_exec() { static auto& n = mc::cnt("executions"); return n; }
    unsigned long long& n_trans() { static auto& n = mc::cnt("transitions"); return n; }
    unsigned long long& n_states() { static auto& n = mc::cnt("states"); return n; }
    int g_no = 0;
    bool mine() { return g_no++ % mc::cfg().shards == mc::cfg().shard; }
    bool wanted(const char* s) { return mc::cfg().only.empty() || mc::cfg().only == s; }

    // ---- oracle: CRC-64 (Jones, reflected) bit by bit, most significant byte first, after each block ----
    uint64_t crc(uint64_t seed, const uint8_t* p, size_t n)
    {
        uint64_t c = seed;
        while (n--)
        {
            c ^= *p++;
            for (int i = 0; i < 8; ++i) c = c & 1 ? (c >> 1) ^ 0x95AC9329AC4BC9B5ull : c >> 1;
        }
        return c;
    }
    using awl::crypto::Crc64;
    using awl::crypto::FakeHash;
    // A hash of one byte and one of sixteen.
    struct Sum : awl::crypto::BasicHash<1> { template <class I> value_type operator()(I b, I e) const { uint8_t s = 5; while (b != e) s = s * 3 + *b++; return { s }; } };
    struct Wide : awl::crypto::BasicHash<16> { template <class I> value_type operator()(I b, I e) const { value_type v {}; for (size_t k = 1; b != e; ++b, ++k) for (size_t i = 0; i < 16; ++i) v[i] = uint8_t(v[i] * (2 * i + 3) + *b * k + 1); return v; } };
    template <class H> struct Ref;
    template <> struct Ref<Crc64> { uint64_t seed = 127; static constexpr bool detects = true; Crc64 make() const { return Crc64(seed); } Bytes of(const uint8_t* p, size_t n) const { uint64_t c = crc(seed, p, n); Bytes r; for (int i = 56; i >= 0; i -= 8) r.push_back(uint8_t(c >> i)); return r; } };
    template <> struct Ref<FakeHash> { static constexpr bool detects = false; FakeHash make() const { return {}; } Bytes of(const uint8_t*, size_t) const { return {}; } };
    template <> struct Ref<Sum> { static constexpr bool detects = false; Sum make() const { return {}; } Bytes of(const uint8_t* p, size_t n) const { auto v = Sum()(p, p + n); return Bytes(v.begin(), v.end()); } };
    template <> struct Ref<Wide> { static constexpr bool detects = false; Wide make() const { return {}; } Bytes of(const uint8_t* p, size_t n) const { auto v = Wide()(p, p + n); return Bytes(v.begin(), v.end()); } };

    template <class H> Bytes stored(const Bytes& data, size_t block, const Ref<H>& ref)
    {
        Bytes r;
        const size_t room = block - H::size();
        for (size_t i = 0; i < data.size(); i += room)
        {
            const size_t n = std::min(room, data.size() - i);
            r.insert(r.end(), data.begin() + i, data.begin() + i + n);
            const Bytes h = ref.of(data.data() + i, n);
            r.insert(r.end(), h.begin(), h.end());
        }
        return r;
    }
    std::string hex(const Bytes& b) { std::string s; char t[4]; for (auto c : b) { snprintf(t, 4, "%02x", c); s += t; } return s; }
    Bytes sample(size_t n, int kind)
    {
        Bytes b(n);
        for (size_t i = 0; i < n; ++i) b[i] = kind == 0 ? uint8_t(0x11 + i * 29) : kind == 1 ? 0 : uint8_t(0xff - i % 2);
        // The hash of nothing.
        if (kind == 3) for (size_t i = 0; i < n; ++i) b[i] = i % 8 == 7 ? 127 : 0;
        return b;
    }

    // f(chunks): every way to cut n into pieces; and each of them with an empty piece at any place
    template <class F> void cuts(size_t n, F f)
    {
        for (uint32_t m = 0; m < (n ? 1u << (n - 1) : 1u); ++m)
        {
            std::vector<size_t> c;
            size_t last = 0;
            for (size_t i = 1; i <= n; ++i) if (i == n || m >> (i - 1) & 1) { c.push_back(i - last); last = i; }
            f(c);
            for (size_t p = 0; p <= c.size(); ++p) { auto d = c; d.insert(d.begin() + p, 0); f(d); }
        }
    }
    std::string text(const std::vector<size_t>& c) { std::string s; for (auto n : c) s += " " + std::to_string(n); return s; }

    // An input stream that fails at chosen calls and does not lose anything then.
    struct Flaky : SequentialInputStream
    {
        VectorInputStream in; int fail_at; int calls = 0;
        Flaky(const Bytes& b, int f) : in(b), fail_at(f) {}
        bool End() override { return in.End(); }
        size_t Read(uint8_t* p, size_t n) override { if (calls++ == fail_at) { memset(p, 0xEE, n); throw IoError(_T("no")); } return in.Read(p, n); }
    };
    struct FlakyOut : SequentialOutputStream
    {
        Bytes b; int fail_at; int calls = 0;
        FlakyOut(int f) : fail_at(f) {}
        void Write(const uint8_t* p, size_t n) override { if (calls++ == fail_at) throw IoError(_T("no")); b.insert(b.end(), p, p + n); }
    };
    // Buffers of the exact size: the sanitizer sees every byte too many.
    size_t read_exact(SequentialInputStream& in, size_t n, Bytes& to)
    {
        std::unique_ptr<uint8_t[]> p(new uint8_t[n]);
        const size_t r = in.Read(n ? p.get() : nullptr, n);
        if (r > n) mc::fail("Read(%zu) returned %zu", n, r);
        to.insert(to.end(), p.get(), p.get() + r);
        return r;
    }

    template <class H> void chunkings(const char* name, Ref<H> ref, size_t max)
    {
        if (!wanted("chunkings") || !mine()) return;
        mc::begin_scenario("chunkings");
        for (size_t room = 1; room <= 5; ++room) for (size_t n = 0; n <= max; ++n)
        {
            const size_t block = H::size() + room;
            const Bytes data = sample(n, 0), want = stored<H>(data, block, ref);
            mc::trace_reset();
            mc::trace("%s, blocks of %zu + %zu bytes, %zu bytes", name, room, size_t(H::size()), n);
            const size_t mark = mc::g_trace_len;
            cuts(n, [&](const std::vector<size_t>& c) { for (int how = 0; how < 3; ++how)
            {
                mc::g_trace_len = mark;
                mc::trace("written in pieces of%s, %s", text(c).c_str(), how == 0 ? "flushed by the destructor" : how == 1 ? "flushed twice" : "flushed once");
                ++n_exec(); ++n_states();
                Bytes b; VectorOutputStream u(b);
                {
                    HashOutputStream<H> out(u, block, ref.make());
                    size_t pos = 0;
                    for (size_t k : c)
                    {
                        std::unique_ptr<uint8_t[]> p(new uint8_t[k]);
                        if (k) memcpy(p.get(), data.data() + pos, k);
                        out.Write(p.get(), k); pos += k; ++n_trans();
                        if (b.size() % block) mc::fail("a part of a block was written before the end");
                    }
                    for (int f = 0; f < (how == 2 ? 1 : how == 1 ? 2 : 0); ++f) { out.Flush(); if (b != want) mc::fail("Flush left %s, expected %s", hex(b).c_str(), hex(want).c_str()); }
                }
                if (b != want) mc::fail("stored %s instead of %s", hex(b).c_str(), hex(want).c_str());
            } });
            cuts(n, [&](const std::vector<size_t>& c) { for (int how = 0; how < 8; ++how)
            {
                mc::g_trace_len = mark;
                mc::trace("read in pieces of%s%s%s", text(c).c_str(), how & 1 ? ", asking for the end in between" : "", how & 2 ? ", the last piece larger than what is left" : "");
                ++n_exec(); ++n_states();
                VectorInputStream u(want);
                std::istringstream ss(std::string(want.begin(), want.end()));
                StdInputStream su(ss);
                HashInputStream<H> in(how & 4 ? static_cast<SequentialInputStream&>(su) : u, block, ref.make());
                Bytes got;
                for (size_t i = 0; i < c.size(); ++i)
                {
                    if (how & 1 && in.End() != (got.size() == n)) mc::fail("End() is wrong after %zu of %zu bytes", got.size(), n);
                    const bool over = how & 2 && i + 1 == c.size();
                    const size_t r = read_exact(in, c[i] + (over ? room + 2 : 0), got); ++n_trans();
                    if (r != std::min(c[i], n - (got.size() - r))) mc::fail("Read(%zu) returned %zu", c[i], r);
                }
                if (got != data) mc::fail("read %s instead of %s", hex(got).c_str(), hex(data).c_str());
                if (!in.End()) mc::fail("End() is false at the end");
                if (read_exact(in, 3, got) || read_exact(in, 0, got)) mc::fail("bytes were read after the end");
                if (!in.End()) mc::fail("End() is false at the end");
            } });
        }
        mc::sample_trace(2);
    }

    // Reads all of a damaged form in one of several ways. Returns what was delivered before the first exception.
    template <class H> void read_damaged(const Bytes& x, size_t block, const Ref<H>& ref, const std::vector<Bytes>& blocks, size_t good, bool corrupted, int way)
    {
        int no = 0;
        for (size_t step : { size_t(1), size_t(3), x.size() + 1 }) for (bool ends : { false, true })
        {
            if (way >= 0 && no++ != way % 6) continue;
            ++n_exec();
            VectorInputStream u(x);
            HashInputStream<H> in(u, block, ref.make());
            Bytes got;
            bool thrown = false;
            size_t calls = 0;
            try
            {
                for (;;)
                {
                    ++n_trans();
                    // A step that crosses the damaged block delivers nothing of it: what is in front comes with smaller steps.
                    if (ends && in.End()) break;
                    if (read_exact(in, step, got) < step && !ends) break;
                    if (++calls > 10 * x.size() + 10) mc::fail("reading does not come to an end");
                }
            }
            catch (const CorruptionException&) { thrown = true; }
            catch (const std::exception& e) { mc::fail("%s instead of a corruption exception", e.what()); }
            Bytes want;
            for (size_t i = 0; i < good; ++i) want.insert(want.end(), blocks[i].begin(), blocks[i].end());
            if (thrown != corrupted) mc::fail(thrown ? "corruption was reported although every block that is there is intact (steps of %zu)" : "the damage was not reported (steps of %zu), %zu bytes were read", step, got.size());
            if (!corrupted || step == 1) { if (got != want) mc::fail("delivered %s, the intact blocks in front of the damage have %s (steps of %zu)", hex(got).c_str(), hex(want).c_str(), step); }
            else if (got.size() > want.size() || !std::equal(got.begin(), got.end(), want.begin())) mc::fail("delivered %s, the intact blocks in front of the damage have %s (steps of %zu)", hex(got).c_str(), hex(want).c_str(), step);
            // Going on after the exception delivers nothing that was not verified.
            Bytes more;
            if (thrown) for (int again = 0; again < 20; ++again)
            {
                ++n_trans();
                try { if (ends && in.End()) break; if (!read_exact(in, block, more)) break; }
                catch (const CorruptionException&) { more.clear(); continue; }
                bool fits = false;
                for (size_t j = 0; j < blocks.size() && !fits; ++j)
                {
                    Bytes rest;
                    for (size_t k = j; k < blocks.size(); ++k) rest.insert(rest.end(), blocks[k].begin(), blocks[k].end());
                    fits = more.size() <= rest.size() && std::equal(more.begin(), more.end(), rest.begin());
                }
                if (!fits) mc::fail("after the exception the unverified bytes %s were delivered", hex(more).c_str());
            }
        }
    }

    void damage(size_t room, size_t n, int kind, uint64_t seed)
    {
        if (!wanted("damage") || !mine()) return;
        mc::begin_scenario("damage");
        Ref<Crc64> ref { seed };
        const size_t block = 8 + room;
        const Bytes data = sample(n, kind), good = stored<Crc64>(data, block, ref);
        std::vector<Bytes> blocks;
        for (size_t i = 0; i < n; i += room) blocks.emplace_back(data.begin() + i, data.begin() + std::min(n, i + room));
        mc::trace_reset();
        mc::trace("blocks of %zu + 8 bytes, %zu bytes of kind %d, seed %llu: %s", room, n, kind, (unsigned long long)seed, hex(good).c_str());
        const size_t mark = mc::g_trace_len;
        auto one = [&](const Bytes& x, size_t first, bool corrupted, int way = -1) { ++n_states(); mc::g_progress = mc::g_progress + 1; read_damaged<Crc64>(x, block, ref, blocks, first, corrupted, mc::cfg().thorough ? -1 : way); };
        auto note = [&](const char* f, auto... a) { mc::g_trace_len = mark; mc::trace(f, a...); };
        one(good, blocks.size(), false);
        for (size_t i = 0; i < good.size(); ++i) for (int v = 1; v < 256; ++v)
        {
            Bytes x = good; x[i] ^= v;
            note("byte %zu changed from %02x to %02x", i, good[i], x[i]);
            one(x, i / block, true, v & v - 1 ? v : -1);
        }
        for (size_t cut = 0; cut < good.size(); ++cut)
        {
            note("cut to %zu of %zu bytes", cut, good.size());
            const size_t whole = cut / block, part = cut % block;
            // What is left of a block that happens to be data and its hash is a shorter block: no format can tell.
            bool fits = false;
            if (part > 8) fits = ref.of(good.data() + whole * block, part - 8) == Bytes(good.begin() + cut - 8, good.begin() + cut);
            if (fits) { mc::cnt("cuts_that_look_complete")++; continue; }
            one(Bytes(good.begin(), good.begin() + cut), whole, part != 0);
        }
        // Bursts of up to 8 bytes (inside one block), bytes lost, repeated, exchanged, added.
        for (size_t i = 0; i < good.size(); ++i)
        {
            for (size_t len = 2; len <= 8; ++len) if (i / block == (i + len - 1) / block && i + len <= good.size())
                for (int v : mc::cfg().thorough ? std::vector<int>{ 1, 2, 4, 8, 16, 32, 64, 128, 255, 0x55, 0xaa, 0x81, 3, 0x18 } : std::vector<int>{ 1, 128, 255, 0x81 }) for (int w : { 1, 0x80, 0xff }) for (int mid : { 0, 0xff })
            {
                Bytes x = good;
                x[i] ^= v; x[i + len - 1] ^= w;
                for (size_t k = 1; k + 1 < len; ++k) x[i + k] ^= mid;
                note("%zu bytes from %zu on changed by %02x %02x.. %02x", len, i, v, mid, w);
                one(x, i / block, true, v + w / 7 + mid);
            }
            if (mc::cfg().thorough && i + 1 < good.size() && i / block == (i + 1) / block) for (int v = 1; v < 256; ++v) for (int w = 1; w < 256; w += w)
            {
                if (i % 3) break;
                Bytes x = good; x[i] ^= v; x[i + 1] ^= w;
                note("bytes from %zu on changed by %02x %02x", i, v, w);
                one(x, i / block, true, v + w);
            }
            {
                Bytes x = good; x.erase(x.begin() + i);
                // A loss inside a run of equal bytes at the end of everything is a cut.
                note("byte %zu lost", i);
                const size_t from = std::mismatch(x.begin(), x.end(), good.begin()).first - x.begin();
                if (kind == 0) one(x, from / block, true);
            }
            if (kind == 0)
            {
                Bytes x = good; x.insert(x.begin() + i, x[i]);
                note("byte %zu twice", i);
                const size_t from = std::mismatch(good.begin(), good.end(), x.begin()).first - good.begin();
                // A whole block at the front of the end stays as it is when something comes behind it.
                one(x, from == good.size() && good.size() % block == 0 ? blocks.size() : from == good.size() ? blocks.size() - 1 : from / block, true);
            }
            if (i + 1 < good.size() && good[i] != good[i + 1])
            {
                Bytes x = good; std::swap(x[i], x[i + 1]);
                note("bytes %zu and %zu exchanged", i, i + 1);
                one(x, i / block, true);
            }
        }
        for (size_t extra = 1; extra <= 20; ++extra) for (int v : { 0x33, 0xff })
        {
            Bytes x = good; x.insert(x.end(), extra, v);
            note("%zu bytes %02x added at the end", extra, v);
            if (good.size() % block + extra > 8) { const size_t at = good.size() / block * block, len = std::min(block, x.size() - at); if (len > 8 && ref.of(x.data() + at, len - 8) == Bytes(x.begin() + at + len - 8, x.begin() + at + len)) continue; }
            one(x, good.size() / block, true);
        }
        mc::sample_trace(2);
    }

    // The stream below fails once; the reader asks again and gets everything.
    template <class H> void faults(const char* name, Ref<H> ref)
    {
        if (!wanted("faults") || !mine()) return;
        mc::begin_scenario("faults");
        for (size_t room = 1; room <= 4; ++room) for (size_t n = 0; n <= 10; ++n)
        {
            const size_t block = H::size() + room;
            const Bytes data = sample(n, 0), good = stored<H>(data, block, ref);
            for (int at = 0; at < 14; ++at) for (size_t step = 1; step <= n + 2; ++step) for (bool ends : { false, true })
            {
                mc::trace_reset();
                mc::trace("%s, blocks of %zu, %zu bytes, call %d of the stream below fails, steps of %zu%s", name, block, n, at, step, ends ? ", asking for the end" : "");
                ++n_exec(); ++n_states();
                Flaky u(good, at);
                HashInputStream<H> in(u, block, ref.make());
                Bytes got;
                int thrown = 0;
                for (int i = 0; i < 40; ++i)
                {
                    ++n_trans();
                    const size_t before = got.size();
                    Bytes part;
                    try { if (ends && in.End()) break; const size_t r = read_exact(in, step, part); got.insert(got.end(), part.begin(), part.end()); if (r < step) break; }
                    // A failed read may have taken the rest of the block in front: no way to know how much.
                    catch (const IoError&) { ++thrown; if (step > 1) { got.clear(); break; } if (got.size() != before) mc::fail("a failed read delivered bytes"); }
                    catch (const std::exception& e) { mc::fail("%s", e.what()); }
                }
                if (thrown > 1) mc::fail("one failure was reported %d times", thrown);
                if ((u.calls > at) != (thrown == 1)) mc::fail("a failure was swallowed");
                if (!(thrown && step > 1) && got != data) mc::fail("read %s instead of %s", hex(got).c_str(), hex(data).c_str());
                if (thrown && step > 1)
                {
                    // After the exception: only verified bytes.
                    for (int i = 0; i < 40; ++i) { Bytes more; if (!read_exact(in, 1, more)) break; if (std::find(data.begin(), data.end(), more[0]) == data.end()) mc::fail("a byte that was never written was delivered"); }
                }
            }
            for (int at = 0; at < 14; ++at) for (size_t step = 1; step <= n + 1; ++step) for (bool flush : { false, true })
            {
                mc::trace_reset();
                mc::trace("%s, blocks of %zu, %zu bytes written in steps of %zu, call %d of the stream below fails%s", name, block, n, step, at, flush ? "" : ", the destructor flushes");
                ++n_exec(); ++n_states();
                FlakyOut u(at);
                bool thrown = false;
                try
                {
                    HashOutputStream<H> out(u, block, ref.make());
                    for (size_t i = 0; i < n; i += step) { out.Write(data.data() + i, std::min(step, n - i)); ++n_trans(); }
                    if (flush) out.Flush();
                }
                catch (const IoError&) { thrown = true; }
                const size_t blocks = (n + room - 1) / room;
                const bool hits = at < (int)blocks, by_destructor = !flush && n % room && at == (int)blocks - 1;
                if (thrown != (hits && !by_destructor)) mc::fail(thrown ? "a failure was reported that did not happen" : "a failed write was not reported");
                const Bytes want(good.begin(), good.begin() + std::min(good.size(), hits ? at * block : good.size()));
                if (u.b != want) mc::fail("%s was stored instead of %s", hex(u.b).c_str(), hex(want).c_str());
                if (u.calls > (int)blocks) mc::fail("a failed block was written again");
            }
        }
    }

    // The hash itself, against its definition; and through iterators of wider types.
    void hashes()
    {
        if (!wanted("hashes") || !mine()) return;
        mc::begin_scenario("hashes");
        auto one = [&](uint64_t seed, const Bytes& b)
        {
            ++n_exec(); ++n_trans(); ++n_states();
            const auto v = Crc64(seed)(b.begin(), b.end());
            if (Bytes(v.begin(), v.end()) != Ref<Crc64>{ seed }.of(b.data(), b.size())) { mc::trace_reset(); mc::trace("seed %llx, bytes %s", (unsigned long long)seed, hex(b).c_str()); mc::fail("the hash is %s instead of %s", hex(Bytes(v.begin(), v.end())).c_str(), hex(Ref<Crc64>{ seed }.of(b.data(), b.size())).c_str()); }
        };
        for (uint64_t seed : { 127ull, 0ull, ~0ull, 0x0123456789abcdefull })
        {
            one(seed, {});
            for (int i = 0; i < 256; ++i) { one(seed, { uint8_t(i) }); for (int k = 0; k < 256; ++k) one(seed, { uint8_t(i), uint8_t(k) }); }
            for (size_t n = 3; n < 300; ++n) for (int kind = 0; kind < 4; ++kind) one(seed, sample(n, kind));
        }
        // Wider elements are hashed most significant byte first.
        for (int i = 0; i < 65536; ++i) { const std::vector<uint16_t> w { uint16_t(i), uint16_t(~i) }; const auto v = Crc64()(w.begin(), w.end()); ++n_exec(); if (Bytes(v.begin(), v.end()) != Ref<Crc64>{}.of(Bytes{ uint8_t(i >> 8), uint8_t(i), uint8_t(~i >> 8), uint8_t(~i) }.data(), 4)) mc::fail("the hash of two 16-bit numbers is wrong"); }
    }

    // Whole objects through every block size.
    struct Obj { std::vector<uint8_t> v; std::string s; int32_t i = 0; AWL_REFLECT(v, s, i) };
    void objects()
    {
        if (!wanted("objects")) return;
        mc::begin_scenario("objects");
        for (size_t len : { 0, 1, 5, 40, 300 }) if (mine()) for (size_t block = 9; block < 420; ++block) for (int headers = 0; headers < 2; ++headers)
        {
            mc::trace_reset();
            mc::trace("object with %zu bytes in blocks of %zu%s", len, block, headers ? ", with a header" : "");
            ++n_exec(); ++n_states();
            Obj o { sample(len, 0), "text", int(len) }, p { { 1 }, "old", -1 };
            const Header h { "format", 3 };
            Bytes b; VectorOutputStream out(b);
            if (headers) HeaderedSerializable<Obj>(h, o, block).Write(out); else EuphoricallySerializable<Obj>(o, block).Write(out);
            // The stored form is the plain one in blocks.
            Bytes plain; { VectorOutputStream po(plain); if (headers) Write(po, h, LimitedContext{ 64 }); WriteV(po, o); }
            if (b != stored<Crc64>(plain, block, Ref<Crc64>{})) mc::fail("the stored form is not the one of the hash stream");
            auto read = [&](const Bytes& x, Obj& t) { VectorInputStream in(x); if (headers) HeaderedSerializable<Obj>(h, t, block).Read(in); else EuphoricallySerializable<Obj>(t, block).Read(in); };
            Obj t = p;
            read(b, t);
            if (t.v != o.v || t.s != o.s || t.i != o.i) mc::fail("another object was read");
            if (block % 16 == 9) for (size_t i = 0; i < b.size(); ++i) for (int v : { 1, 0x80, 0xff })
            {
                ++n_exec(); ++n_trans();
                Bytes x = b; x[i] ^= v;
                Obj u = p;
                bool thrown = false;
                try { read(x, u); } catch (const CorruptionException&) { thrown = true; } catch (const std::exception& e) { mc::fail("byte %zu: %s", i, e.what()); }
                if (!thrown) mc::fail("a change of byte %zu was not reported", i);
                if (u.v != p.v || u.s != p.s || u.i != p.i) mc::fail("a failed read changed the object");
            }
        }
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool deep = mc::cfg().thorough;
    for (size_t m : { deep ? 12 : 10 })
    {
        chunkings<Crc64>("CRC64", {}, m);
        chunkings<FakeHash>("no hash", {}, m);
        chunkings<Sum>("hash of one byte", {}, m);
        chunkings<Wide>("hash of 16 bytes", {}, m);
    }
    for (size_t room : { 1, 2, 3, 5, 9, 12, 16 }) for (size_t n : deep ? std::vector<size_t>{ 0, 1, 2, 3, 5, 7, 8, 9, 16, 18, 19, 24, 33 } : std::vector<size_t>{ 0, 1, 2, 5, 9, 16, 19 }) for (int kind = 0; kind < 4; ++kind) if (n <= 12 * room)
        damage(room, n, kind, 127);
    damage(4, 9, 0, 0); damage(4, 9, 1, ~0ull);
    faults<Crc64>("CRC64", {});
    faults<FakeHash>("no hash", {});
    hashes();
    objects();
    return mc::finish();
}
