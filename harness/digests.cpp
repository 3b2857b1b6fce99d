// H01: digests.  Crc64 / Int64Hash / FixedHash are compared with a bit-at-a-time reference on every short byte string,
// every seed of a set, every element type, every kind of iterator and every split; bursts of damage must change the digest.
#include "heap.hpp"
#include "Awl/Crypto/Crc64.h"
#include "Awl/Crypto/IntHash.h"
#include "Awl/Crypto/FixedHash.h"
#include <forward_list>
#include <list>
#include <deque>
#include <sstream>
#include <iterator>

namespace
{
    using Bytes = std::vector<uint8_t>;
    using Digest = std::array<uint8_t, 8>;

    void tick(const char* what) { mc::cnt(what) += 1; mc::cnt("executions") += 1; mc::cnt("states") += 1; mc::cnt("transitions") += 1; }

    // crc-64-jones, one bit at a time; the polynomial is written as in the specification and reflected here.
    uint64_t reflect(uint64_t v) { uint64_t r = 0; for (int i = 0; i < 64; ++i) if (v >> i & 1) r |= uint64_t(1) << (63 - i); return r; }

    uint64_t reference(const Bytes& b, uint64_t crc)
    {
        static const uint64_t poly = reflect(0xad93d23594c935a9ull);
        for (uint8_t c : b)
            for (int i = 0; i < 8; ++i)
            {
                const bool bit = ((c >> i) ^ crc) & 1;
                crc >>= 1;
                if (bit) crc ^= poly;
            }
        return crc;
    }

    Digest big_endian(uint64_t v) { Digest d; for (int i = 0; i < 8; ++i) d[i] = uint8_t(v >> (56 - 8 * i)); return d; }

    std::string hex(const Bytes& b) { std::string s; char t[4]; for (auto c : b) { snprintf(t, 4, "%02x", c); s += t; } return s; }

    // All byte strings of length len over the alphabet.
    template <class F> void each(const Bytes& alphabet, size_t len, F f)
    {
        Bytes b(len);
        std::vector<size_t> k(len);
        for (;;)
        {
            for (size_t i = 0; i < len; ++i) b[i] = alphabet[k[i]];
            f(b);
            size_t i = 0;
            while (i < len && ++k[i] == alphabet.size()) k[i++] = 0;
            if (i == len) return;
        }
    }

    Bytes all_bytes() { Bytes b; for (int i = 0; i < 256; ++i) b.push_back(uint8_t(i)); return b; }

    const uint64_t seeds[] = { 0, 127, 1, ~0ull, 0x8000000000000000ull, 0x0123456789abcdefull };

    void values(bool th)
    {
        if (!mc::begin_scenario("crc64: all byte strings")) return;
        auto one = [](const Bytes& b, uint64_t seed)
        {
            const uint64_t want = reference(b, seed);
            const awl::crypto::Crc64 h(seed);
            if (h(b.begin(), b.end()) != big_endian(want)) mc::fail("Crc64 with seed %llx of %s", (unsigned long long)seed, hex(b).c_str());
            const awl::crypto::Int64Hash ih(seed);
            if (ih(b.begin(), b.end()) != want) mc::fail("Int64Hash with seed %llx of %s", (unsigned long long)seed, hex(b).c_str());
            tick("digests");
        };
        for (uint64_t seed : seeds) for (size_t len = 0; len <= 2; ++len) each(all_bytes(), len, [&](const Bytes& b) { one(b, seed); });
        if (th) each(all_bytes(), 3, [&](const Bytes& b) { one(b, 127); });
        const Bytes few = { 0, 1, 0x7f, 0x80, 0xff };
        for (uint64_t seed : seeds) for (size_t len = 3; len <= (th ? 8u : 6u); ++len) each(few, len, [&](const Bytes& b) { one(b, seed); });
        for (int i = 0; i < 64; ++i) for (int c = 0; c < 256; ++c) one(Bytes{ uint8_t(c) }, uint64_t(1) << i);
        for (size_t len = 7; len <= 300; ++len) { Bytes b(len); for (size_t i = 0; i < len; ++i) b[i] = uint8_t(i * 37 + len); one(b, 0); one(b, 127); }
        // Defaults, and the check value of the specification.
        const std::string check = "123456789";
        if (awl::crypto::Int64Hash()(check.begin(), check.end()) != 0xe9c6d914c4b8d9caull) mc::fail("the check value of the specification");
        if (awl::crypto::Crc64()(check.begin(), check.end()) != big_endian(reference(Bytes(check.begin(), check.end()), 127))) mc::fail("the default seed of Crc64");
        if (awl::crypto::Crc64::size() != 8 || awl::crypto::FixedHash<awl::crypto::Crc64>::size() != 8) mc::fail("the size of the digest");
        const awl::crypto::FakeHash fake;
        if (fake.size() != 0 || fake(check.begin(), check.end()).size() != 0) mc::fail("the empty digest");
        constexpr uint64_t at_compile_time = [] { const char s[] = { '1', '2', '3', '4', '5', '6', '7', '8', '9' }; return awl::crypto::Int64Hash()(s + 0, s + 9); }();
        if (at_compile_time != 0xe9c6d914c4b8d9caull) mc::fail("the digest at compile time");
    }

    // Digest of a whole is the digest of the tail seeded with the digest of the head.
    void splits(bool th)
    {
        if (!mc::begin_scenario("splits and iterators")) return;
        for (size_t len = 0; len <= (th ? 7u : 6u); ++len)
            each({ 0, 1, 0x80, 0xff }, len, [&](const Bytes& b)
            {
                const uint64_t want = reference(b, 0);
                for (size_t k = 0; k <= len; ++k)
                {
                    const uint64_t head = awl::crypto::Int64Hash()(b.begin(), b.begin() + k);
                    if (awl::crypto::Int64Hash(head)(b.begin() + k, b.end()) != want) mc::fail("%s split at %zu", hex(b).c_str(), k);
                    tick("splits");
                }
                const std::forward_list<uint8_t> fl(b.begin(), b.end());
                const std::list<int8_t> li(b.begin(), b.end());
                const std::deque<char> de(b.begin(), b.end());
                const std::string st(b.begin(), b.end());
                const awl::crypto::Int64Hash h;
                if (h(fl.begin(), fl.end()) != want || h(li.begin(), li.end()) != want || h(de.begin(), de.end()) != want || h(b.data(), b.data() + len) != want || h(st.begin(), st.end()) != want)
                    mc::fail("%s read through another iterator", hex(b).c_str());
                std::istringstream in(st);
                if (h(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()) != want) mc::fail("%s read through an input iterator", hex(b).c_str());
                const awl::crypto::FixedHash<awl::crypto::Int64Hash> f;
                if (f(st) != want || f(std::string_view(st)) != want || f(b.begin(), b.end()) != want) mc::fail("FixedHash of %s", hex(b).c_str());
                const awl::crypto::FixedHash<awl::crypto::Int64Hash> fs(awl::crypto::Int64Hash(7));
                if (fs(st) != reference(b, 7)) mc::fail("FixedHash of %s with a seed", hex(b).c_str());
                tick("iterators");
            });
    }

    template <size_t N> void literal(bool th)
    {
        (void)th;
        each({ 0, 'a', 0xff }, N, [&](const Bytes& b)
        {
            char s[N + 1] = {};
            wchar_t w[N + 1] = {};
            Bytes wb;
            for (size_t i = 0; i < N; ++i) { s[i] = char(b[i]); w[i] = wchar_t(uint32_t(b[i]) * 0x01020304u); for (int k = 3; k >= 0; --k) wb.push_back(uint8_t(uint32_t(w[i]) >> (8 * k))); }
            const awl::crypto::FixedHash<awl::crypto::Int64Hash> f;
            const awl::fixed_string<char, N> fixed(s);
            if (f(s) != reference(b, 0)) mc::fail("the literal %s", hex(b).c_str());
            if (f(fixed) != reference(b, 0)) mc::fail("the fixed string %s", hex(b).c_str());
            if (f(w) != reference(wb, 0)) mc::fail("the wide literal %s", hex(b).c_str());
            if (f(std::wstring(w, N)) != reference(wb, 0) || f(std::wstring_view(w, N)) != reference(wb, 0)) mc::fail("the wide string %s", hex(b).c_str());
            tick("literals");
        });
    }

    // Wider elements count as their bytes, most significant first, on every platform.
    template <class T> void elements(const char* name, const std::vector<uint64_t>& vals)
    {
        if (!mc::begin_scenario("elements of type " + std::string(name))) return;
        auto check = [&](const std::vector<T>& v)
        {
            Bytes b;
            for (T x : v) for (int k = int(sizeof(T)) - 1; k >= 0; --k) b.push_back(uint8_t(std::make_unsigned_t<T>(x) >> (8 * k)));
            for (uint64_t seed : { 0ull, 127ull })
            {
                if (awl::crypto::Int64Hash(seed)(v.begin(), v.end()) != reference(b, seed)) mc::fail("%s: a sequence with the bytes %s", name, hex(b).c_str());
                if (awl::crypto::Crc64(seed)(v.begin(), v.end()) != big_endian(reference(b, seed))) mc::fail("%s: a sequence with the bytes %s", name, hex(b).c_str());
            }
            tick("sequences");
        };
        for (uint64_t a : vals) { check({ T(a) }); for (uint64_t c : vals) { check({ T(a), T(c) }); } }
        for (int i = 0; i < int(sizeof(T)); ++i) for (int c = 0; c < 256; ++c) check({ T(uint64_t(c) << (8 * i)) });
        if constexpr (sizeof(T) == 2) for (uint32_t v = 0; v < 65536; ++v) check({ T(v) });
    }

    // A burst of up to 64 damaged bits anywhere changes the digest; so do a lost, an added zero byte and a swap of unequal neighbours.
    void damage(bool th)
    {
        if (!mc::begin_scenario("damage")) return;
        const size_t len = th ? 24 : 12;
        const uint32_t width = th ? 14 : 11;
        for (int fill : { 0, 0xff, 0x5a })
        {
            Bytes b(len);
            for (size_t i = 0; i < len; ++i) b[i] = fill == 0x5a ? uint8_t(i * 29 + 3) : uint8_t(fill);
            const auto whole = awl::crypto::Crc64()(b.begin(), b.end());
            for (size_t pos = 0; pos < len * 8; ++pos)
                for (uint32_t burst = 1; burst < 1u << width; burst += 2)
                {
                    Bytes d = b;
                    bool fits = true;
                    for (uint32_t k = 0; k < width; ++k) if (burst >> k & 1) { if (pos + k >= len * 8) { fits = false; break; } d[(pos + k) / 8] ^= 1 << ((pos + k) % 8); }
                    if (!fits) continue;
                    if (awl::crypto::Crc64()(d.begin(), d.end()) == whole) mc::fail("the burst %x at bit %zu of %s is not seen", burst, pos, hex(b).c_str());
                    tick("bursts");
                }
            for (size_t i = 0; i < len; ++i)
            {
                Bytes d = b; d.erase(d.begin() + i);
                if (awl::crypto::Crc64()(d.begin(), d.end()) == whole) mc::fail("the loss of byte %zu of %s is not seen", i, hex(b).c_str());
                d = b; d.insert(d.begin() + i, 0);
                if (awl::crypto::Crc64()(d.begin(), d.end()) == whole) mc::fail("a zero byte added at %zu of %s is not seen", i, hex(b).c_str());
                if (i + 1 < len && b[i] != b[i + 1]) { d = b; std::swap(d[i], d[i + 1]); if (awl::crypto::Crc64()(d.begin(), d.end()) == whole) mc::fail("bytes %zu and %zu swapped in %s are not seen", i, i + 1, hex(b).c_str()); }
                tick("shifts");
            }
        }
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    values(th);
    splits(th);
    if (mc::begin_scenario("literals")) { literal<0>(th); literal<1>(th); literal<2>(th); literal<3>(th); literal<5>(th); literal<8>(th); }
    const std::vector<uint64_t> v = { 0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x12345678, 0x80000000, 0xffffffff, 0x0123456789abcdef, 1ull << 63, ~0ull };
    elements<uint8_t>("uint8_t", v); elements<int8_t>("int8_t", v); elements<char>("char", v);
    elements<uint16_t>("uint16_t", v); elements<int16_t>("int16_t", v); elements<char16_t>("char16_t", v);
    elements<uint32_t>("uint32_t", v); elements<int32_t>("int32_t", v); elements<wchar_t>("wchar_t", v);
    elements<uint64_t>("uint64_t", v); elements<int64_t>("int64_t", v);
    damage(th);
    return mc::finish();
}
