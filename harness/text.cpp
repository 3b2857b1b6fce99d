// X01: text helpers: integers of 128 bits, comparisons of C strings, separators, enum names, byte arrays, fixed strings,
// multi-byte conversion and the attribute formatter, enumerated against independent oracles.
#include "heap.hpp"
#include "Awl/String.h"
#include "Awl/StringFormat.h"
#include "Awl/Separator.h"
#include "Awl/EnumTraits.h"
#include "Awl/FixedString.h"
#include "Awl/Int2Array.h"
#include "Awl/Testing/Formatter.h"
#include <climits>
#include <limits>
#include <clocale>
#include <set>

namespace
{
    using U = __uint128_t;
    using I = __int128_t;
    void tick(const char* what) { mc::cnt(what) += 1; mc::cnt("executions") += 1; mc::cnt("states") += 1; mc::cnt("transitions") += 1; }

    // Decimal digits by doubling a digit string: no division.
    std::string digits(U v)
    {
        std::string d = "0";   // least significant first
        for (int b = 127; b >= 0; --b)
        {
            int carry = (v >> b) & 1;
            for (auto& c : d) { int x = (c - '0') * 2 + carry; carry = x / 10; c = char('0' + x % 10); }
            if (carry) d += char('0' + carry);
        }
        std::reverse(d.begin(), d.end());
        return d;
    }

    template <class C> std::basic_string<C> wide(const std::string& s) { return std::basic_string<C>(s.begin(), s.end()); }
    template <class C> std::string narrow(const std::basic_string<C>& s) { return std::string(s.begin(), s.end()); }

    std::vector<U> values(int span)
    {
        std::set<std::string> seen;
        std::vector<U> all;
        auto add = [&](U v) { if (seen.insert(digits(v)).second) all.push_back(v); };
        for (int i = 0; i < 1200 * span; ++i) add(i);
        U p = 1;
        for (int d = 0; d < 39; ++d)
        {
            for (int k = -span * 12; k <= span * 12; ++k) add(p + k);
            for (int m = 2; m <= 9; ++m) for (int k = -1; k <= 1; ++k) if (d < 38 || m <= 3) add(p * m + k);
            if (d < 38) p *= 10;
        }
        for (int b = 0; b < 128; ++b)
        {
            for (int k = -span * 2; k <= span * 2; ++k) add((U(1) << b) + k);
            for (int c = 0; c < b; ++c) add((U(1) << b) | (U(1) << c));
        }
        for (int k = 0; k < 16; ++k) add(~U(0) - k);
        return all;
    }

    template <class C>
    void print128(const char* name, int span)
    {
        if (!mc::begin_scenario(std::string("128-bit integers, ") + name)) return;
        for (U v : values(span))
        {
            const std::string d = digits(v);
            mc::trace_reset();
            mc::trace("value %s", d.c_str());
            {
                std::basic_ostringstream<C> o;
                using awl::operator<<;
                o << v;
                if (o.str() != wide<C>(d)) mc::fail("%s is printed as %s", d.c_str(), narrow<C>(o.str()).c_str());
                std::basic_ostringstream<C> s;
                awl::basic_format<C> f;
                f << v << static_cast<C>('|') << static_cast<I>(v);
                const I sv = static_cast<I>(v);
                const std::string sd = (sv < 0 ? "-" : "") + digits(sv < 0 ? U(0) - static_cast<U>(sv) : static_cast<U>(sv));
                if (f.str() != wide<C>(d + "|" + sd)) mc::fail("%s, %s are formatted as %s", d.c_str(), sd.c_str(), narrow<C>(f.str()).c_str());
                s << sv;
                if (s.str() != wide<C>(sd)) mc::fail("%s is printed as %s", sd.c_str(), narrow<C>(s.str()).c_str());
                tick("values");
            }
            const int len = (int)d.size();
            // widths below, at and above the number of digits
            for (int w : { 1, 2, len - 1, len, len + 1, len + 5, 45 }) for (char fill : { ' ', '0', '*' }) for (int left = 0; left < 2; ++left)
            {
                if (w < 1) continue;
                if (left && fill == '0') continue;
                std::basic_ostringstream<C> o;
                using awl::operator<<;
                o << static_cast<C>('<') << std::setfill(static_cast<C>(fill)) << std::setw(w);
                if (left) o << std::left;
                o << v;
                if (o.width() != 0) mc::fail("the width is still set after printing");
                o << static_cast<C>('>');
                std::string pad(w > len ? w - len : 0, fill);
                std::string want = "<" + (left ? d + pad : pad + d) + ">";
                if (narrow<C>(o.str()) != want) mc::fail("%s with width %d and fill '%c' is printed as %s, expected %s", d.c_str(), w, fill, narrow<C>(o.str()).c_str(), want.c_str());
                tick("formats");
            }
        }
    }

    // ---- strings ----
    template <class C>
    std::vector<std::basic_string<C>> strings(const std::vector<C>& alphabet, int maxlen)
    {
        std::vector<std::basic_string<C>> all{ {} };
        for (size_t from = 0, l = 0; (int)l < maxlen; ++l)
        {
            size_t to = all.size();
            for (size_t i = from; i < to; ++i) for (C c : alphabet) all.push_back(all[i] + c);
            from = to;
        }
        return all;
    }
    template <class C> C low(C c) { return c >= 'A' && c <= 'Z' ? C(c + 32) : c; }
    template <class C> std::basic_string<C> lower(std::basic_string<C> s) { for (auto& c : s) c = low(c); return s; }

    template <class C>
    void compare(const char* name, const std::vector<C>& ascii, const std::vector<C>& other, int len)
    {
        if (!mc::begin_scenario(std::string("comparing strings, ") + name)) return;
        awl::CStringLess<C> less;
        awl::CStringInsensitiveLess<C> iless;
        awl::StringEqual<C> eq;
        awl::StringInsensitiveEqual<C> ieq;
        auto all = strings(ascii, len);
        for (auto& a : all)
        {
            const auto la = lower(a);
            mc::trace_reset();
            for (auto& b : all)
            {
                const auto lb = lower(b);
                tick("pairs");
                if (less(a.c_str(), b.c_str()) != (a < b)) mc::fail("CStringLess('%s', '%s')", narrow<C>(a).c_str(), narrow<C>(b).c_str());
                if (eq(a, b) != (a == b)) mc::fail("StringEqual('%s', '%s')", narrow<C>(a).c_str(), narrow<C>(b).c_str());
                if (iless(a.c_str(), b.c_str()) != (la < lb)) mc::fail("CStringInsensitiveLess('%s', '%s') = %d", narrow<C>(a).c_str(), narrow<C>(b).c_str(), (int)iless(a.c_str(), b.c_str()));
                if (ieq(a, b) != (la == lb)) mc::fail("StringInsensitiveEqual('%s', '%s')", narrow<C>(a).c_str(), narrow<C>(b).c_str());
            }
        }
        // A strict weak order also with letters outside ASCII; equivalence is equality without case.
        auto mixed = strings(other, 2);
        for (auto& a : mixed) for (auto& b : mixed)
        {
            mc::trace_reset();
            const bool ab = iless(a.c_str(), b.c_str()), ba = iless(b.c_str(), a.c_str());
            if (ab && ba) mc::fail("both orders of two strings are 'less'");
            if ((!ab && !ba) != ieq(a, b)) mc::fail("the order without case and the equality without case disagree");
            if (less(a.c_str(), b.c_str()) && less(b.c_str(), a.c_str())) mc::fail("both orders of two strings are 'less'");
            if ((!less(a.c_str(), b.c_str()) && !less(b.c_str(), a.c_str())) != (a == b)) mc::fail("CStringLess is not a total order");
            tick("pairs");
            if (!ab) continue;
            for (auto& c : mixed)
            {
                tick("triples");
                if (iless(b.c_str(), c.c_str()) && !iless(a.c_str(), c.c_str())) mc::fail("the order without case is not transitive");
                if (!iless(a.c_str(), c.c_str()) && !iless(c.c_str(), b.c_str())) mc::fail("the order without case is not a weak order");
            }
        }
    }

    // ---- separators ----
    template <class C>
    void separators(const char* name)
    {
        if (!mc::begin_scenario(std::string("separators, ") + name)) return;
        const auto items = strings(std::vector<C>{ 'a', ',' }, 2);
        std::vector<std::basic_string<C>> seps{ {}, wide<C>(","), wide<C>(", "), wide<C>("->") };
        for (int n = 0; n <= 3; ++n)
        {
            mc::Dfs d;
            d.run([&](mc::Dfs& d)
            {
                int kind = d.choose((int)seps.size() + 2);
                std::basic_string<C> text = kind < (int)seps.size() ? seps[kind] : wide<C>(kind == (int)seps.size() ? ", " : "; ");
                awl::basic_separator<C> sep = kind < (int)seps.size() ? awl::basic_separator<C>(seps[kind]) : awl::basic_separator<C>(static_cast<C>(kind == (int)seps.size() ? ',' : ';'));
                std::basic_ostringstream<C> o;
                awl::basic_format<C> f;
                std::basic_string<C> want;
                for (int i = 0; i < n; ++i)
                {
                    auto& it = items[d.choose((int)items.size())];
                    if (sep.first() != (i == 0)) mc::fail("first() is %d before item %d", (int)sep.first(), i);
                    o << sep << it;
                    want += (i ? text : std::basic_string<C>()) + it;
                }
                mc::trace("%d items -> '%s'", n, narrow<C>(want).c_str());
                if (o.str() != want) mc::fail("joined to '%s', expected '%s'", narrow<C>(o.str()).c_str(), narrow<C>(want).c_str());
                tick("joins");
            });
        }
    }
}

namespace en
{
    AWL_SEQUENTIAL_ENUM(One, Only)
    AWL_SEQUENTIAL_ENUM(Few, a, ab, abc, Ba, b_1)
    AWL_SEQUENTIAL_ENUM(Many, v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23, v24, v25, v26, v27, v28, v29, v30, v31, v32, v33, v34, v35, v36, v37, v38, v39, v40, v41, v42, v43, v44, v45, v46, v47, v48, v49, v50, v51, v52, v53, v54, v55, v56, v57, v58, v59, v60, v61, v62, v63, v64)
}
AWL_ENUM_TRAITS(en, One)
AWL_ENUM_TRAITS(en, Few)
AWL_ENUM_TRAITS(en, Many)

namespace
{
    template <class F> bool throws(F&& f) { try { f(); } catch (const std::runtime_error&) { return true; } return false; }

    template <class E>
    void enums(const char* name, const std::vector<std::string>& names, const std::vector<std::string>& tries)
    {
        if (!mc::begin_scenario(std::string("enum names, ") + name)) return;
        if (awl::EnumTraits<E>::count() != names.size()) mc::fail("count() = %d", (int)awl::EnumTraits<E>::count());
        if (std::string(awl::EnumTraits<E>::enum_name()) != name) mc::fail("the name of the enum is %s", awl::EnumTraits<E>::enum_name());
        for (int v = 0; v < 256; ++v)
        {
            mc::trace_reset();
            mc::trace("value %d", v);
            const E e = static_cast<E>(v);
            const bool ok = v < (int)names.size();
            if (throws([&] { awl::validate_enum(e); }) == ok || throws([&] { awl::validate_enum_index<E>((uint8_t)v); }) == ok) mc::fail("validation of value %d of an enum of %zu", v, names.size());
            int idx = -1; std::string s; E back{};
            if (throws([&] { idx = awl::enum_to_index(e); }) == ok || throws([&] { s = awl::enum_to_string(e); }) == ok || throws([&] { back = awl::enum_from_index<E>((uint8_t)v); }) == ok) mc::fail("conversion of value %d of an enum of %zu", v, names.size());
            if (awl::enum_to_underlying(e) != v) mc::fail("enum_to_underlying");
            if (ok)
            {
                if (idx != v || back != e || s != names[v]) mc::fail("value %d: index %d, name '%s', expected '%s'", v, idx, s.c_str(), names[v].c_str());
                if (awl::enum_from_string<E>(s) != e || awl::enum_from_string_i<E>(s) != e) mc::fail("name '%s' is not converted back", s.c_str());
            }
            tick("enum values");
        }
        for (auto& t : tries)
        {
            mc::trace_reset();
            mc::trace("name '%s'", t.c_str());
            int want = -1, want_i = -1, got = -1, got_i = -1;
            for (size_t k = names.size(); k-- > 0;) { if (names[k] == t) want = (int)k; if (lower<char>(names[k]) == lower<char>(t)) want_i = (int)k; }
            try { got = (int)awl::enum_from_string<E>(t); } catch (const std::runtime_error&) {}
            try { got_i = (int)awl::enum_from_string_i<E>(t); } catch (const std::runtime_error&) {}
            if (got != want || got_i != want_i) mc::fail("'%s' is converted to %d and without case to %d, expected %d and %d", t.c_str(), got, got_i, want, want_i);
            tick("enum names");
        }
    }

    // ---- byte arrays ----
    template <class T>
    void arrays(const char* name)
    {
        if (!mc::begin_scenario(std::string("byte arrays, ") + name)) return;
        auto check = [&](T v)
        {
            mc::trace_reset();
            auto a = awl::to_array(v);
            U rest = static_cast<U>(v);
            for (size_t i = sizeof(T); i-- > 0; rest >>= 8) if (a[i] != (uint8_t)rest) mc::fail("byte %zu of a value of %zu bytes (low part %llx) is %02x, expected %02x", i, sizeof(T), (unsigned long long)v, a[i], (uint8_t)rest);
            if (awl::from_array<T>(a) != v) mc::fail("a value (low part %llx) is not converted back", (unsigned long long)v);
            tick("array values");
        };
        if constexpr (sizeof(T) <= 2) { for (int v = 0; v < (1 << (8 * sizeof(T))); ++v) check(static_cast<T>(v)); }
        else
        {
            // every pair of bytes from a small set at every two positions
            const int bytes[] = { 0, 1, 0x7f, 0x80, 0xff, 0x5a };
            for (size_t i = 0; i < sizeof(T); ++i) for (size_t j = i; j < sizeof(T); ++j) for (int b : bytes) for (int c : bytes) for (int back = 0; back < 2; ++back)
            {
                U v = back ? ~U(0) : 0;
                v &= ~(U(0xff) << (8 * i)) & ~(U(0xff) << (8 * j));
                v |= U(b) << (8 * i); v |= U(c) << (8 * j);
                check(static_cast<T>(v));
            }
            for (size_t i = 0; i < sizeof(T); ++i) for (int b = 0; b < 256; ++b) check(static_cast<T>(U(b) << (8 * i)));
        }
    }

    // ---- fixed strings ----
    template <size_t N> awl::fixed_string<char, N> fixed(const std::string& s) { char b[N + 1] = {}; for (size_t i = 0; i < N; ++i) b[i] = s[i]; return awl::fixed_string<char, N>(b); }
    template <size_t N, size_t M>
    void fixed_pairs()
    {
        auto words = [](size_t n) { std::vector<std::string> r; for (auto& s : strings<char>({ 'a', 'b', char(0xe0) }, 3)) if (s.size() == n) r.push_back(s); return r; };
        for (auto& a : words(N)) for (auto& b : words(M))
        {
            mc::trace_reset();
            mc::trace("fixed strings '%s' and '%s'", a.c_str(), b.c_str());
            auto x = fixed<N>(a); auto y = fixed<M>(b);
            auto z = x + y;
            static_assert(std::is_same_v<decltype(z), awl::fixed_string<char, N + M>>);
            if (std::string(z.begin(), z.end()) != a + b || z.size() != N + M || std::strlen(z.c_str()) != N + M || static_cast<std::string>(z) != a + b) mc::fail("'%s' + '%s' = '%s'", a.c_str(), b.c_str(), z.c_str());
            if constexpr (N == M) { if ((x == y) != (a == b) || (x != y) != (a != b)) mc::fail("comparison of '%s' and '%s'", a.c_str(), b.c_str()); }
            char raw[N + 1] = {}; for (size_t i = 0; i < N; ++i) raw[i] = a[i];
            auto f = awl::fixed_string<char, N>::from_ascii(raw);
            if (static_cast<std::string>(f) != a) mc::fail("from_ascii('%s')", a.c_str());
            std::ostringstream o; using awl::operator<<; o << x; if (o.str() != a) mc::fail("'%s' is printed as '%s'", a.c_str(), o.str().c_str());
            tick("fixed strings");
        }
    }

    // ---- multi-byte strings ----
    void multibyte()
    {
        if (!setlocale(LC_ALL, "C.UTF-8")) { mc::sample("the locale C.UTF-8 is not available"); return; }
        if (!mc::begin_scenario("multi-byte strings")) return;
        auto utf8 = [](const std::wstring& w)
        {
            std::string s;
            for (wchar_t c : w)
            {
                if (c < 0x80) s += (char)c;
                else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); }
                else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
                else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
            }
            return s;
        };
        for (auto& w : strings<wchar_t>({ L'a', 1, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff }, 4))
        {
            mc::trace_reset();
            const std::string s = utf8(w);
            if (awl::EncodeString(w.c_str()) != s) mc::fail("a wide string of %zu characters is encoded to %zu bytes, expected %zu", w.size(), awl::EncodeString(w.c_str()).size(), s.size());
            if (awl::DecodeString(s.c_str()) != w) mc::fail("a string of %zu bytes is not decoded back", s.size());
            if (awl::FromWString(w) != s || awl::StringConvertor<wchar_t>::Decode(s.c_str()) != w || awl::StringConvertor<wchar_t>::EncodeToA(w.c_str()) != s || awl::StringConvertor<char>::Decode(s.c_str()) != s) mc::fail("conversions differ");
            { std::wostringstream o; using awl::operator<<; o << s; if (o.str() != w) mc::fail("a string printed to a wide stream differs"); }
            tick("multibyte");
        }
        // What is not UTF-8 is reported, and leaves the next conversion alone.
        for (auto& s : strings<char>({ 'a', char(0x80), char(0xc3), char(0xa4), char(0xff), char(0xe2) }, 3))
        {
            mc::trace_reset();
            bool valid = true;
            for (size_t i = 0; i < s.size(); ++i)
            {
                unsigned char c = s[i];
                if (c < 0x80) continue;
                if (c == 0xc3 && i + 1 < s.size() && ((unsigned char)s[i + 1] & 0xc0) == 0x80) { ++i; continue; }
                if (c == 0xe2 && i + 2 < s.size() && ((unsigned char)s[i + 1] & 0xc0) == 0x80 && ((unsigned char)s[i + 2] & 0xc0) == 0x80) { i += 2; continue; }
                valid = false;
            }
            bool ok = true;
            std::wstring w;
            try { w = awl::DecodeString(s.c_str()); } catch (const std::exception&) { ok = false; }
            if (ok != valid) mc::fail("a byte string that is %s UTF-8 was %s", valid ? "valid" : "not", ok ? "decoded" : "rejected");
            if (ok && utf8(w) != s) mc::fail("decoded wrongly");
            if (awl::DecodeString("x") != L"x") mc::fail("a conversion after an error fails");
            tick("multibyte");
        }
        setlocale(LC_ALL, "C");
    }

    // ---- the formatter of test attributes ----
    template <class T>
    void scalar(const char* name, std::vector<T> vs)
    {
        if (!mc::begin_scenario(std::string("formatter, ") + name)) return;
        using F = awl::testing::Formatter<T>;
        using V = awl::testing::Formatter<std::vector<T>>;
        for (int i = -300; i <= 300; ++i) if (i >= 0 || std::is_signed_v<T>) vs.push_back((T)i);
        for (T v : vs)
        {
            mc::trace_reset();
            const std::string s = F::ToString(v);
            mc::trace("'%s'", s.c_str());
            T back{};
            try { back = F::FromString(s); } catch (const std::exception& e) { mc::fail("'%s' is rejected: %s", s.c_str(), e.what()); }
            if (back != v) mc::fail("'%s' is read as '%s'", s.c_str(), F::ToString(back).c_str());
            if constexpr (std::is_integral_v<T>)
            {
                std::ostringstream o; o << +v;
                if (s != o.str()) mc::fail("%s is formatted as '%s'", o.str().c_str(), s.c_str());
            }
            for (T w : { vs[0], vs[vs.size() / 2], v })
            {
                std::vector<T> c{ v, w };
                const std::string cs = V::ToString(c);
                if constexpr (std::is_integral_v<T>) if (cs != F::ToString(v) + " " + F::ToString(w)) mc::fail("a collection is formatted as '%s'", cs.c_str());
                if constexpr (std::is_integral_v<T>) if (V::FromString(cs) != c) mc::fail("the collection '%s' is not read back", cs.c_str());
            }
            tick("formatted");
        }
        for (const char* bad : { "", "x", "-", " ", "--1" }) { bool t = false; try { F::FromString(bad); } catch (const std::exception&) { t = true; } if (!t) mc::fail("'%s' is accepted as a number", bad); }
        if constexpr (std::is_integral_v<T>)
        {
            // one above the largest value
            I big = (I)std::numeric_limits<T>::max() + 1;
            std::string s = digits((U)big);
            bool t = false; try { F::FromString(s); } catch (const std::exception&) { t = true; }
            if (!t) mc::fail("'%s' is accepted", s.c_str());
        }
    }
    void word_lists()
    {
        if (!mc::begin_scenario("formatter, lists of words")) return;
        auto w = strings<char>({ 'a', '-', char(0xe0) }, 2);
        w.erase(w.begin());
        mc::Dfs d;
        d.run([&](mc::Dfs& d)
        {
            std::vector<std::string> v;
            for (int n = d.choose(4); n-- > 0;) v.push_back(w[d.choose((int)w.size())]);
            std::string want; for (auto& s : v) want += (want.empty() ? "" : " ") + s;
            using F = awl::testing::Formatter<std::vector<std::string>>;
            using S = awl::testing::Formatter<std::set<std::string>>;
            if (F::ToString(v) != want || F::FromString(want) != v) mc::fail("the list '%s'", want.c_str());
            if (S::FromString(want) != std::set<std::string>(v.begin(), v.end())) mc::fail("the set '%s'", want.c_str());
            std::string spaced; for (auto& s : v) spaced += "  " + s + "\t";
            if (F::FromString(spaced) != v) mc::fail("the list '%s' with more space", want.c_str());
            tick("formatted");
        });
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    print128<char>("char", th ? 6 : 1);
    print128<wchar_t>("wchar_t", th ? 6 : 1);
    compare<char>("char", { 'a', 'A', 'b', 'B', '_', '1' }, { 'a', 'Z', char(0xe0), char(0xc0), char(0xff), char(0x80), 1 }, th ? 4 : 3);
    compare<wchar_t>("wchar_t", { L'a', L'A', L'b', L'B', L'_' }, { L'a', L'Z', 0xe0, 0xc0, 0x430, 0x410, 1 }, th ? 4 : 3);
    separators<char>("char");
    separators<wchar_t>("wchar_t");
    enums<en::One>("One", { "Only" }, strings<char>({ 'O', 'n', 'l', 'y', 'L' }, 4));
    enums<en::Few>("Few", { "a", "ab", "abc", "Ba", "b_1" }, strings<char>({ 'a', 'b', 'c', 'B', 'A', '_', '1', ' ' }, th ? 5 : 4));
    { std::vector<std::string> n; for (int i = 0; i <= 64; ++i) n.push_back("v" + std::to_string(i)); enums<en::Many>("Many", n, strings<char>({ 'v', 'V', '0', '1', '6', '5', '4' }, 4)); }
    arrays<uint8_t>("uint8_t"); arrays<int8_t>("int8_t"); arrays<uint16_t>("uint16_t"); arrays<int16_t>("int16_t");
    arrays<uint32_t>("uint32_t"); arrays<int32_t>("int32_t"); arrays<uint64_t>("uint64_t"); arrays<int64_t>("int64_t");
    arrays<U>("uint128"); 
    if (mc::begin_scenario("fixed strings")) { fixed_pairs<0, 0>(); fixed_pairs<0, 2>(); fixed_pairs<1, 0>(); fixed_pairs<1, 1>(); fixed_pairs<1, 2>(); fixed_pairs<2, 1>(); fixed_pairs<2, 2>(); fixed_pairs<3, 3>(); }
    multibyte();
    scalar<int>("int", { INT_MIN, INT_MIN + 1, INT_MAX - 1, INT_MAX });
    scalar<unsigned>("unsigned int", { 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu, 4000000000u });
    scalar<long>("long", { LONG_MIN, LONG_MAX, (long)INT_MAX + 1, (long)INT_MIN - 1 });
    scalar<unsigned long>("unsigned long", { ULONG_MAX, (unsigned long)LONG_MAX + 1, 1ul << 32 });
    scalar<long long>("long long", { LLONG_MIN, LLONG_MAX });
    scalar<unsigned long long>("unsigned long long", { ULLONG_MAX, 1ull << 63 });
    scalar<double>("double", { 0.5, -0.25, 1024.125 });
    scalar<float>("float", { 0.5f, -0.25f, 1024.125f });
    word_lists();
    return mc::finish();
}
