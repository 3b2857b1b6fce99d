// D01 / D02 / D03: decimal. Exhaustive over a 16-bit instantiation, boundary grids over the 64 and 128-bit ones,
// every result compared with exact integer arithmetic.
#include "mc.hpp"
#include "Awl/Decimal.h"
#include "Awl/DecimalTime.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/ReadWrite.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>

namespace
{
    unsigned long long& n_trans() { static auto& n = mc::cnt("transitions"); return n; }
    using cpp_int = boost::multiprecision::int512_t;

    template <class W> W pow10(int e) { W r = 1; while (e-- > 0) r *= 10; return r; }
    template <class W> const W& p10(int e) { static const std::vector<W> t = [] { std::vector<W> v; const int n = sizeof(W) == sizeof(__int128) ? 38 : 90; for (int i = 0; i < n; ++i) v.push_back(pow10<W>(i)); return v; }(); return t.at(e); }

    template <class U> std::string dec(U v) { std::string s; do { s.insert(s.begin(), char('0' + int(v % 10u))); v /= 10u; } while (v != 0); return s; }

    // What the code under test is: D = decimal<U, E>; W: a type wide enough for exact results.
    template <class D_, class U_, int E_, class W_> struct Kind { using D = D_; using U = U_; using W = W_; static constexpr int E = E_; };
    using K16 = Kind<awl::decimal<uint16_t, 2>, uint16_t, 2, __int128>;
    using K32 = Kind<awl::decimal<uint32_t, 3>, uint32_t, 3, __int128>;
    template <int E> using K64 = Kind<awl::decimal<uint64_t, E>, uint64_t, E, cpp_int>;
    template <int E> using K128 = Kind<awl::decimal<__uint128_t, E>, __uint128_t, E, cpp_int>;

    template <class K> constexpr int man_len() { return sizeof(typename K::U) * 8 - 1 - K::E; }
    template <class K> typename K::U max_man() { return ((typename K::U)1 << man_len<K>()) - 1; }
    // An instantiation may support fewer digits than its exponent field can hold (a power of ten has to fit the integer).
    template <class K> int max_exp() { return K::D::max_exponent(); }

    template <class K> struct Val
    {
        bool neg;
        typename K::U man;
        int exp;
        typename K::W w() const { typename K::W x; if constexpr (sizeof(typename K::W) == 16) x = man; else x = cpp_int(man); return neg ? typename K::W(-x) : x; }
        bool zero() const { return man == 0; }
        std::string text() const
        {
            std::string s = dec(man);
            if (exp) { while ((int)s.size() <= exp) s.insert(s.begin(), '0'); s.insert(s.size() - exp, "."); }
            return (neg ? "-" : "") + s;
        }
    };
    template <class K> typename K::D make(const Val<K>& v)
    {
        typename K::D d{ uint8_t(v.exp) };
        d.set_unsigned_mantissa(v.man);
        if (v.neg) d.negate();
        return d;
    }
    template <class K> Val<K> see(const typename K::D& d) { return { d.negative(), d.unsigned_mantissa(), d.exponent() }; }
    template <class K> std::string show(const Val<K>& v) { return v.text() + "{" + dec(v.man) + "e-" + std::to_string(v.exp) + "}"; }

    // The exact value n / 10^e: the decimal with e digits, if it fits.
    template <class K> bool fits(const typename K::W& n, int e)
    {
        typename K::W a = n < 0 ? typename K::W(-n) : n;
        typename K::W m; if constexpr (sizeof(typename K::W) == 16) m = max_man<K>(); else m = cpp_int(max_man<K>());
        return a <= m && e <= max_exp<K>();
    }
    template <class K> bool same(const Val<K>& v, const typename K::W& n, int e) { return v.exp == e && v.w() == n; }
    // -1, 0, 1
    template <class K> int order(const Val<K>& a, const Val<K>& b)
    {
        const int e = std::max(a.exp, b.exp);
        typename K::W x = a.w() * p10<typename K::W>(e - a.exp), y = b.w() * p10<typename K::W>(e - b.exp);
        return x < y ? -1 : x > y ? 1 : 0;
    }

    // Runs f: the result, or that it threw.
    template <class K, class F> bool run(F f, Val<K>& out)
    {
        try { out = see<K>(f()); return true; }
        catch (const std::exception&) { return false; }
    }
    // f must yield n / 10^e, or throw if (and only if) that does not fit.
    template <class K, class F> void expect(const char* op, const Val<K>& a, const std::string& b, const typename K::W& n, int e, bool representable, F f)
    {
        Val<K> r;
        const bool ok = run<K>(f, r);
        ++n_trans();
        if (ok != representable)
        {
            if (ok) mc::fail("%s of %s and %s gives %s although the exact result is not representable", op, show<K>(a).c_str(), b.c_str(), show<K>(r).c_str());
            mc::fail("%s of %s and %s throws although the exact result is representable", op, show<K>(a).c_str(), b.c_str());
        }
        if (ok && !same<K>(r, n, e)) mc::fail("%s of %s and %s gives %s", op, show<K>(a).c_str(), b.c_str(), show<K>(r).c_str());
    }

    // ---- D01 ----
    template <class K> void check_text(const Val<K>& v)
    {
        using D = typename K::D;
        const D d = make<K>(v);
        const std::string t = v.text();
        mc::trace_reset();
        mc::trace("%s", show<K>(v).c_str());
        ++n_trans();
        if (!same<K>(see<K>(d), v.w(), v.exp) || d.negative() != v.neg) mc::fail("%s is stored as %s", show<K>(v).c_str(), show<K>(see<K>(d)).c_str());
        if (d.to_astring() != t) mc::fail("%s is printed as %s", t.c_str(), d.to_astring().c_str());
        if (d.to_wstring() != std::wstring(t.begin(), t.end())) mc::fail("%s is printed as something else in wide characters", t.c_str());
        {
            std::ostringstream o;
            o << d << "|";
            o.width(4);
            o << 7;
            if (o.str() != t + "|   7") mc::fail("%s changes the way the stream prints the next number: %s", t.c_str(), o.str().c_str());
        }
        Val<K> r;
        if (!run<K>([&] { return D(std::string_view(t)); }, r)) mc::fail("%s is printed as a text that is not accepted", t.c_str());
        if (order<K>(r, v) != 0 || (r.neg != v.neg && v.man != 0)) mc::fail("%s is read back as %s", t.c_str(), show<K>(r).c_str());
        const std::wstring wt(t.begin(), t.end());
        if (!run<K>([&] { return D(wt.c_str()); }, r)) mc::fail("%s is not accepted in wide characters", t.c_str());
        if (order<K>(r, v) != 0) mc::fail("%s is read back from wide characters as %s", t.c_str(), show<K>(r).c_str());
        const auto bits = d.to_bits();
        const D b = D::from_bits(bits);
        if (!same<K>(see<K>(b), v.w(), v.exp) || b.negative() != v.neg || b.to_bits() != bits) mc::fail("%s does not survive to_bits and from_bits", show<K>(v).c_str());
        std::vector<uint8_t> bytes;
        awl::io::VectorOutputStream out(bytes);
        awl::io::Write(out, d);
        if (bytes.size() != sizeof(bits)) mc::fail("%s is written as %zu bytes", t.c_str(), bytes.size());
        awl::io::VectorInputStream in(bytes);
        D e{ uint8_t(1) };
        e.set_unsigned_mantissa(7);
        awl::io::Read(in, e);
        if (!same<K>(see<K>(e), v.w(), v.exp) || e.negative() != v.neg || !in.End()) mc::fail("%s does not survive writing and reading", t.c_str());
    }

    // What a text means: 0 = not a number, 1 = a number, 2 = a number that does not fit.
    template <class K> int meaning(const std::string& s, cpp_int& man, int& digits, bool& neg)
    {
        size_t i = 0;
        neg = false;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
        std::string ip, fp;
        while (i < s.size() && isdigit((unsigned char)s[i])) ip += s[i++];
        if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit((unsigned char)s[i])) fp += s[i++]; }
        if (i != s.size() || (ip.empty() && fp.empty())) return 0;
        while (!fp.empty() && fp.back() == '0') fp.pop_back();
        digits = (int)fp.size();
        man = 0;
        const cpp_int huge = cpp_int(1) << 300;
        for (char c : ip + fp) if (man < huge) man = man * 10 + (c - '0');
        return digits <= max_exp<K>() && man <= cpp_int(max_man<K>()) ? 1 : 2;
    }
    template <class K> void check_parse(const std::string& s)
    {
        using D = typename K::D;
        mc::trace_reset();
        mc::trace("text \"%.400s\" (%zu characters)", s.c_str(), s.size());
        cpp_int man;
        int digits = 0;
        bool neg = false;
        const int kind = meaning<K>(s, man, digits, neg);
        // exact-size heap copies so that the address sanitizer sees reads past the end
        auto copy = std::make_unique<char[]>(s.size());
        std::copy(s.begin(), s.end(), copy.get());
        auto wide = std::make_unique<wchar_t[]>(s.size());
        std::copy(s.begin(), s.end(), wide.get());
        for (int w = 0; w < 2; ++w)
        {
            Val<K> r;
            const bool ok = w ? run<K>([&] { return D(std::wstring_view(wide.get(), s.size())); }, r) : run<K>([&] { return D(std::string_view(copy.get(), s.size())); }, r);
            ++n_trans();
            if (ok && kind == 0) mc::fail("\"%.300s\" is not a number but is read as %s", s.c_str(), show<K>(r).c_str());
            if (ok && kind == 2) mc::fail("\"%.300s\" does not fit but is read as %s", s.c_str(), show<K>(r).c_str());
            if (!ok && kind == 1) mc::fail("\"%.300s\" is rejected", s.c_str());
            if (ok && (cpp_int(r.man) != man || r.exp != digits || (r.neg != neg && man != 0))) mc::fail("\"%.300s\" is read as %s", s.c_str(), show<K>(r).c_str());
        }
    }

    // ---- D02 ----
    template <class K> void check_unary(const Val<K>& v)
    {
        using D = typename K::D;
        using W = typename K::W;
        const D d = make<K>(v);
        mc::trace_reset();
        mc::trace("%s", show<K>(v).c_str());
        const W n = v.w();
        expect<K>("negation", v, "", W(-n), v.exp, true, [&] { return -d; });
        if (W sm = n; true)
        {
            Val<K> r = v;
            D x{ uint8_t(v.exp) };
            x.set_mantissa(d.mantissa());
            r = see<K>(x);
            if (!same<K>(r, sm, v.exp)) mc::fail("the mantissa of %s is taken over as %s", show<K>(v).c_str(), show<K>(r).c_str());
            expect<K>("construction from the mantissa", v, "", n, v.exp, true, [&] { return D(d.mantissa(), uint8_t(v.exp)); });
        }
        for (int e = 0; e < 256; e = e == max_exp<K>() + 1 ? 255 : e + 1)
        {
            const std::string es = std::to_string(e) + " digits";
            const bool more = e > v.exp;
            const bool fine = e <= max_exp<K>();
            W up = more && fine ? W(n * p10<W>(e - v.exp)) : n;
            const W& div = p10<W>(more ? 0 : v.exp - e);
            W q = n / div, rem = n % div;   // toward zero
            // extend: to at least e digits
            expect<K>("extend", v, es, up, more ? e : v.exp, more ? fine && fits<K>(up, e) : true, [&] { return d.extend(uint8_t(e)); });
            expect<K>("rescale", v, es, more ? up : q, e, more ? fine && fits<K>(up, e) : rem == 0, [&] { return d.rescale(uint8_t(e)); });
            expect<K>("rescale without check", v, es, more ? up : q, e, more ? fine && fits<K>(up, e) : true, [&] { return d.rescale(uint8_t(e), false); });
            if (more ? fine && fits<K>(up, e) : rem == 0)
            {
                auto m = d.rescaled_mantissa(uint8_t(e));
                if (W(m) != (more ? up : q)) mc::fail("rescaled_mantissa of %s to %d digits is wrong", show<K>(v).c_str(), e);
            }
            else
            {
                try { d.rescaled_mantissa(uint8_t(e)); } catch (const std::exception&) { goto thrown; }
                mc::fail("rescaled_mantissa of %s to %d digits does not throw", show<K>(v).c_str(), e);
            thrown:;
            }
            // to at most e digits
            expect<K>("truncate", v, es, more ? n : q, more ? v.exp : e, true, [&] { return d.truncate(uint8_t(e)); });
            W fl = q, ce = q;
            if (rem != 0) { if (n < 0) fl -= 1; else ce += 1; }
            expect<K>("floor", v, es, more ? n : fl, more ? v.exp : e, true, [&] { return d.floor(uint8_t(e)); });
            expect<K>("ceil", v, es, more ? n : ce, more ? v.exp : e, true, [&] { return d.ceil(uint8_t(e)); });
        }
        {
            W m = n;
            int e = v.exp;
            while (e > 0 && m % 10 == 0) { m /= 10; --e; }
            expect<K>("normalize", v, "", m, e, true, [&] { return d.normalize(); });
        }
        if constexpr (sizeof(typename K::U) >= 8)
        {
            // nanoseconds
            W ns = v.exp <= 9 ? W(n * p10<W>(9 - v.exp)) : W(n / p10<W>(v.exp - 9));
            const bool exact = v.exp <= 9 || n % p10<W>(v.exp - 9) == 0;
            const bool ok = exact && ns <= W(std::numeric_limits<int64_t>::max()) && ns >= W(std::numeric_limits<int64_t>::min()) && (v.exp > 9 || fits<K>(ns, 9));
            bool done = true;
            int64_t r = 0;
            try { r = awl::decimal_to_nanoseconds(d).count(); } catch (const std::exception&) { done = false; }
            ++n_trans();
            if (done && (!exact ? W(r) != ns : !ok || W(r) != ns)) mc::fail("%s seconds are converted to %lld nanoseconds", show<K>(v).c_str(), (long long)r);
            if (!done && ok) mc::fail("%s seconds are not converted to nanoseconds", show<K>(v).c_str());
        }
        // conversion to floating point: within two units in the last place, and to an integer: truncated
        {
            const double x = d.template cast<double>();
            long double ref;
            if constexpr (sizeof(W) == 16) ref = (long double)n; else ref = n.template convert_to<long double>();
            ref /= powl(10, v.exp);
            if (!(fabsl((long double)x - ref) <= fabsl(ref) * 8e-16L)) mc::fail("%s is converted to the double %.17g", show<K>(v).c_str(), x);
            W q = n / p10<W>(v.exp);
            if (q <= W(0x7fffffff) && q >= -W(0x7fffffff) && W(d.template cast<int>()) != q) mc::fail("%s is converted to the int %d", show<K>(v).c_str(), d.template cast<int>());
            if (q <= W(0x7fffffffffffffffll) && q >= -W(0x7fffffffffffffffll) && W(d.template cast<long long>()) != q) mc::fail("%s is converted to the integer %lld", show<K>(v).c_str(), d.template cast<long long>());
        }
    }

    template <class K> void check_pair(const Val<K>& a, const Val<K>& b, bool arithmetic, bool compare)
    {
        using W = typename K::W;
        const auto x = make<K>(a), y = make<K>(b);
        if (compare)
        {
            const int o = order<K>(a, b);
            const bool r[6] = { x < y, x <= y, x == y, x >= y, x > y, x != y };
            const bool t[6] = { o < 0, o <= 0, o == 0, o >= 0, o > 0, o != 0 };
            static const char* names[6] = { "<", "<=", "==", ">=", ">", "!=" };
            for (int i = 0; i < 6; ++i) if (r[i] != t[i])
                mc::fail("%s %s %s is %s", show<K>(a).c_str(), names[i], show<K>(b).c_str(), r[i] ? "true" : "false");
            ++n_trans();
        }
        if (!arithmetic) return;
        const int e = std::max(a.exp, b.exp);
        const W p = a.w() * p10<W>(e - a.exp), q = b.w() * p10<W>(e - b.exp);
        // aligning the operands has to be possible, too
        const bool al = fits<K>(p, e) && fits<K>(q, e);
        const W s = p + q, d = p - q, m = a.w() * b.w();
        auto check = [&](const char* op, const W& n, int ex, bool must, auto f)
        {
            Val<K> r;
            const bool ok = run<K>(f, r);
            ++n_trans();
            if (ok && !same<K>(r, n, ex)) mc::fail("%s %s %s gives %s", show<K>(a).c_str(), op, show<K>(b).c_str(), show<K>(r).c_str());
            if (!ok && must) mc::fail("%s %s %s throws although the operands and the result are representable", show<K>(a).c_str(), op, show<K>(b).c_str());
        };
        check("+", s, e, al && fits<K>(s, e), [&] { return x + y; });
        check("-", d, e, al && fits<K>(d, e), [&] { return x - y; });
        check("+=", s, e, al && fits<K>(s, e), [&] { auto z = x; z += y; return z; });
        check("-=", d, e, al && fits<K>(d, e), [&] { auto z = x; z -= y; return z; });
        check("*", m, a.exp + b.exp, fits<K>(m, a.exp + b.exp), [&] { return awl::multiply(x, y); });
    }

    // Conversions from numbers.
    template <class K, class I> void check_integer(I val, const char* name)
    {
        using D = typename K::D;
        using W = typename K::W;
        mc::trace_reset();
        for (int e = 0; e <= max_exp<K>(); ++e)
        {
            W n; if constexpr (sizeof(W) == 16) n = val; else n = cpp_int(val);
            mc::trace("%s to %d digits", name, e);
            n *= p10<W>(e);
            const bool ok = fits<K>(n, e);
            expect<K>("make_decimal", Val<K>{}, std::string(name) + " " + std::to_string(e), n, e, ok, [&] { return D::make_decimal(val, uint8_t(e)); });
            expect<K>("make_rounded", Val<K>{}, name, n, e, ok, [&] { return D::make_rounded(val, uint8_t(e)); });
            expect<K>("make_ceiled", Val<K>{}, name, n, e, ok, [&] { return D::make_ceiled(val, uint8_t(e)); });
            expect<K>("make_floored", Val<K>{}, name, n, e, ok, [&] { return D::make_floored(val, uint8_t(e)); });
            expect<K>("make_truncated", Val<K>{}, name, n, e, ok, [&] { return D::make_truncated(val, uint8_t(e)); });
            expect<K>("assignment", Val<K>{}, name, n, e, ok, [&] { D d{ uint8_t(e) }; d = val; return d; });
        }
    }
    // The product with the power of ten is the double nearest to it: what the functions are named after is done to that.
    template <class K> void check_double(double val)
    {
        using D = typename K::D;
        using W = typename K::W;
        mc::trace_reset();
        for (int e = 0; e <= max_exp<K>(); ++e)
        {
            mc::trace("%.17g to %d digits", val, e);
            const double x = val * pow10<double>(e);
            const double ulp = std::fabs(x) * 4.5e-16;
            auto f = [](int i, double x) { return i == 0 ? std::trunc(x) : i == 1 ? std::round(x) : i == 2 ? std::ceil(x) : std::floor(x); };
            for (int i = 0; i < 4; ++i)
            {
                // what the exact product or the nearest doubles may be rounded to
                const double lo = f(i, x - ulp), hi = f(i, x + ulp);
                Val<K> v;
                const bool ok = run<K>([&] { return i == 0 ? D::make_decimal(val, uint8_t(e)) : i == 1 ? D::make_rounded(val, uint8_t(e)) : i == 2 ? D::make_ceiled(val, uint8_t(e)) : D::make_floored(val, uint8_t(e)); }, v);
                ++n_trans();
                static const char* names[4] = { "truncated", "rounded", "ceiled", "floored" };
                const double limit = std::ldexp(1.0, man_len<K>());
                auto can = [&](double r) { return std::isfinite(r) && std::fabs(r) < limit; };
                if (ok && !can(lo) && !can(hi)) mc::fail("%.17g %s to %d digits gives %s", val, names[i], e, show<K>(v).c_str());
                if (!ok && can(lo) && can(hi)) mc::fail("%.17g %s to %d digits throws", val, names[i], e);
                if (!ok) continue;
                W a, b; if constexpr (sizeof(W) == 16) a = (W)lo, b = (W)hi; else a = cpp_int(lo), b = cpp_int(hi);
                if (v.exp != e || v.w() < a || v.w() > b) mc::fail("%.17g %s to %d digits gives %s", val, names[i], e, show<K>(v).c_str());
            }
        }
    }

    // Operations with a double do what the same operation does with the decimal made of the double (itself checked above).
    template <class K> void check_mixed(double val)
    {
        using D = typename K::D;
        mc::trace_reset();
        for (int e = 0; e <= max_exp<K>(); e += max_exp<K>() > 4 ? 3 : 1)
            for (typename K::U man : { typename K::U(0), typename K::U(1), typename K::U(15), typename K::U(99), max_man<K>() })
                for (bool neg : { false, true })
                {
                    if (neg && man == 0) continue;
                    const Val<K> v{ neg, man, e };
                    const D d = make<K>(v);
                    mc::trace("%s with the double %.17g", show<K>(v).c_str(), val);
                    auto same = [&](const char* what, auto want_f, auto f)
                    {
                        Val<K> w, g;
                        const bool wok = run<K>(want_f, w), ok = run<K>(f, g);
                        ++n_trans();
                        if (wok != ok) mc::fail("%s %s %.17g %s", show<K>(v).c_str(), what, val, ok ? "does not throw" : "throws");
                        if (ok && (w.man != g.man || w.exp != g.exp || (w.neg != g.neg && w.man != 0))) mc::fail("%s %s %.17g is %s, expected %s", show<K>(v).c_str(), what, val, show<K>(g).c_str(), show<K>(w).c_str());
                    };
                    same("+", [&] { return d + D::make_decimal(val, uint8_t(e)); }, [&] { return d + val; });
                    same("-", [&] { return d - D::make_decimal(val, uint8_t(e)); }, [&] { return d - val; });
                    same("+=", [&] { return d + D::make_decimal(val, uint8_t(e)); }, [&] { D z = d; D& r = (z += val); if (&r != &z) mc::fail("+= returns something else"); return z; });
                    same("-=", [&] { return d - D::make_decimal(val, uint8_t(e)); }, [&] { D z = d; D& r = (z -= val); if (&r != &z) mc::fail("-= returns something else"); return z; });
                    const double x = d.template cast<double>(), m = d * val, q = d / val;
                    auto close = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= std::fabs(b) * 1e-15; };
                    if (!close(m, x * val)) mc::fail("%s * %.17g is %.17g", show<K>(v).c_str(), val, m);
                    if (val != 0 && !close(q, x / val)) mc::fail("%s / %.17g is %.17g", show<K>(v).c_str(), val, q);
                    same("*=", [&] { return D::make_decimal(m, uint8_t(e)); }, [&] { D z = d; D& r = (z *= val); if (&r != &z) mc::fail("*= returns something else"); return z; });
                    if (val != 0) same("/=", [&] { return D::make_decimal(q, uint8_t(e)); }, [&] { D z = d; D& r = (z /= val); if (&r != &z) mc::fail("/= returns something else"); return z; });
                }
    }

    // Mantissas at which something can change: small ones, around powers of ten and of two, the largest.
    template <class K> std::vector<typename K::U> grid(int small, int around, bool th)
    {
        using U = typename K::U;
        std::set<U> s;
        const U mx = max_man<K>();
        for (int i = 0; i <= small; ++i) s.insert((U)i);
        for (int i = 0; i <= around; ++i) s.insert(mx - i);
        U p = 1;
        for (;;)
        {
            for (int m : { 1, 2, 5 }) for (int i = -around; i <= around; ++i)
            {
                if (m != 1 && (i != 0 && !th)) continue;
                if (p > mx / m) continue;
                U x = p * m + i;
                if (x <= mx) s.insert(x);
            }
            // the largest that can be multiplied by p
            for (int i = 0; i <= 1; ++i) if (U(mx / p + i) <= mx) s.insert(U(mx / p + i));
            if (p > mx / 10) break;
            p *= 10;
        }
        for (int b = 0; b < man_len<K>(); b += th ? 3 : small < 10 ? 29 : 7) { s.insert((U)1 << b); s.insert(((U)1 << b) - 1); }
        // square roots of the limits for multiplication
        { U lo = 0, hi = (U)1 << ((man_len<K>() + 1) / 2); while (lo < hi) { U mid = lo + (hi - lo + 1) / 2; if (mid <= mx / mid) lo = mid; else hi = mid - 1; } s.insert(lo); s.insert(lo + 1); }
        s.insert(mx / 3);
        s.insert(mx / 7);
        return { s.begin(), s.end() };
    }

    template <class K> std::vector<int> exps()
    {
        std::set<int> s;
        const int m = max_exp<K>();
        for (int e : { 0, 1, 2, m / 2, m - 1, m }) if (e >= 0) s.insert(e);
        if (m >= 9) { s.insert(9); s.insert(m - 9); }
        return { s.begin(), s.end() };
    }

    int g_part = 0;
    bool mine() { return g_part++ % mc::cfg().shards == mc::cfg().shard; }

    template <class K> void all(const char* name, int mode, bool th)
    {
        using U = typename K::U;
        constexpr bool exhaustive = sizeof(U) == 2;
        std::vector<Val<K>> vals;
        auto add = [&](const std::vector<U>& g, const std::vector<int>& es) { for (int e : es) for (U m : g) for (int s = 0; s < 2; ++s) vals.push_back({ s == 1, m, e }); };
        const std::string n = name;
        std::vector<int> every;
        for (int e = 0; e <= max_exp<K>(); ++e) every.push_back(e);
        std::vector<U> full;
        if (exhaustive) for (unsigned m = 0; m <= max_man<K>(); ++m) full.push_back((U)m);
        // one operand: every value
        if (mode != 3 && mine() && mc::begin_scenario(n + (mode == 1 ? ": text, bits and bytes of every value" : ": every operation on one value") + (exhaustive ? "" : " of the grid")))
        {
            add(exhaustive ? full : mode == 1 ? grid<K>(120, 4, th) : sizeof(U) == 4 || th ? grid<K>(40, 3, th) : grid<K>(15, 2, th), mode == 1 || sizeof(U) == 4 || th ? every : exps<K>());
            for (auto& v : vals) { if (mode == 1) check_text<K>(v); else check_unary<K>(v); ++mc::cnt("states"); }
            ++mc::cnt("executions");
            mc::sample_trace();
        }
        if (mode == 1)
        {
            const int L = th ? (exhaustive ? 8 : 6) : (exhaustive ? 6 : 5);
            if (mine() && mc::begin_scenario(n + ": every text of up to " + std::to_string(L) + " characters"))
            {
                static const char alphabet[] = "+-.019 e";
                std::string s;
                std::function<void()> rec = [&]() { check_parse<K>(s); ++mc::cnt("states"); if ((int)s.size() == L) return; for (const char* c = alphabet; *c; ++c) { s.push_back(*c); rec(); s.pop_back(); } };
                rec();
                // any other character, anywhere
                for (int c = -128; c < 128; ++c) for (std::string t : { "1", "-1.5", "0.25", "+.5" }) for (size_t i = 0; i <= t.size(); ++i) { std::string u = t; u.insert(i, 1, (char)c); if (!isdigit((unsigned char)c) && c != '+' && c != '-' && c != '.') check_parse<K>(u); }
                ++mc::cnt("executions");
                mc::sample_trace();
            }
            if (mine() && mc::begin_scenario(n + ": long texts around the limits of the mantissa, the digits and the counters"))
            {
                const auto g = grid<K>(12, 3, th);
                std::set<std::string> bodies;
                for (U m : g) { std::string t = dec(m); bodies.insert(t); bodies.insert(t + "0"); bodies.insert(t + "9"); bodies.insert("9" + t); }
                // just above the largest
                for (int i = 1; i < 12; ++i) { cpp_int x = cpp_int(max_man<K>()) + i; bodies.insert(x.str()); }
                { cpp_int x = cpp_int(1) << (8 * sizeof(U)); for (int i = -2; i < 12; ++i) { bodies.insert(cpp_int(x + i).str()); bodies.insert(cpp_int(x + cpp_int(max_man<K>()) + i).str()); } }
                for (auto& t : bodies) for (const char* sign : { "", "-" })
                {
                    for (size_t p = 0; p <= t.size(); ++p)
                    {
                        check_parse<K>(sign + t.substr(0, p) + "." + t.substr(p));
                        check_parse<K>(sign + t.substr(0, p) + "." + t.substr(p) + "000");
                        check_parse<K>(sign + ("00" + t.substr(0, p)) + "." + t.substr(p));
                    }
                    for (int z = 0; z <= max_exp<K>() + 3; ++z) check_parse<K>(sign + ("0." + std::string(z, '0')) + t);
                    ++mc::cnt("states");
                }
                for (int z : { 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 270, 511, 512, 513, 520, 65536, 65537 }) for (const char* d : { "", "1", "5", "25", "123456" })
                {
                    const std::string zs(z, '0');
                    for (const char* sign : { "", "-" })
                    {
                        check_parse<K>(sign + zs + d);
                        check_parse<K>(sign + zs + d + ".5");
                        check_parse<K>(sign + ("0." + zs) + d);
                        check_parse<K>(sign + std::string("1.") + d + zs);
                        check_parse<K>(sign + std::string("1.") + d + zs + d);
                        check_parse<K>(sign + std::string("1") + zs + "." + d);
                    }
                    ++mc::cnt("states");
                }
                for (int z = 0; z < 600; ++z) { check_parse<K>("0." + std::string(z, '0') + "5"); check_parse<K>("1." + std::string(z, '9')); check_parse<K>(std::string(z, '9')); check_parse<K>(std::string(z, '0')); }
                ++mc::cnt("executions");
                mc::sample_trace();
            }
            return;
        }
        if (mode == 2)
        {
            if (mine() && mc::begin_scenario(n + ": conversion of numbers"))
            {
                std::set<long long> is = { 0 };
                for (U m : grid<K>(60, 3, th)) { if (m <= (U)std::numeric_limits<long long>::max()) { is.insert((long long)m); is.insert(-(long long)m); } }
                for (int b = 0; b < 63; ++b) for (int i = -2; i <= 2; ++i) { is.insert((1ll << b) + i); is.insert(-(1ll << b) + i); }
                is.insert(std::numeric_limits<long long>::max());
                is.insert(std::numeric_limits<long long>::min());
                for (long long i : is)
                {
                    check_integer<K, long long>(i, std::to_string(i).c_str());
                    if (i >= 0) check_integer<K, unsigned long long>((unsigned long long)i, std::to_string(i).c_str());
                    if (i == (int)i) check_integer<K, int>((int)i, std::to_string(i).c_str());
                    if (i == (signed char)i) check_integer<K, signed char>((signed char)i, std::to_string(i).c_str());
                    ++mc::cnt("states");
                }
                check_integer<K, unsigned long long>(~0ull, "2^64-1");
                for (double m : { 0.0, 1.0, 0.5, 0.25, 0.125, 0.1, 1.0 / 3, 2.0 / 3, 1.5, 2.5, 10.128, 0.999, 0.9999999, 99.995, 123456.789, 1e-9, 1e-20, 1e-320, 1e9, 9007199254740991.0, 9007199254740993.0 })
                    for (int b : { 0, 1, 5, 10, 14, 20, 30, 50, 57, 58, 59, 60, 62, 63, 64, 65, 100, 120, 121, 122, 123, 126, 127, 128, 200, 1000 })
                        for (double s : { 1.0, -1.0 }) { check_double<K>(s * std::ldexp(m, b)); ++mc::cnt("states"); }
                for (double m : { 0.0, 1.0, 0.5, 0.1, 2.5, 7.0, 99.995, 1e9, 1e30, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN() })
                    for (double s : { 1.0, -1.0 }) { check_mixed<K>(s * m); ++mc::cnt("states"); }
                check_double<K>(std::numeric_limits<double>::infinity());
                check_double<K>(-std::numeric_limits<double>::infinity());
                check_double<K>(std::numeric_limits<double>::quiet_NaN());
                check_double<K>(std::numeric_limits<double>::max());
                for (int b = man_len<K>() - 2; b <= man_len<K>() + 1; ++b) { const double x = std::ldexp(1.0, b); for (double y : { x, std::nextafter(x, 0), std::nextafter(x, 1e300) }) { check_double<K>(y); check_double<K>(-y); } }
                ++mc::cnt("executions");
                mc::sample_trace();
            }
        }
        // two operands
        const int parts = th ? 8 : (sizeof(U) == 16 ? 4 : 2);
        const bool every_pair = exhaustive && th && mode == 3;
        for (int part = 0; part < parts; ++part)
            if (mine() && mc::begin_scenario(n + (mode == 3 ? ": comparing every two values" : ": arithmetic on every two values") + (every_pair ? "" : " of the grid") + ", part " + std::to_string(part)))
            {
                vals.clear();
                if (every_pair) add(full, every);
                else if (exhaustive) add(grid<K>(th ? 130 : mode == 3 ? 60 : 30, mode == 3 ? 5 : 3, th), every);
                else if (sizeof(U) == 4) add(grid<K>(th ? 40 : 20, th || mode == 3 ? 2 : 1, th), every);
                else add(grid<K>(th ? 24 : mode == 3 ? 20 : 6, 1, false), exps<K>());
                for (size_t i = part; i < vals.size(); i += parts)
                {
                    mc::trace_reset();
                    mc::trace("%s with every value", show<K>(vals[i]).c_str());
                    for (auto& b : vals) check_pair<K>(vals[i], b, mode == 2, mode == 3);
                    ++mc::cnt("states");
                    if (mc::over_budget()) { mc::res().capped.push_back(n); break; }
                }
                ++mc::cnt("executions");
                mc::sample_trace();
            }
    }

    template <class K> void limits()
    {
        using D = typename K::D;
        auto mx = see<K>(std::numeric_limits<D>::max()), mn = see<K>(std::numeric_limits<D>::min());
        if (mx.man != max_man<K>() || mx.exp || mx.neg || mn.man != max_man<K>() || mn.exp || !mn.neg) mc::fail("the numeric limits are wrong");
        if (D::max_mantissa() != max_man<K>()) mc::fail("the largest mantissa is wrong");
        int want = 0;
        { typename K::W p = 1; while (want < (1 << K::E) - 1) { typename K::W q = p * 10; cpp_int m = (cpp_int(1) << (8 * sizeof(typename K::U))) - 1; if (cpp_int(q) > m) break; p = q; ++want; } }
        if (max_exp<K>() > want) mc::fail("a decimal of %zu bits cannot have %d digits", 8 * sizeof(typename K::U), max_exp<K>());
        // less than 15 would forbid values that have always been accepted
        if (max_exp<K>() < std::min((1 << K::E) - 1, 15)) mc::fail("a decimal of %zu bits cannot have more than %d digits", 8 * sizeof(typename K::U), max_exp<K>());
        if (see<K>(D()).man != 0 || see<K>(D()).exp != 0 || see<K>(D::zero()).man != 0) mc::fail("zero is wrong");
        // More digits than there can be
        for (int e = max_exp<K>() + 1; e < 256; ++e)
        {
            bool ok = true;
            Val<K> r {};
            ok = run<K>([&] { return D(1, uint8_t(e)); }, r);
            ++n_trans();
            if (ok) { mc::fail_keyed("constructor-takes-too-many-digits", "decimal(1, " + std::to_string(e) + ") gives " + show<K>(r)); break; }
        }
    }

    template <class K> void one(const char* name, int mode, bool th)
    {
        if (mode == 2 && mine() && mc::begin_scenario(std::string(name) + ": limits")) { limits<K>(); ++mc::cnt("executions"); ++mc::cnt("states"); }
        all<K>(name, mode, th);
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const bool th = mc::cfg().thorough;
    int mode = 0;
    for (int i = 1; i < argc; ++i) { if (!strcmp(argv[i], "--text")) mode = 1; if (!strcmp(argv[i], "--arithmetic")) mode = 2; if (!strcmp(argv[i], "--compare")) mode = 3; }
    one<K16>("16 bits, 3 digits", mode, th);
    one<K32>("32 bits, 7 digits", mode, th);
    one<K64<4>>("64 bits, exponent of 4 bits", mode, th);
    one<K64<5>>("64 bits, exponent of 5 bits", mode, th);
    one<K64<6>>("64 bits, exponent of 6 bits", mode, th);
    one<K128<4>>("128 bits, exponent of 4 bits", mode, th);
    one<K128<5>>("128 bits, exponent of 5 bits", mode, th);
    one<K128<6>>("128 bits, exponent of 6 bits", mode, th);
    return mc::finish();
}
