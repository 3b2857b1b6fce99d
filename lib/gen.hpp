// Bounded value generators for the serialization harnesses: G<T>::count() values, G<T>::put(t, i) assigns the i-th,
// G<T>::show(t) is a text that is equal for equal values only.
#pragma once
#include "mc.hpp"
#include "Awl/Io/ReadWrite.h"
#include "Awl/Io/Vts.h"
#include "Awl/Ring.h"
#include "Awl/BitMap.h"
#include "Awl/Decimal.h"
#include <map>
#include <set>
#include <deque>
#include <unordered_map>
#include <unordered_set>
#include <optional>
#include <variant>
#include <memory>
#include <atomic>
#include <bitset>
#include <chrono>
#include <limits>
#include <type_traits>

namespace gen
{
    inline int g_len = 2;       // longest sequence
    inline bool g_invalid = false;  // show() has met something that is not a value of its type
    inline int g_base = 3;      // element values used inside sequences

    template <class T, class = void> struct G;

    inline std::string hex(const void* p, size_t n) { static const char d[] = "0123456789abcdef"; std::string s; auto c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { s += d[c[i] >> 4]; s += d[c[i] & 15]; } return s; }

    template <class T> T fresh() { if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) return T{}; else return T(); }

    template <class T> struct G<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
    {
        static int count() { return 6; }
        static void put(T& t, int i)
        {
            T pat = 0;
            for (size_t k = 0; k < sizeof(T); ++k) pat = T((pat << (sizeof(T) > 1 ? 8 : 0)) | T(0x81 - 0x11 * int(k)));
            const T v[] = { T(1), T(0), T(-1), pat, std::numeric_limits<T>::min(), std::numeric_limits<T>::max() };
            t = v[i];
        }
        static std::string show(const T& t) { return hex(&t, sizeof t); }
    };
    template <> struct G<bool>
    {
        static int count() { return 2; }
        static void put(bool& t, int i) { t = i == 0; }
        static std::string show(const bool& t) { return t ? "T" : "F"; }
    };
    template <class T> struct G<T, std::enable_if_t<std::is_floating_point_v<T>>>
    {
        using L = std::numeric_limits<T>;
        static int count() { return 7; }
        static void put(T& t, int i) { const T v[] = { T(1.5), T(0), T(-0.0), L::infinity(), L::denorm_min(), L::lowest(), L::quiet_NaN() }; t = v[i]; }
        static std::string show(const T& t) { return hex(&t, sizeof(T) > 8 ? 10 : sizeof t); }
    };

    // An i in mixed radix over all sequences of 0..len digits below base.
    inline int seq_count(int base, int len) { int n = 0, p = 1; for (int l = 0; l <= len; ++l) { n += p; p *= base; } return n; }
    inline std::vector<int> seq(int base, int i) { std::vector<int> d; int p = 1, l = 0; while (i >= p) { i -= p; p *= base; ++l; } for (int k = 0; k < l; ++k) { d.push_back(i % base); i /= base; } return d; }
    template <class T> int base() { return std::min(G<T>::count(), g_base); }

    template <class C, class T, class Add> void fill(C& c, int i, Add add)
    {
        for (int d : seq(base<T>(), i)) { T e = fresh<T>(); G<T>::put(e, d); add(c, std::move(e)); }
    }
    template <class T, class C> std::string show_range(const C& c, bool sorted)
    {
        std::vector<std::string> v;
        for (const auto& e : c) { T const& r = e; v.push_back(G<T>::show(r)); }
        if (sorted) std::sort(v.begin(), v.end());
        std::string s = "[";
        for (auto& x : v) s += x + ",";
        return s + "]";
    }
    // Strings: elements are characters, among them 0.
    template <class C> struct G<std::basic_string<C>>
    {
        using T = std::basic_string<C>;
        static int count() { return seq_count(3, g_len); }
        static void put(T& t, int i) { t.clear(); for (int d : seq(3, i)) t.push_back(d == 0 ? C('a') : d == 1 ? C(0) : std::numeric_limits<C>::max()); }
        static std::string show(const T& t) { std::string s = "\""; for (C c : t) s += hex(&c, sizeof c); return s + "\""; }
    };
    template <class T> struct Seq
    {
        using E = typename T::value_type;
        static int count() { return seq_count(base<E>(), g_len); }
        static void put(T& t, int i) { t.clear(); fill<T, E>(t, i, [](T& c, E&& e) { c.push_back(std::move(e)); }); }
        static std::string show(const T& t) { return show_range<E>(t, false); }
    };
    template <class T> struct SetLike
    {
        using E = typename T::value_type;
        static int count() { return seq_count(base<E>(), g_len); }
        static void put(T& t, int i) { t.clear(); fill<T, E>(t, i, [](T& c, E&& e) { c.insert(std::move(e)); }); }
        static std::string show(const T& t) { return show_range<E>(t, true); }
    };
    template <class E> struct G<std::vector<E>> : Seq<std::vector<E>> {};
    template <> struct G<std::vector<bool>>
    {
        // Every length around the byte boundaries with a few patterns.
        static int count() { return 40; }
        static void put(std::vector<bool>& t, int i) { static const int len[] = { 0, 1, 2, 7, 8, 9, 15, 16, 17, 24 }; const int n = len[i / 4], p = i % 4; t.clear(); for (int k = 0; k < n; ++k) t.push_back(p == 0 ? true : p == 1 ? false : p == 2 ? k % 2 == 0 : k == n - 1); }
        static std::string show(const std::vector<bool>& t) { std::string s = "b"; for (bool b : t) s += b ? '1' : '0'; return s; }
    };
    template <class E> struct G<std::deque<E>> : Seq<std::deque<E>> {};
    template <class E> struct G<awl::ring<E>>
    {
        using T = awl::ring<E>;
        static int count() { return seq_count(base<E>(), g_len); }
        // A capacity that leaves room, and contents that wrap around.
        static void put(T& t, int i) { T r(g_len + 1); for (int k = 0; k <= i % (g_len + 1); ++k) { E e = fresh<E>(); G<E>::put(e, 0); r.push_back(e); } while (r.size()) r.pop_front(); fill<T, E>(r, i, [](T& c, E&& e) { c.push_back(std::move(e)); }); t = std::move(r); }
        static std::string show(const T& t) { std::string s = "["; for (const auto& e : t) s += G<E>::show(e) + ","; return s + "]"; }
    };
    template <class E> struct G<std::set<E>> : SetLike<std::set<E>> {};
    template <class E> struct G<std::unordered_set<E>> : SetLike<std::unordered_set<E>> {};
    template <class E> struct G<awl::vector_set<E>> : SetLike<awl::vector_set<E>> {};
    template <class E> struct G<awl::observable_set<E>> : SetLike<awl::observable_set<E>> {};
    template <class T> struct MapLike
    {
        using K = typename T::key_type; using V = typename T::mapped_type;
        static int nb() { return std::min(base<K>() * base<V>(), 5); }
        static int count() { return seq_count(nb(), g_len); }
        static void put(T& t, int i) { t.clear(); for (int d : seq(nb(), i)) { K k = fresh<K>(); V v = fresh<V>(); G<K>::put(k, d % base<K>()); G<V>::put(v, d / base<K>() % G<V>::count()); t.emplace(std::move(k), std::move(v)); } }
        static std::string show(const T& t) { std::vector<std::string> v; for (auto& [k, x] : t) v.push_back(G<K>::show(k) + ":" + G<V>::show(x)); std::sort(v.begin(), v.end()); std::string s = "{"; for (auto& x : v) s += x + ","; return s + "}"; }
    };
    template <class K, class V> struct G<std::map<K, V>> : MapLike<std::map<K, V>> {};
    template <class K, class V> struct G<std::unordered_map<K, V>> : MapLike<std::unordered_map<K, V>> {};
    template <class E, size_t N> struct G<std::array<E, N>>
    {
        using T = std::array<E, N>;
        static int b() { return N > 4 ? std::min(2, base<E>()) : base<E>(); }
        static int count() { int n = 1; for (size_t k = 0; k < N && n < 600; ++k) n *= b(); return n; }
        static void put(T& t, int i) { for (auto& e : t) { G<E>::put(e, i % b()); i /= b(); } }
        static std::string show(const T& t) { return show_range<E>(t, false); }
    };
    template <size_t N> struct G<std::bitset<N>>
    {
        static int count() { return N <= 6 ? 1 << N : 64; }
        static void put(std::bitset<N>& t, int i) { t.reset(); for (size_t k = 0; k < N; ++k) t[k] = N <= 6 ? (i >> k) & 1 : ((i >> (k < 3 ? k : k + 6 >= N ? 5 - (N - 1 - k) % 3 : 3)) & 1); }
        static std::string show(const std::bitset<N>& t) { return t.to_string(); }
    };
    template <class E, auto N> struct G<awl::bitmap<E, N>>
    {
        using T = awl::bitmap<E, N>;
        static int count() { return N <= 6 ? 1 << N : 64; }
        static void put(T& t, int i) { t = T{}; for (int k = 0; k < int(N); ++k) t.set(E(k), N <= 6 ? (i >> k) & 1 : ((i >> (k < 3 ? k : k + 3 >= int(N) ? 3 + (int(N) - 1 - k) : 3)) & 1)); }
        static std::string show(const T& t) { std::string s = "m"; for (int k = 0; k < int(N); ++k) s += t[E(k)] ? '1' : '0'; return s; }
    };
    template <class E> struct Maybe
    {
        static std::string some(const E& e) { return "(" + G<E>::show(e) + ")"; }
        static int count() { return 1 + G<E>::count(); }
    };
    template <class E> struct G<std::optional<E>> : Maybe<E>
    {
        static void put(std::optional<E>& t, int i) { if (i == 0) t.reset(); else { E e = fresh<E>(); G<E>::put(e, i - 1); t = std::move(e); } }
        static std::string show(const std::optional<E>& t) { return t ? Maybe<E>::some(*t) : "-"; }
    };
    template <class E> struct G<std::shared_ptr<E>> : Maybe<E>
    {
        static void put(std::shared_ptr<E>& t, int i) { if (i == 0) t.reset(); else { t = std::make_shared<E>(); G<E>::put(*t, i - 1); } }
        static std::string show(const std::shared_ptr<E>& t) { return t ? Maybe<E>::some(*t) : "-"; }
    };
    template <class E> struct G<std::unique_ptr<E>> : Maybe<E>
    {
        static void put(std::unique_ptr<E>& t, int i) { if (i == 0) t.reset(); else { t = std::make_unique<E>(); G<E>::put(*t, i - 1); } }
        static std::string show(const std::unique_ptr<E>& t) { return t ? Maybe<E>::some(*t) : "-"; }
    };
    template <class... Ts> struct G<std::variant<Ts...>>
    {
        using T = std::variant<Ts...>;
        static int count() { return (G<Ts>::count() + ...); }
        template <size_t K = 0> static void put(T& t, int i)
        {
            if constexpr (K < sizeof...(Ts))
            {
                using E = std::variant_alternative_t<K, T>;
                if (i < G<E>::count()) { E e = fresh<E>(); G<E>::put(e, i); t.template emplace<K>(std::move(e)); }
                else put<K + 1>(t, i - G<E>::count());
            }
        }
        template <size_t K = 0> static std::string show(const T& t)
        {
            if constexpr (K < sizeof...(Ts)) return t.index() == K ? std::to_string(K) + ":" + G<std::variant_alternative_t<K, T>>::show(std::get<K>(t)) : show<K + 1>(t);
            else return "valueless";
        }
    };
    template <class C, class D> struct G<std::chrono::time_point<C, D>>
    {
        using T = std::chrono::time_point<C, D>;
        static int count() { return 6; }
        static void put(T& t, int i)
        {
            // What fits into 64 bits of nanoseconds.
            using R = typename D::rep;
            const R max = std::chrono::duration_cast<D>(std::chrono::nanoseconds(std::numeric_limits<int64_t>::max())).count();
            const R v[] = { R(1), R(0), R(-1), R(max), R(-max), R(max / 3) };
            t = T(D(v[i]));
        }
        static std::string show(const T& t) { return std::to_string(t.time_since_epoch().count()); }
    };
    template <class E> struct G<std::atomic<E>>
    {
        static int count() { return G<E>::count(); }
        static void put(std::atomic<E>& t, int i) { E e = fresh<E>(); G<E>::put(e, i); t = e; }
        static std::string show(const std::atomic<E>& t) { return G<E>::show(t.load()); }
    };
    template <class U, uint8_t E, template <class, uint8_t> class D> struct G<awl::decimal<U, E, D>>
    {
        using T = awl::decimal<U, E, D>;
        static int count() { return 7; }
        static void put(T& t, int i) { static const char* v[] = { "1", "0", "-1", "0.1", "-12345.6789", "0.00", "1000" }; t = T(std::string_view(v[i])); }
        static std::string show(const T& t) { if (t.exponent() > T::max_exponent()) g_invalid = true; auto b = t.to_bits(); return hex(&b, sizeof b); }
    };
    // Sequential enums (E::...) and others.
    template <class E> struct G<E, std::enable_if_t<std::is_enum_v<E>>>
    {
        static int count() { if constexpr (awl::is_sequential_enum<E>) return awl::EnumTraits<E>::count(); else return 4; }
        static void put(E& t, int i) { if constexpr (awl::is_sequential_enum<E>) t = E(i); else { using U = std::underlying_type_t<E>; const U v[] = { U(1), U(0), U(-1), std::numeric_limits<U>::max() }; t = E(v[i]); } }
        static std::string show(const E& t) { if constexpr (awl::is_sequential_enum<E>) if ((long long)t < 0 || (long long)t >= (long long)awl::EnumTraits<E>::count()) g_invalid = true; return std::to_string((long long)t); }
    };
    // Structures: every field runs through its values, the others through a few combinations.
    template <class T> struct G<T, std::enable_if_t<std::is_class_v<T> && awl::is_tuplizable_v<T>>>
    {
        using Tie = typename awl::tuplizable_traits<T>::Tie;
        static constexpr size_t N = std::tuple_size_v<Tie>;
        template <size_t K> using F = std::remove_cvref_t<std::tuple_element_t<K, Tie>>;
        template <size_t... K> static int count_(std::index_sequence<K...>) { return 1 + (0 + ... + (G<F<K>>::count() - 1)) + (N > 1 ? g_base * g_base : 0); }
        static int count() { return count_(std::make_index_sequence<N>()); }
        // 0: all first values; then each field alone at each other value; then combinations.
        template <size_t... K> static void put_(T& t, int i, std::index_sequence<K...>)
        {
            auto tie = awl::object_as_tuple(t);
            (G<F<K>>::put(std::get<K>(tie), 0), ...);
            int at = 1;
            bool done = i == 0;
            ([&] { const int n = G<F<K>>::count() - 1; if (!done && i < at + n) { G<F<K>>::put(std::get<K>(tie), i - at + 1); done = true; } at += n; }(), ...);
            if (!done) { const int j = i - at; ([&] { G<F<K>>::put(std::get<K>(tie), (K % 2 ? j / g_base : j % g_base) * (1 + int(K) / 2) % G<F<K>>::count()); }(), ...); }
        }
        static void put(T& t, int i) { put_(t, i, std::make_index_sequence<N>()); }
        template <size_t... K> static std::string show_(const T& t, std::index_sequence<K...>) { auto tie = awl::object_as_tuple(t); std::string s = "<"; ((s += G<F<K>>::show(std::get<K>(tie)) + ";"), ...); return s + ">"; }
        static std::string show(const T& t) { return show_(t, std::make_index_sequence<N>()); }
    };
}
