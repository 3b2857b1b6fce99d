// The types the serialization harnesses go through.
#pragma once
#include "gen.hpp"
#include "Awl/Io/VersionTolerantSerializable.h"

namespace ty
{
    AWL_SEQUENTIAL_ENUM(Color, Red, Green, Blue)
    AWL_SEQUENTIAL_ENUM(Nine, N0, N1, N2, N3, N4, N5, N6, N7, N8)
    enum class Wide : int32_t { A, B };
    enum class Small : uint8_t { A, B };
    struct Plain { int16_t a; std::string b; AWL_TUPLIZABLE(a, b) };
    struct Point { int32_t x; bool y; AWL_REFLECT(x, y) };
    struct Deep { Point p; std::vector<Point> v; std::optional<Point> o; uint8_t t; AWL_REFLECT(p, v, o, t) };
    struct InPlain { Plain p; std::vector<Plain> v; AWL_TUPLIZABLE(p, v) };
    struct Holder { std::shared_ptr<Point> s; std::unique_ptr<Point> u; std::variant<int32_t, Point> v; AWL_REFLECT(s, u, v) };
    struct Maps { std::map<int32_t, Point> m; std::set<std::string> s; std::deque<Point> d; AWL_REFLECT(m, s, d) };
    struct Misc { Color c; Wide w; std::chrono::system_clock::time_point t; awl::decimal<uint64_t, 4> d; std::array<Point, 2> a; AWL_REFLECT(c, w, t, d, a) };
    struct At { std::atomic<int32_t> a; std::string s; AWL_REFLECT(a, s) };
    inline bool operator<(const Point& l, const Point& r) { return awl::objects_less(l, r); }

    template <class T> struct W { T a; uint8_t tail; AWL_REFLECT(a, tail) };
}
AWL_ENUM_TRAITS(ty, Color)
AWL_ENUM_TRAITS(ty, Nine)

namespace ty
{
    template <class... Ts> struct List {};
    // Copyable: used inside containers as well. Vts: the version-tolerant format knows the type.
    using A1 = List<int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, char, wchar_t, char16_t, char32_t, bool, float, double>;
    using A2 = List<__int128, unsigned __int128, Color, Wide, Small, std::string, std::wstring, std::u16string, std::u32string>;
    using B1 = List<std::vector<int32_t>, std::vector<uint8_t>, std::vector<double>, std::vector<bool>, std::vector<std::string>, std::vector<std::vector<int16_t>>, std::vector<std::vector<bool>>, std::array<int32_t, 3>, std::array<bool, 3>, std::array<bool, 8>, std::array<bool, 9>, std::array<std::string, 2>>;
    using B2 = List<std::deque<int32_t>, std::deque<std::string>, std::set<int32_t>, std::set<std::string>, awl::vector_set<int32_t>, awl::vector_set<std::string>, awl::observable_set<int32_t>, std::unordered_set<int32_t>, std::unordered_set<std::string>, std::map<int32_t, std::string>, std::map<std::string, std::vector<int16_t>>, std::unordered_map<std::string, int32_t>, awl::ring<int32_t>, awl::ring<std::string>>;
    using C1 = List<std::optional<int32_t>, std::optional<std::string>, std::optional<std::vector<int32_t>>, std::optional<std::optional<int32_t>>, std::shared_ptr<int32_t>, std::shared_ptr<std::string>, std::variant<int32_t, std::string>, std::variant<int32_t, std::vector<std::string>, bool>, std::vector<std::optional<int16_t>>, std::vector<std::variant<bool, std::string>>, std::map<int32_t, std::optional<std::string>>, std::vector<std::shared_ptr<int16_t>>, std::set<std::optional<int16_t>>, std::optional<std::set<int16_t>>, std::shared_ptr<std::map<int16_t, bool>>>;
    using C2 = List<std::chrono::system_clock::time_point, std::chrono::steady_clock::time_point, std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>, std::chrono::time_point<std::chrono::system_clock, std::chrono::milliseconds>, awl::decimal<uint64_t, 4>, awl::decimal<uint64_t, 5>, awl::decimal<__uint128_t, 5>, std::vector<awl::decimal<uint64_t, 4>>, std::optional<awl::decimal<uint64_t, 4>>, std::map<Color, int32_t>, std::set<Color>, std::optional<Color>, std::variant<Color, int32_t>>;
    using D1 = List<Point, Deep, Maps, Misc, std::vector<Point>, std::optional<Point>, std::variant<Point, int32_t>, std::set<Point>, std::map<int32_t, Deep>, std::vector<Deep>, std::shared_ptr<Deep>, W<Deep>>;
    // No version-tolerant form (no type name) or not copyable.
    using P1 = List<std::bitset<1>, std::bitset<6>, std::bitset<8>, std::bitset<9>, std::bitset<65>, awl::bitmap<Color>, awl::bitmap<Nine>, std::optional<std::bitset<9>>, Plain, InPlain, std::vector<Plain>, std::optional<InPlain>, std::atomic<int32_t>, std::atomic<bool>, std::unique_ptr<int32_t>, std::unique_ptr<std::string>, std::vector<std::unique_ptr<int16_t>>, std::optional<std::unique_ptr<int16_t>>, Holder, At>;
}
