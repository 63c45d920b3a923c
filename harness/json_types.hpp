#pragma once
// Sample user types for the JSON checks, their random generation, and an independent view of them as documents.
#include "json_dom.hpp"
#include <HXLibs/reflection/json/JsonRead.hpp>
#include <HXLibs/reflection/json/JsonWrite.hpp>
#include <HXLibs/reflection/ReflectionMacro.hpp>
#include <array>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <tuple>
#include <unordered_map>
#include <variant>
#include <limits>
#include <cmath>
namespace jt {
using dom::Dom;
enum class Color { Red, Green, Blue, Dark_Grey = 7, Neg = -3 };
enum Plain : int { pA, pB = 5, pC };
struct Inner { int a{}; std::string s; double d{}; bool b{}; std::optional<int> o; };
struct Nums { std::int8_t i8{}; std::uint8_t u8{}; std::int16_t i16{}; std::uint16_t u16{}; std::int32_t i32{}; std::uint32_t u32{}; std::int64_t i64{}; std::uint64_t u64{}; float f{}; double d{}; bool b{}; char c{}; };
struct Wide { Inner in; std::vector<Inner> vi; std::map<std::string, int> m; std::unordered_map<std::string, std::vector<std::string>> um; std::optional<Inner> oi; std::unique_ptr<Inner> up; std::shared_ptr<std::string> sp;
    std::array<int, 3> ar{}; std::tuple<int, std::string, double> tp; std::list<std::string> ls; Color col{}; std::deque<std::vector<double>> dq; std::vector<std::optional<std::string>> vo; std::map<std::string, std::map<std::string, Inner>> mm; Nums n; };
struct Tree { int v{}; std::string name; std::vector<Tree> kids; std::shared_ptr<Tree> next; std::optional<Plain> p; };
class Priv { int x{}; std::string y; std::vector<bool> skip; std::vector<Color> z; public: HX_REFL_AS(x, x_val, y, y_val, z, colours) auto t() const { return std::tie(x, y, z); } auto tm() { return std::tie(x, y, z); } };
struct One { std::string only; };
struct Small { std::vector<std::tuple<>> t; std::tuple<> u; std::tuple<std::tuple<>, std::tuple<>> n; std::map<std::string, std::tuple<>> m; std::tuple<int> one; std::array<std::string, 1> z; std::optional<std::tuple<>> o; };
struct Big { int m0{}, m1{}, m2{}, m3{}, m4{}, m5{}, m6{}, m7{}, m8{}, m9{}, m10{}, m11{}, m12{}, m13{}, m14{}, m15{}, m16{}, m17{}, m18{}, m19{}; };

// ---- independent enum names
inline char const* nm(Color c) { switch (c) { case Color::Red: return "Red"; case Color::Green: return "Green"; case Color::Blue: return "Blue"; case Color::Dark_Grey: return "Dark_Grey"; case Color::Neg: return "Neg"; } return "?"; }
inline char const* nm(Plain c) { switch (c) { case pA: return "pA"; case pB: return "pB"; case pC: return "pC"; } return "?"; }
// ---- to Dom
template <class T> Dom td(T const& v);
template <class T> struct TD;
template <class T> requires std::is_arithmetic_v<T> struct TD<T> { static Dom f(T v) { if constexpr (std::is_same_v<T, bool>) return dom::mk(v); else if constexpr (std::is_floating_point_v<T>) { char b[64]; std::snprintf(b, sizeof b, "%.17g", (double)v); auto d = dom::mkNum(b, std::is_same_v<T, float>); d.fp = true; return d; } else return dom::mkNum(std::to_string(v)); } };
template <class T> requires std::is_enum_v<T> struct TD<T> { static Dom f(T v) { auto d = dom::mkStr(nm(v)); d.ident = true; return d; } };
template <> struct TD<std::string> { static Dom f(std::string const& s) { return dom::mkStr(s); } };
template <class C> struct Seq { static Dom f(C const& c) { Dom d; d.k = Dom::Arr; for (auto const& x : c) d.a.push_back(td(x)); return d; } };
template <class T> struct TD<std::vector<T>> : Seq<std::vector<T>> {};
template <class T> struct TD<std::list<T>> : Seq<std::list<T>> {};
template <class T> struct TD<std::deque<T>> : Seq<std::deque<T>> {};
template <class T, std::size_t N> struct TD<std::array<T, N>> : Seq<std::array<T, N>> {};
template <class C> struct Map { static Dom f(C const& c) { Dom d; d.k = Dom::Obj; for (auto const& [k, v] : c) d.o.emplace_back(k, td(v)); return d; } };
template <class V> struct TD<std::map<std::string, V>> : Map<std::map<std::string, V>> {};
template <class V> struct TD<std::unordered_map<std::string, V>> : Map<std::unordered_map<std::string, V>> {};
template <class T> struct TD<std::optional<T>> { static Dom f(std::optional<T> const& o) { return o ? td(*o) : Dom{}; } };
template <class T> struct TD<std::unique_ptr<T>> { static Dom f(std::unique_ptr<T> const& o) { return o ? td(*o) : Dom{}; } };
template <class T> struct TD<std::shared_ptr<T>> { static Dom f(std::shared_ptr<T> const& o) { return o ? td(*o) : Dom{}; } };
template <class... Ts> struct TD<std::tuple<Ts...>> { static Dom f(std::tuple<Ts...> const& t) { Dom d; d.k = Dom::Arr; std::apply([&](auto const&... x) { (d.a.push_back(td(x)), ...); }, t); return d; } };
template <class... Ts> struct TD<std::variant<Ts...>> { static Dom f(std::variant<Ts...> const& t) { return std::visit([](auto const& x) { return td(x); }, t); } };
template <> struct TD<std::monostate> { static Dom f(std::monostate) { return {}; } };
inline void put(Dom&) {}
template <class T, class... R> void put(Dom& d, char const* n, T const& v, R const&... r) { d.k = Dom::Obj; d.o.emplace_back(n, td(v)); put(d, r...); }
#define JT(T, ...) template <> struct TD<T> { static Dom f(T const& v) { Dom d; put(d, __VA_ARGS__); return d; } };
JT(Inner, "a", v.a, "s", v.s, "d", v.d, "b", v.b, "o", v.o)
JT(Nums, "i8", v.i8, "u8", v.u8, "i16", v.i16, "u16", v.u16, "i32", v.i32, "u32", v.u32, "i64", v.i64, "u64", v.u64, "f", v.f, "d", v.d, "b", v.b, "c", v.c)
JT(Wide, "in", v.in, "vi", v.vi, "m", v.m, "um", v.um, "oi", v.oi, "up", v.up, "sp", v.sp, "ar", v.ar, "tp", v.tp, "ls", v.ls, "col", v.col, "dq", v.dq, "vo", v.vo, "mm", v.mm, "n", v.n)
JT(Tree, "v", v.v, "name", v.name, "kids", v.kids, "next", v.next, "p", v.p)
template <> struct TD<Priv> { static Dom f(Priv const& p) { Dom d; auto t = p.t(); put(d, "x_val", std::get<0>(t), "y_val", std::get<1>(t), "colours", std::get<2>(t)); return d; } };
JT(One, "only", v.only)
JT(Small, "t", v.t, "u", v.u, "n", v.n, "m", v.m, "one", v.one, "z", v.z, "o", v.o)
JT(Big, "m0", v.m0, "m1", v.m1, "m2", v.m2, "m3", v.m3, "m4", v.m4, "m5", v.m5, "m6", v.m6, "m7", v.m7, "m8", v.m8, "m9", v.m9, "m10", v.m10, "m11", v.m11, "m12", v.m12, "m13", v.m13, "m14", v.m14, "m15", v.m15, "m16", v.m16, "m17", v.m17, "m18", v.m18, "m19", v.m19)
template <class T> Dom td(T const& v) { return TD<T>::f(v); }
// ---- random values
using R = vf::Rng;
inline std::string rstr(R& r) {
    std::string s; std::size_t n = r.chance(0.02) ? r.below(400) : r.below(9);
    for (std::size_t i = 0; i < n; ++i) switch (r.below(8)) {
        case 0: s += r.pick({'"', '\\', '/', '\b', '\f', '\n', '\r', '\t'}); break;
        case 1: s += (char)r.below(32); break;
        case 2: s += r.pick({'{', '}', '[', ']', ':', ',', ' ', '\x7f', '\'', '0'}); break;
        case 3: dom::utf8(s, (unsigned)r.range(0x80, 0x7FF)); break;
        case 4: { unsigned c = (unsigned)r.pick({0x800, 0xFFFF, 0xFFFE, 0xFFFD, 0xD7FF, 0xE000, 0x4E2D, 0x20AC}); if (r.chance(0.5)) { do c = (unsigned)r.range(0x800, 0xFFFF); while (c >= 0xD800 && c <= 0xDFFF); } dom::utf8(s, c); break; }
        case 5: dom::utf8(s, r.chance(0.3) ? (r.chance(0.5) ? 0x10000u : 0x10FFFFu) : (unsigned)r.range(0x10000, 0x10FFFF)); break;
        default: s += r.text(1 + r.below(4)); }
    return s;
}
template <class T> T rint(R& r) { switch (r.below(4)) { case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::min(); case 2: return (T)r.range(-20, 20); default: return (T)r.next(); } }
template <class T> T rflt(R& r) { switch (r.below(6)) { case 0: return (T)r.range(-1000, 1000); case 1: return (T)(r.range(-1000000, 1000000) / 1000.0); case 2: return std::numeric_limits<T>::max(); case 3: return std::numeric_limits<T>::denorm_min(); case 4: return (T)0;
    default: { for (;;) { std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t> b = (decltype(b))r.next(); T v; std::memcpy(&v, &b, sizeof v); if (std::isfinite(v)) return v; } } } }
inline void gen(R& r, Inner& v) { v.a = rint<int>(r); v.s = rstr(r); v.d = rflt<double>(r); v.b = r.chance(0.5); if (r.chance(0.5)) v.o = rint<int>(r); }
inline void gen(R& r, Nums& v) { v.i8 = rint<std::int8_t>(r); v.u8 = rint<std::uint8_t>(r); v.i16 = rint<std::int16_t>(r); v.u16 = rint<std::uint16_t>(r); v.i32 = rint<std::int32_t>(r); v.u32 = rint<std::uint32_t>(r); v.i64 = rint<std::int64_t>(r); v.u64 = rint<std::uint64_t>(r); v.f = rflt<float>(r); v.d = rflt<double>(r); v.b = r.chance(0.5); v.c = (char)r.next(); }
inline Color rcol(R& r) { return r.pick({Color::Red, Color::Green, Color::Blue, Color::Dark_Grey, Color::Neg}); }
inline std::string rkey(R& r) { return r.chance(0.3) ? r.text(1 + r.below(5)) : rstr(r); }
inline void gen(R& r, Wide& v) {
    gen(r, v.in); for (auto n = r.below(4); n--;) { Inner i; gen(r, i); v.vi.push_back(i); } for (auto n = r.below(4); n--;) v.m[rkey(r)] = rint<int>(r);
    for (auto n = r.below(3); n--;) { auto& x = v.um[rkey(r)]; for (auto k = r.below(3); k--;) x.push_back(rstr(r)); }
    if (r.chance(0.5)) { v.oi.emplace(); gen(r, *v.oi); } if (r.chance(0.5)) { v.up = std::make_unique<Inner>(); gen(r, *v.up); } if (r.chance(0.5)) v.sp = std::make_shared<std::string>(rstr(r));
    for (auto& x : v.ar) x = rint<int>(r); v.tp = {rint<int>(r), rstr(r), rflt<double>(r)}; for (auto n = r.below(3); n--;) v.ls.push_back(rstr(r)); v.col = rcol(r);
    for (auto n = r.below(3); n--;) { v.dq.emplace_back(); for (auto k = r.below(3); k--;) v.dq.back().push_back(rflt<double>(r)); }
    for (auto n = r.below(4); n--;) { v.vo.emplace_back(); if (r.chance(0.6)) v.vo.back() = rstr(r); }
    for (auto n = r.below(3); n--;) { auto& x = v.mm[rkey(r)]; for (auto k = r.below(3); k--;) gen(r, x[rkey(r)]); } gen(r, v.n); }
inline void gen(R& r, Tree& v, int depth = 0) { v.v = rint<int>(r); v.name = rstr(r); if (depth < 4) for (auto n = r.below(3); n--;) { v.kids.emplace_back(); gen(r, v.kids.back(), depth + 1); } if (depth < 5 && r.chance(0.4)) { v.next = std::make_shared<Tree>(); gen(r, *v.next, depth + 1); } if (r.chance(0.5)) v.p = r.pick({pA, pB, pC}); }
inline void gen(R& r, Priv& v) { auto t = v.tm(); std::get<0>(t) = rint<int>(r); std::get<1>(t) = rstr(r); for (auto n = r.below(4); n--;) std::get<2>(t).push_back(rcol(r)); }
inline void gen(R& r, Small& v) { v.t.resize(r.below(4)); for (auto n = r.below(4); n--;) v.m[rkey(r)]; std::get<0>(v.one) = rint<int>(r); v.z[0] = rstr(r); if (r.chance(0.5)) v.o.emplace(); }
inline void gen(R& r, One& v) { v.only = rstr(r); }
inline void gen(R& r, Big& v) { v.m0 = rint<int>(r); v.m1 = rint<int>(r); v.m7 = rint<int>(r); v.m9 = rint<int>(r); v.m10 = rint<int>(r); v.m15 = rint<int>(r); v.m18 = rint<int>(r); v.m19 = rint<int>(r); }
inline void gen(R& r, std::vector<Inner>& v) { for (auto n = r.below(4); n--;) { v.emplace_back(); gen(r, v.back()); } }
inline void gen(R& r, std::map<std::string, std::vector<std::string>>& v) { for (auto n = r.below(4); n--;) { auto& x = v[rkey(r)]; for (auto k = r.below(3); k--;) x.push_back(rstr(r)); } }
inline void gen(R& r, std::string& v) { v = rstr(r); }
using TwoTup = std::vector<std::tuple<std::string, int, std::optional<double>>>;
inline void gen(R& r, TwoTup& v) { for (auto n = r.below(4); n--;) { v.emplace_back(rstr(r), rint<int>(r), std::nullopt); if (r.chance(0.5)) std::get<2>(v.back()) = rflt<double>(r); } }
} // namespace jt
