// C26: names, numbers and strings vs independent references. All texts live in exact-size heap blocks (ASan sees any over-read).
#include "vf.hpp"
#include <HXLibs/reflection/EnumName.hpp>
#include <HXLibs/reflection/TypeName.hpp>
#include <HXLibs/reflection/FunctionName.hpp>
#include <HXLibs/reflection/MemberName.hpp>
#include <HXLibs/reflection/deserialization/Numer.hpp>
#include <HXLibs/utils/StringUtils.hpp>
#include <HXLibs/net/router/RequestParsing.hpp>
#include <HXLibs/net/protocol/http/Http.hpp>
#include <HXLibs/utils/TimeNTTP.hpp>
#include <memory>
#include <map>
#include <set>
#include <cmath>
#include <cerrno>
using namespace HX;
struct Exact { std::unique_ptr<char[]> p; std::size_t n; explicit Exact(std::string_view s) : p(new char[s.size()]), n(s.size()) { if (n) std::memcpy(p.get(), s.data(), n); } std::string_view sv() const { return {p.get(), n}; } };

// ---------------------------------------------------------------- enums
enum class EDense : std::uint8_t { a, b, c, dd, e_1, f2, G, Hh };
enum class ESparse : std::uint8_t { Zero = 0, One = 1, Mid = 100, High = 200, Top = 255 };
enum class ESigned : int { Neg = -128, Minus = -1, Zero = 0, Plus = 1, Max = 127 };
enum class EPrefix { A, AA, AAA, AB, ABA, B, BA, _A, A_, aA, Aa };
enum EPlain : int { plainOne = 1, plainTwo, plainTen = 10 };
enum class EOne : char { only = 65 };
enum class EBig : std::int16_t { in = 5, out = 3000, neg = -3000 };
enum class EU64 : std::uint64_t { lo = 0, hi = 255 };
namespace deep::er { enum class ENs { x, y_y, Z9 }; enum class ENs2 : unsigned { k30 = 30, k31, k32, k33, k34, k35, k36, k37, k38, k39, k40, k41, k42, k43, k44, k45, k46, k47, k48, k49 }; struct S { enum class In { p = 3, q = 7 }; }; }

template <class E> static void enumCase(vf::Rng& rng, std::vector<std::pair<E, std::string>> const& all, int lo, int hi, const char* nm) {
    vf::setCase(std::string("enum ") + nm); std::map<std::string, E> byName; std::map<long, std::string> byVal;
    for (auto& [e, n] : all) { byName[n] = e; byVal[(long)e] = n; }
    for (int v = lo; v <= hi; ++v) { vf::eval(); auto it = byVal.find(v); auto got = reflection::toEnumName(static_cast<E>(v));
        vf::check(got == (it == byVal.end() ? "" : it->second), "enum-to-name", std::string(nm) + " value " + std::to_string(v) + " -> '" + std::string(got) + "'"); }
    auto ask = [&](std::string const& s) { vf::eval(); vf::sig(std::string("en") + nm + s); Exact x(s); auto it = byName.find(s);
        try { E e = reflection::toEnum<E>(x.sv()); vf::check(it != byName.end() && it->second == e, "name-to-enum", std::string(nm) + " accepted '" + vf::esc(s) + "' as " + std::to_string((long)e)); }
        catch (std::runtime_error&) { vf::check(it == byName.end(), "name-to-enum", std::string(nm) + " rejected '" + s + "'"); }
        // through the cursor parser
        E e{}; auto sv = x.sv(); auto b = sv.begin(), en = sv.end();
        std::size_t stop = 0; while (stop < s.size() && ((unsigned char)s[stop] >= 128 || s[stop] == 0 || std::isalnum((unsigned char)s[stop]) || s[stop] == '_')) ++stop;
        auto it2 = byName.find(s.substr(0, stop));
        try { reflection::Numer::fromNumer(e, b, en); vf::check(it2 != byName.end() && it2->second == e && (std::size_t)(b - sv.begin()) == stop, "text-to-enum", std::string(nm) + " '" + vf::esc(s) + "'"); }
        catch (std::runtime_error&) { vf::check(it2 == byName.end(), "text-to-enum", std::string(nm) + " rejected '" + vf::esc(s) + "'"); } };
    for (auto& [n, e] : byName) { ask(n); ask(n + "x"); ask(n.substr(0, n.size() - 1)); ask(" " + n); ask(n + " "); ask(n + ","); ask("x" + n); auto t = n; t[rng.below(t.size())] ^= 0x20; ask(t); ask(std::string(nm) + "::" + n); }
    ask(""); for (int i = 0; i < 30; ++i) { std::string s; auto n = rng.below(6); for (std::size_t k = 0; k < n; ++k) s += rng.chance(0.8) ? "AaBb_0129Z"[rng.below(10)] : (char)rng.below(256); ask(s); }
}
#define P(E, n) {E::n, #n}
VF_SECTION("enum", 40, 600) {
    enumCase<EDense>(rng, {P(EDense, a), P(EDense, b), P(EDense, c), P(EDense, dd), P(EDense, e_1), P(EDense, f2), P(EDense, G), P(EDense, Hh)}, 0, 255, "EDense");
    enumCase<ESparse>(rng, {P(ESparse, Zero), P(ESparse, One), P(ESparse, Mid), P(ESparse, High), P(ESparse, Top)}, 0, 255, "ESparse");
    enumCase<ESigned>(rng, {P(ESigned, Neg), P(ESigned, Minus), P(ESigned, Zero), P(ESigned, Plus), P(ESigned, Max)}, -400, 400, "ESigned");
    enumCase<EPrefix>(rng, {P(EPrefix, A), P(EPrefix, AA), P(EPrefix, AAA), P(EPrefix, AB), P(EPrefix, ABA), P(EPrefix, B), P(EPrefix, BA), P(EPrefix, _A), P(EPrefix, A_), P(EPrefix, aA), P(EPrefix, Aa)}, -300, 300, "EPrefix");
    enumCase<EPlain>(rng, {{plainOne, "plainOne"}, {plainTwo, "plainTwo"}, {plainTen, "plainTen"}}, 0, 15, "EPlain");
    enumCase<EOne>(rng, {P(EOne, only)}, -128, 127, "EOne");
    enumCase<EBig>(rng, {P(EBig, in)}, -400, 400, "EBig");
    enumCase<EU64>(rng, {P(EU64, lo), P(EU64, hi)}, 0, 1000, "EU64");
    using namespace deep::er;
    enumCase<ENs>(rng, {P(ENs, x), P(ENs, y_y), P(ENs, Z9)}, -20, 20, "ENs");
    enumCase<S::In>(rng, {P(S::In, p), P(S::In, q)}, -20, 20, "In");
    std::vector<std::pair<ENs2, std::string>> v; for (unsigned i = 30; i < 50; ++i) v.push_back({(ENs2)i, "k" + std::to_string(i)});
    enumCase<ENs2>(rng, v, 0, 300, "ENs2");
}
// ---------------------------------------------------------------- type, function and member names
struct Plain1 { int alpha; std::string beta_2; std::vector<int> Gamma; };
namespace ns1::ns2 { struct InNs { double x; InNs* next; bool ok; }; template <class T, class U = int> struct Tpl { T first; U second; }; union Un { int i; float f; }; class Cls {}; enum class Color { red }; int someFunction(int); void other_fn2(); }
struct One { long single; };
struct Many { int m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17, m18, m19, m20; };
struct Nested { Plain1 p; ns1::ns2::InNs n; ns1::ns2::Tpl<int> t; std::optional<int> o; };
static void localFunc(int) {}
VF_SECTION("names", 1, 1) {
    auto eq = [](std::string_view got, std::string_view want, const char* k) { vf::eval(); vf::sig(want); vf::check(got == want, k, std::string(got) + " != " + std::string(want)); };
    using namespace reflection; using namespace ns1::ns2;
    eq(getTypeName<Plain1>(), "Plain1", "type-name"); eq(getTypeName<InNs>(), "InNs", "type-name"); eq(getTypeName<Tpl<int>>(), "Tpl", "type-name"); eq(getTypeName<Tpl<std::vector<InNs>, Plain1>>(), "Tpl", "type-name");
    eq(getTypeName<Un>(), "Un", "type-name"); eq(getTypeName<Cls>(), "Cls", "type-name"); eq(getTypeName<Color>(), "Color", "type-name"); eq(getTypeName<deep::er::S::In>(), "In", "type-name");
    eq(getTypeNameAndNamespace<Plain1>(), "Plain1", "type-name-ns"); eq(getTypeNameAndNamespace<InNs>(), "ns1::ns2::InNs", "type-name-ns"); eq(getTypeNameAndNamespace<Un>(), "ns1::ns2::Un", "type-name-ns"); eq(getTypeNameAndNamespace<Color>(), "ns1::ns2::Color", "type-name-ns");
    eq(getFuncName<&someFunction>(), "someFunction", "func-name"); eq(getFuncName<&other_fn2>(), "other_fn2", "func-name"); eq(getFuncName<&localFunc>(), "localFunc", "func-name");
    eq(getFuncNameAndNamespace<&someFunction>(), "ns1::ns2::someFunction", "func-name-ns");
    auto mem = [&]<class T>(T*, std::vector<std::string> want) {
        auto arr = getMembersNames<T>(); vf::check(arr.size() == want.size(), "member-count", std::to_string(arr.size())); 
        for (std::size_t i = 0; i < want.size() && i < arr.size(); ++i) eq(arr[i], want[i], "member-name");
        auto mp = getMembersNamesMap<T>(); vf::check(mp.size() == want.size(), "member-map", "size");
        for (std::size_t i = 0; i < want.size(); ++i) { auto it = mp.find(std::string_view{want[i]}); vf::check(it != mp.end() && it->second == i, "member-map", want[i]); vf::check(mp.find(std::string_view{want[i] + "x"}) == mp.end(), "member-map", "extra"); }
        T obj{}; std::size_t k = 0; std::vector<void const*> addr;
        forEach(obj, [&]<std::size_t I>(std::index_sequence<I>, std::string_view n, auto& v) { vf::eval(); vf::check(I == k && n == want[k], "for-each", std::string(n)); addr.push_back(&v); ++k; });
        vf::check(k == want.size(), "for-each", "visited " + std::to_string(k)); for (std::size_t i = 1; i < addr.size(); ++i) vf::check(addr[i - 1] < addr[i], "for-each", "addresses not in member order");
        for (auto a : addr) vf::check((char const*)a >= (char const*)&obj && (char const*)a < (char const*)(&obj + 1), "for-each", "not a member of the object");
    };
    mem((Plain1*)nullptr, {"alpha", "beta_2", "Gamma"}); mem((InNs*)nullptr, {"x", "next", "ok"}); mem((Tpl<int, std::string>*)nullptr, {"first", "second"}); mem((One*)nullptr, {"single"}); mem((Nested*)nullptr, {"p", "n", "t", "o"});
    std::vector<std::string> many; for (int i = 1; i <= 20; ++i) many.push_back("m" + std::to_string(i)); mem((Many*)nullptr, many);
}
// ---------------------------------------------------------------- numbers
template <class T> static std::string nm() { if constexpr (std::is_floating_point_v<T>) return "float" + std::to_string(sizeof(T) * 8); else return (std::is_signed_v<T> ? "int" : "uint") + std::to_string(sizeof(T) * 8); }
template <class T> static bool refInt(std::string const& s, T& out) {   // decimal, optional '-', nothing else
    std::size_t i = 0; bool neg = false; if (s.size() && s[0] == '-') { neg = true; i = 1; if (!std::is_signed_v<T>) return false; } if (i == s.size()) return false;
    unsigned __int128 v = 0; for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (unsigned)(s[i] - '0'); if (v >> 70) return false; }
    __int128 w = neg ? -(__int128)v : (__int128)v; if (w < (__int128)std::numeric_limits<T>::min() || w > (__int128)std::numeric_limits<T>::max()) return false; out = (T)w; return true;
}
static bool numChar(unsigned char c) { return (c >= '0' && c <= '9') || c == '+' || c == '-' || c == 'e' || c == 'E' || c == '.' || c == 0 || c >= 128; }
template <class T> static int refFloat(std::string const& s, T& out) {   // 1 ok, 0 error, -1 either
    if (s.empty()) return 0; for (std::size_t i = 0; i < s.size(); ++i) { unsigned char c = (unsigned char)s[i]; if (c == 0 || c >= 128 || !numChar(c)) return 0; } if (s[0] == '+') return -1;
    char* e = nullptr; errno = 0; if constexpr (sizeof(T) == 4) out = std::strtof(s.c_str(), &e); else if constexpr (sizeof(T) == 8) out = std::strtod(s.c_str(), &e); else out = std::strtold(s.c_str(), &e);
    if (*e) return 0; if (errno == ERANGE) return std::isinf(out) ? 0 : -1; return 1;
}
template <class T> static std::string showT(T v) { if constexpr (std::is_floating_point_v<T>) { char b[80]; std::snprintf(b, 80, "%.40Lg", (long double)v); return b; } else return std::to_string(+v); }
template <class T> static bool same(T a, T b) { if constexpr (std::is_floating_point_v<T>) return (a == b && std::signbit(a) == std::signbit(b)); else return a == b; }
template <class T> static void numCase(std::string const& s) {
    vf::setCase("number " + nm<T>() + " '" + vf::esc(s) + "'"); vf::eval(); vf::sig(nm<T>() + s); Exact x(s);
    auto judge = [&](int verdict, T want, bool ok, T got, const char* k) {
        if (verdict == 1 && !ok) vf::fail(k, nm<T>() + " rejected '" + vf::esc(s) + "'");
        else if (verdict == 0 && ok) vf::fail(k, nm<T>() + " accepted '" + vf::esc(s) + "' as " + showT(got));
        else if (ok && verdict == 1 && !same(got, want)) vf::fail(k, nm<T>() + " '" + vf::esc(s) + "' gave " + showT(got) + " want " + showT(want)); };
    auto ref = [&](std::string const& q, T& w) -> int { if constexpr (std::is_floating_point_v<T>) return refFloat<T>(q, w); else { if (q.size() && q[0] == '+') return 0; if (!std::is_signed_v<T> && q.size() && q[0] == '-') return 0; return refInt<T>(q, w); } };
    { T w{}, g{}; int v = ref(s, w); bool ok = true; try { reflection::Numer::fromNumer(g, x.sv()); } catch (std::runtime_error&) { ok = false; } judge(v, w, ok, g, "text-to-number"); }
    { T w{}, g{}; std::size_t stop = 0; while (stop < s.size() && numChar((unsigned char)s[stop])) ++stop; int v = ref(s.substr(0, stop), w); auto sv = x.sv(); auto b = sv.begin(), e = sv.end(); bool ok = true;
      try { reflection::Numer::fromNumer(g, b, e); } catch (std::runtime_error&) { ok = false; } judge(v, w, ok, g, "cursor-number"); if (ok) vf::check((std::size_t)(b - sv.begin()) == stop, "cursor-number", "cursor at " + std::to_string(b - sv.begin()) + " of '" + vf::esc(s) + "'"); }
    if constexpr (sizeof(T) > 1) { T w{}; int v = ref(s, w); std::string l = s; for (auto& c : l) c = (char)std::tolower((unsigned char)c); if (std::is_floating_point_v<T> && (l.find("inf") != l.npos || l.find("nan") != l.npos)) return;
      auto r = net::TypeInterpretation<T>::wildcardElementTypeConversion(x.sv()); judge(v, w, r.has_value(), r.value_or(T{}), "segment-number"); }
}
template <class T> static void intText(vf::Rng& rng, std::vector<std::string>& out) {
    __int128 base; switch (rng.below(5)) { case 0: base = std::numeric_limits<T>::max(); break; case 1: base = std::numeric_limits<T>::min(); break; case 2: base = 0; break; case 3: base = (T)rng.next(); break; default: base = ((__int128)rng.next() << 2) - rng.next(); }
    base += (__int128)rng.range(-2, 2); bool neg = base < 0; unsigned __int128 u = neg ? (unsigned __int128)-base : (unsigned __int128)base; std::string d; do { d.insert(d.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while (u);
    if (rng.chance(0.1)) d = std::string(1 + rng.below(25), '0') + d; out.push_back((neg ? "-" : "") + d);
}
static std::string mutate(vf::Rng& rng, std::string s) { static const std::string junk = "+-.eE0 9x,}\"\t\n"; int n = 1 + (int)rng.below(2); while (n--) { std::size_t p = s.empty() ? 0 : rng.below(s.size() + 1); switch (rng.below(3)) { case 0: s.insert(p, 1, rng.chance(0.85) ? junk[rng.below(junk.size())] : (char)rng.below(256)); break; case 1: if (p < s.size()) s.erase(p, 1); break; default: if (p < s.size()) s[p] = rng.chance(0.85) ? junk[rng.below(junk.size())] : (char)rng.below(256); } } return s; }
VF_SECTION("numbers", 40000, 900000) {
    std::vector<std::string> t; auto go = [&]<class T>(T) { t.clear(); intText<T>(rng, t); auto s = t[0]; if (rng.chance(0.4)) s = mutate(rng, s); numCase<T>(s); };
    switch (index % 11) { case 0: go(std::int8_t{}); break; case 1: go(std::uint8_t{}); break; case 2: go(std::int16_t{}); break; case 3: go(std::uint16_t{}); break; case 4: go(std::int32_t{}); break; case 5: go(std::uint32_t{}); break; case 6: go(std::int64_t{}); break; case 7: go(std::uint64_t{}); break;
    default: { char b[200]; std::uint64_t bits = rng.next(); double d; std::memcpy(&d, &bits, 8); if (!std::isfinite(d) || rng.chance(0.3)) d = (double)rng.range(-1000000, 1000000) / std::pow(10.0, (double)rng.below(9)); float f = (float)d;
        if (rng.chance(0.15)) { static const char* ed[] = {"", "-", "0", "-0", "1.", ".5", ".", "1e", "1e+", "1e5", "1E-5", "1e400", "-1e400", "1e-400", "0.1", "00.5", "1..2", "1e5.5", "--1", "1-", "-.5e1", "3.4028236e38", "3.4028235e38", "1.7976931348623157e308", "1.7976931348623159e308", "4.9e-324", "2.2250738585072011e-308", "9007199254740993", "0x10", " 1", "1 ", "inf", "nan"}; std::snprintf(b, 200, "%s", ed[rng.below(sizeof ed / sizeof *ed)]); }
        else if (index % 11 == 8) std::snprintf(b, 200, rng.chance(0.5) ? "%.9g" : "%.*e", 5, (double)f); else std::snprintf(b, 200, rng.chance(0.5) ? "%.17g" : "%.25g", d);
        std::string s = b; if (rng.chance(0.3)) s = mutate(rng, s);
        if (index % 11 == 8) numCase<float>(s); else if (index % 11 == 9) numCase<double>(s); else numCase<long double>(s); } }
    if (index < 2) vf::sample("numbers e.g. " + (t.empty() ? std::string("?") : t[0]));
}
VF_SECTION("bool", 600, 8000) {
    static const char* base[] = {"true", "false", "TRUE", "FALSE", "True", "fAlSe", "0", "1", "2", "", "t", "f", "T", "F", "y", "n", "-1", "00", "tru", "truex", "fals", "falsex", "10", "01", "yes", "trve", "\xd4\xd2\xd5\xc5", "T\x12UE"};
    std::string s = base[rng.below(sizeof base / sizeof *base)]; if (rng.chance(0.4)) s = mutate(rng, s); vf::setCase("bool '" + vf::esc(s) + "'"); vf::eval(); vf::sig("bool" + s);
    std::string l = s; for (auto& c : l) c = (char)((unsigned char)c < 128 ? std::tolower(c) : c); int want = l == "true" || l == "1" ? 1 : l == "false" || l == "0" ? 0 : -1; Exact x(s);
    int got; try { bool b; reflection::Numer::fromNumer(b, x.sv()); got = b; } catch (std::runtime_error&) { got = -1; } vf::check(got == want, "text-to-bool", "'" + vf::esc(s) + "' -> " + std::to_string(got));
    auto r = net::TypeInterpretation<bool>::wildcardElementTypeConversion(x.sv()); vf::check((r ? (int)*r : -1) == want, "segment-bool", "'" + vf::esc(s) + "'");
}
// ---------------------------------------------------------------- strings
static std::vector<std::pair<std::size_t, std::string>> refSplit(std::string const& s, std::string const& d, bool skip) {
    std::vector<std::pair<std::size_t, std::string>> r; if (s.empty()) return r; std::size_t i = 0, st = 0;
    while (i < s.size()) { if (i + d.size() <= s.size() && s.compare(i, d.size(), d) == 0) { if (!skip || i > st) r.push_back({st, s.substr(st, i - st)}); i += d.size(); st = i; } else ++i; }
    if (!skip || s.size() > st) r.push_back({st, s.substr(st)}); return r;
}
VF_SECTION("strings", 20000, 400000) {
    std::string al = rng.chance(0.5) ? "ab" : rng.chance(0.5) ? "a,;" : "\0\xff a/AZ[_@"; std::string s, d; auto n = rng.below(30); for (std::size_t i = 0; i < n; ++i) s += rng.chance(0.95) ? al[rng.below(al.size())] : (char)rng.below(256); auto m = 1 + rng.below(3); for (std::size_t i = 0; i < m; ++i) d += al[rng.below(al.size())];
    vf::setCase("strings '" + vf::esc(s) + "' delim '" + vf::esc(d) + "'"); vf::eval(); vf::sig("s" + s + "|" + d); Exact xs(s), xd(d); using SU = utils::StringUtil;
    auto cmp = [&](auto const& got, std::vector<std::pair<std::size_t, std::string>> const& want, bool pos, const char* k) { bool ok = got.size() == want.size(); for (std::size_t i = 0; ok && i < want.size(); ++i) { if constexpr (requires { got[i].first; }) ok = got[i].second == want[i].second && (!pos || got[i].first == want[i].first); else ok = got[i] == want[i].second; } vf::check(ok, k, std::to_string(got.size()) + " parts, want " + std::to_string(want.size())); };
    cmp(SU::split<std::string>(xs.sv(), xd.sv()), refSplit(s, d, true), false, "split"); cmp(SU::split<std::string_view, false>(xs.sv(), xd.sv()), refSplit(s, d, false), false, "split-keep-empty");
    cmp(SU::splitWithPos<std::string_view>(xs.sv(), xd.sv()), refSplit(s, d, true), true, "split-pos"); cmp(SU::splitWithPos<std::string, false>(xs.sv(), xd.sv()), refSplit(s, d, false), true, "split-pos-keep-empty");
    { std::vector<std::string> pre{"P"}; auto g = SU::split<std::string>(xs.sv(), xd.sv(), pre); auto w = refSplit(s, d, true); w.insert(w.begin(), {0, "P"}); cmp(g, w, false, "split-append"); }
    if (rng.chance(0.05)) { vf::Watch w("split-empty|an empty delimiter never ends", 10); cmp(SU::split<std::string>(xs.sv(), ""), s.empty() ? refSplit(s, "x", true) : std::vector<std::pair<std::size_t, std::string>>{{0, s}}, false, "split-empty"); }
    auto p = s.find(d); auto [f, r] = SU::splitAtFirst(xs.sv(), xd.sv()); vf::check(p == s.npos ? f.empty() && r.empty() : f == s.substr(0, p) && r == s.substr(p + d.size()), "split-first", f + "|" + r);
    auto q = s.rfind(d); vf::check(SU::rfindAndTrim(xs.sv(), xd.sv()) == (q == s.npos ? s : s.substr(q + d.size())), "rfind-trim", SU::rfindAndTrim(xs.sv(), xd.sv()));
    std::string lo = s, up = s, wl = s, wu = s; for (auto& c : wl) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); for (auto& c : wu) if (c >= 'a' && c <= 'z') c = (char)(c - 32);
    SU::toLower(lo); SU::toUpper(up); vf::check(lo == wl, "to-lower", vf::esc(lo)); vf::check(up == wu, "to-upper", vf::esc(up));
    std::vector<char> buf(d.begin(), d.end()); SU::append(buf, std::span<char const>{xs.p.get(), xs.n}); vf::check(std::string(buf.begin(), buf.end()) == d + s, "append", "");
    // case-insensitive lookup
    net::internal::TransparentCaseInsensitiveEqual eq; net::internal::TransparentCaseInsensitiveHash hs; std::string t = s; for (auto& c : t) if (std::isalpha((unsigned char)c) && (unsigned char)c < 128 && rng.chance(0.5)) c ^= 0x20; if (!t.empty() && rng.chance(0.4)) t[rng.below(t.size())] ^= (char)(rng.chance(0.5) ? 0x20 : 1 + rng.below(255));
    std::string tl = t; for (auto& c : tl) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); Exact xt(t); bool e = eq(xs.sv(), xt.sv()); vf::check(e == (tl == wl), "case-equal", vf::esc(t)); if (e) vf::check(hs(xs.sv()) == hs(xt.sv()), "case-hash", vf::esc(t));
    if (index % 20 == 0) { auto k = rng.below(200); auto g = SU::random<SU::kPureNumbers>(k); vf::check(g.size() == k && g.find_first_not_of("0123456789") == g.npos, "random", vf::esc(g)); auto h = SU::random<"xyz">(k); vf::check(h.size() == k && h.find_first_not_of("xyz") == h.npos, "random", vf::esc(h)); }
    if (index % 500 == 0) { std::time_t a = std::time(nullptr); auto g = utils::DateTimeFormat::makeHttpDate(); std::time_t b = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now()); bool ok = false; for (auto x = a; x <= b; ++x) { std::tm tm; gmtime_r(&x, &tm); char z[64]; std::strftime(z, 64, "%a, %d %b %Y %H:%M:%S GMT", &tm); ok |= g == z; } vf::check(ok, "http-date", g);
        a = std::time(nullptr); auto g2 = utils::DateTimeFormat::format(); b = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now()); ok = false; for (auto x = a; x <= b; ++x) { std::tm tm; gmtime_r(&x, &tm); char z[64]; std::strftime(z, 64, "%Y-%m-%d %H:%M:%S", &tm); ok |= g2 == z; } vf::check(ok, "date-format", g2); }
    if (index < 2) vf::sample("strings '" + s + "' by '" + d + "'");
}
