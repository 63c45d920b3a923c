// C06: random operation sequences on the value containers against plain reference models, with live-object accounting.
#include "tracked.hpp"
#include <variant>
#include <optional>
#include <HXLibs/container/UninitializedNonVoidVariant.hpp>
#include <HXLibs/container/Uninitialized.hpp>
#include <HXLibs/container/Try.hpp>
#include <HXLibs/container/MoveOnlyFunction.hpp>
#include <HXLibs/container/MoveApply.hpp>
#include <HXLibs/container/CoSharedPtr.hpp>
using namespace HX; using vf::Tracked; using container::UninitializedNonVoidVariant;
namespace {
std::string S(long v) { return std::to_string(v); }
struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };
thread_local int fuse = -1;   // >=0: the fuse-th construction of a Thrower throws
inline void burn() { if (fuse >= 0 && fuse-- == 0) throw Boom("construction"); }
struct Thrower { Tracked t; explicit Thrower(long v) : t((burn(), v)) {} Thrower(Thrower const& o) : t((burn(), o.t)) {} Thrower(Thrower&& o) noexcept : t(std::move(o.t)) {}
    Thrower& operator=(Thrower const& o) { burn(); t = o.t; return *this; } Thrower& operator=(Thrower&& o) noexcept { t = std::move(o.t); return *this; } bool operator==(Thrower const& o) const { return t == o.t; } };
struct Uniq { Tracked t; explicit Uniq(long v) : t(v) {} Uniq(Uniq&&) noexcept = default; Uniq& operator=(Uniq&&) noexcept = default; bool operator==(Uniq const& o) const { return t == o.t; } };
using Big = std::array<Tracked, 5>;
constexpr long ANY = -77;   // moved-from: value unspecified
struct M { int idx = -1; long val = 0; bool operator==(M const& o) const { return idx == o.idx && val == o.val; } };
using VA = UninitializedNonVoidVariant<int, std::string, Tracked, Thrower, void, std::vector<Tracked>, Tracked>;   // Tracked twice: index access
using VM = UninitializedNonVoidVariant<Uniq, std::unique_ptr<Tracked>, long, std::string>;
std::string str(long v) { return std::string((std::size_t)(v % 60), 'q') + S(v); }
template <std::size_t I, class V> void put(V& v, long x) {
    if constexpr (std::is_same_v<V, VA>) { if constexpr (I == 0) { auto& r = v.template emplace<0>((int)x); vf::check(r == x, "emplace-ref", "emplace returned a wrong reference"); } else if constexpr (I == 1) v.template emplace<std::string>(str(x)); else if constexpr (I == 2) v.template emplace<Tracked>(x); else if constexpr (I == 3) v.template emplace<Thrower>(x);
        else if constexpr (I == 4) v.template emplace<void>(); else if constexpr (I == 5) v.template emplace<5>((std::size_t)(x % 5 + 1), Tracked(x)); else v.template emplace<6>(x); }
    else { if constexpr (I == 0) v.template emplace<Uniq>(x); else if constexpr (I == 1) v.template emplace<1>(std::make_unique<Tracked>(x)); else if constexpr (I == 2) v.template emplace<long>(x); else v.template emplace<3>(str(x)); }
}
template <class T> long rd(T const& x) {
    if constexpr (std::is_same_v<T, int> || std::is_same_v<T, long>) return (long)x; else if constexpr (std::is_same_v<T, std::string>) { for (long g = (long)x.size() > 8 ? 8 : (long)x.size(); g >= 1; --g) { std::string t = x.substr(x.size() - (std::size_t)g); if (t.find('q') != t.npos) continue; if (str(std::stol(t)) == x) return std::stol(t); } return -2; }
    else if constexpr (std::is_same_v<T, Tracked>) return x.val(); else if constexpr (std::is_same_v<T, Thrower> || std::is_same_v<T, Uniq>) return x.t.val(); else if constexpr (std::is_same_v<T, std::vector<Tracked>>) { if (x.empty()) return -3; long v = x[0].val(); if ((long)x.size() != v % 5 + 1) return -4; for (auto& e : x) if (e.val() != v) return -5; return v; }
    else if constexpr (std::is_same_v<T, std::unique_ptr<Tracked>>) return x ? x->val() : -6; else return 0; /* void */
}
template <class V> M obs(V& v, int how) {
    M m; if (v.index() == container::UninitializedNonVoidVariantNpos) return m; m.idx = (int)v.index();
    switch (how % 4) {
    case 0: m.val = container::visit([](auto&& x) -> long { return rd(x); }, v); break;
    default: m.val = container::visit([](auto const& x) -> long { return rd(x); }, std::as_const(v)); break;
    case 1: { long r = -9; container::visit([&](auto&& x) { r = rd(x); }, v); m.val = r; break; }
    case 2: [&]<std::size_t... I>(std::index_sequence<I...>) { ((v.index() == I ? (void)(m.val = rd(v.template get<I>())) : (void)0), ...); }(std::make_index_sequence<V::N>{}); break;
    }
    return m;
}
// every wrong alternative must be refused
template <class V> void wrongGets(V& v) {
    [&]<std::size_t... I>(std::index_sequence<I...>) { (([&] { bool threw = false; try { (void)v.template get<I>(); } catch (std::runtime_error&) { threw = true; } if (threw == (v.index() == I)) vf::fail("get", "get<" + S(I) + "> on index " + S((long)v.index()) + (threw ? " threw" : " returned an object")); 
        threw = false; try { (void)std::as_const(v).template get<I>(); } catch (std::runtime_error&) { threw = true; } if (threw == (v.index() == I)) vf::fail("get", "const get<" + S(I) + "> wrong"); }()), ...); }(std::make_index_sequence<V::N>{});
    if (v.index() == container::UninitializedNonVoidVariantNpos) { bool t = false; try { container::visit([](auto&&) {}, v); } catch (std::runtime_error&) { t = true; } vf::check(t, "visit", "visiting an empty variant did nothing"); }
}
template <class V> void same(V& v, M& m, int how, char const* after) {
    if (m.val == ANY) { long idx = v.index() == container::UninitializedNonVoidVariantNpos ? -1 : (long)v.index(); if (idx != m.idx) vf::fail("index", std::string("after ") + after + ": index " + S(idx) + " instead of " + S(m.idx)); return; }
    M o = obs(v, how == 0 ? 1 : how); if (!(o == m)) vf::fail("value", std::string("after ") + after + ": (" + S(o.idx) + "," + S(o.val) + ") instead of (" + S(m.idx) + "," + S(m.val) + ")"); }
long norm(int variant, int idx, long x) { (void)variant; (void)idx; return x; }
template <class V> bool emplaceI(V& v, std::size_t i, long x) { bool ok = true; try { [&]<std::size_t... I>(std::index_sequence<I...>) { ((i == I ? put<I>(v, x) : (void)0), ...); }(std::make_index_sequence<V::N>{}); } catch (Boom&) { ok = false; } return ok; }
template <class V> void program(vf::Rng& rng) {
    constexpr bool copy = std::is_same_v<V, VA>; int n = 4; std::uint64_t h = 0; long ops = 0;
    { std::vector<V> v((std::size_t)n); std::vector<M> m((std::size_t)n);
      // vector<V>(n) default-constructs; every slot stays in place
      int len = (int)rng.range(4, 60);
      for (int k = 0; k < len; ++k) {
        std::size_t a = rng.below((std::uint64_t)n), b = rng.below((std::uint64_t)n); int op = (int)rng.below(13); char const* nm = ""; if (rng.chance(0.15)) fuse = (int)rng.below(2); ++ops;
        auto voidFix = [](M& x) { if (copy && x.idx == 4) x.val = 0; };
        auto moved = [&](M& x) { if (x.idx < 0) return; if (copy ? (x.idx == 0 || x.idx == 4) : x.idx == 2) return; x.val = ANY; };
        switch (op) {
        case 0: case 1: case 2: { nm = "emplace"; std::size_t i = rng.below(V::N); long x = (long)rng.below(100000); if (emplaceI(v[a], i, x)) { m[a] = {(int)i, x}; voidFix(m[a]); } else { nm = "throwing emplace"; m[a] = {}; } break; }
        case 3: nm = "reset"; v[a].reset(); m[a] = {}; break;
        case 4: nm = "move assign"; if (a == b) { v[a] = std::move(v[a]); break; } v[a] = std::move(v[b]); m[a] = m[b]; moved(m[b]); break;
        case 5: nm = "swap"; v[a].swap(v[b]); std::swap(m[a], m[b]); break;
        case 6: { nm = "move construct"; V t{std::move(v[a])}; M mt = m[a]; moved(m[a]); same(t, mt, (int)rng.below(4), nm); break; }
        case 7: if constexpr (copy) { nm = "copy assign"; try { v[a] = v[b]; m[a] = m[b]; } catch (Boom&) { nm = "throwing copy assign"; if (a != b) m[a] = {}; } } break;
        case 8: if constexpr (copy) { nm = "copy construct"; try { V t{v[a]}; same(t, m[a], (int)rng.below(4), nm); } catch (Boom&) { nm = "throwing copy construct"; } } break;
        case 9: if constexpr (copy) { nm = "converting assign"; long x = (long)rng.below(9999); try { v[a] = std::vector<Tracked>((std::size_t)(x % 5 + 1), Tracked(x)); m[a] = {5, x}; } catch (Boom&) { m[a] = {}; } } else { nm = "converting assign"; v[a] = std::make_unique<Tracked>(5); m[a] = {1, 5}; } break;
        case 10: if constexpr (copy) { nm = "compare"; if (m[a].val != ANY && m[b].val != ANY) { bool e = v[a] == v[b], ne = v[a] != v[b]; if (e != (m[a] == m[b]) || ne == e) vf::fail("compare", "== gave " + S(e) + ", != gave " + S(ne) + " for indices " + S(m[a].idx) + "," + S(m[b].idx)); } } break;
        case 11: { nm = "mutate via visit"; if (m[a].idx >= 0 && m[a].val != ANY) { long x = (long)rng.below(999); bool did = false; container::visit([&](auto&& r) { using T = std::decay_t<decltype(r)>; if constexpr (std::is_same_v<T, Tracked>) { r = Tracked(x); did = true; } else if constexpr (std::is_same_v<T, int> || std::is_same_v<T, long>) { r = (T)x; did = true; } else if constexpr (std::is_same_v<T, std::string>) { r = str(x); did = true; } }, v[a]); if (did) m[a].val = x; } break; }
        default: nm = "wrong get"; wrongGets(v[a]); break;
        }
        fuse = -1; same(v[a], m[a], (int)rng.below(4), nm); same(v[b], m[b], (int)rng.below(4), nm); h = vf::mix(h + (std::uint64_t)(op * 64 + m[a].idx * 8 + m[b].idx));
        if (vf::st().fails) break;
      }
    }
    vf::eval((std::uint64_t)ops); vf::sig(h);
}
} // namespace
VF_SECTION("variant", 26000, 400000) { program<VA>(rng); if (index % 16 == 0) vf::noneLive("variant"); }
VF_SECTION("variant-move-only", 12000, 200000) { program<VM>(rng); if (index % 16 == 0) vf::noneLive("variant-move-only"); }
VF_SECTION("variant-convert", 2000, 20000) {   // unique converting construction
    { UninitializedNonVoidVariant<std::string, std::vector<int>, Tracked> a{std::vector<int>{1, 2, 3}}; vf::check(a.index() == 1 && a.get<1>().size() == 3, "convert", "vector"); UninitializedNonVoidVariant<std::string, std::vector<int>, Tracked> b{std::string("hello")}; vf::check(b.index() == 0 && b.get<std::string>() == "hello", "convert", "string");
      Tracked t((long)index); UninitializedNonVoidVariant<std::string, std::vector<int>, Tracked> c{t}; vf::check(c.index() == 2 && c.get<2>().val() == index && t.val() == index, "convert", "Tracked copy"); a = t; vf::check(a.index() == 2 && a.get<Tracked>().val() == index, "convert", "assign"); b = std::move(a); vf::check(b.get<2>().val() == index, "convert", "move");
      std::string got = std::move(c).get<2>().val() == index ? "ok" : "bad"; Tracked out = std::move(b).get<2>(); vf::check(out.val() == index && got == "ok", "convert", "rvalue get"); 
      UninitializedNonVoidVariant<int, double, char> tr{}; tr.emplace<double>(2.5); vf::check(tr.get<double>() == 2.5 && tr.index() == 1, "convert", "trivial"); auto tr2 = tr; vf::check(tr2 == tr, "convert", "trivial copy"); tr.reset(); vf::check(tr2 != tr, "convert", "trivial reset"); }
    vf::noneLive("variant-convert"); vf::eval(9); vf::sig("cv" + S(index));
}
namespace {
template <class T> struct Acc; // payload adapters for Try / Uninitialized
template <> struct Acc<Tracked> { static Tracked mk(long v) { return Tracked(v); } static long get(Tracked const& t) { return t.val(); } };
template <> struct Acc<Uniq> { static Uniq mk(long v) { return Uniq(v); } static long get(Uniq const& t) { return t.t.val(); } };
template <> struct Acc<std::string> { static std::string mk(long v) { return str(v); } static long get(std::string const& t) { return rd(t); } };
template <> struct Acc<int> { static int mk(long v) { return (int)v; } static long get(int t) { return t; } };
template <> struct Acc<Big> { static Big mk(long v) { return Big{Tracked(v), Tracked(v), Tracked(v), Tracked(v), Tracked(v)}; } static long get(Big const& t) { return t[4].val(); } };
template <class T> void tryProgram(vf::Rng& rng) {
    using A = Acc<T>; using Tr = container::Try<T>; struct Mod { int k = 0; long v = 0; };   // 0 empty 1 value 2 exception
    std::vector<Tr> t; for (int i = 0; i < 3; ++i) t.emplace_back(); Mod m[3]; std::uint64_t h = 7; int len = (int)rng.range(3, 40);
    for (int k = 0; k < len; ++k) { std::size_t a = rng.below(3), b = rng.below(3); int op = (int)rng.below(9); long x = (long)rng.below(10000);
        switch (op) {
        case 0: t[a].setVal(A::mk(x)); m[a] = {1, x}; break;
        case 1: t[a].setException(std::make_exception_ptr(Boom(S(x)))); m[a] = {2, x}; break;
        case 2: t[a] = Tr{A::mk(x)}; m[a] = {1, x}; break;
        case 3: t[a] = Tr{std::make_exception_ptr(Boom(S(x)))}; m[a] = {2, x}; break;
        case 4: if (a != b) { t[a] = std::move(t[b]); m[a] = m[b]; if (m[b].k == 1) { m[b].v = ANY; } else if (m[b].k == 2) m[b].v = ANY; } break;
        case 5: t[a].reset(); m[a] = {}; break;
        case 6: { Tr o{std::move(t[a])}; vf::check(o.isVal() == (m[a].k == 1), "try", "moved Try changed sides"); if (m[a].k == 1 && m[a].v != ANY) vf::check(A::get(o.get()) == m[a].v, "try", "moved Try changed value"); if (m[a].k) m[a].v = ANY; break; }
        case 7: if (m[a].k == 1 && m[a].v != ANY) { T o = t[a].move(); vf::check(A::get(o) == m[a].v, "try", "move() gave a wrong value"); m[a].v = ANY; } else { bool th = false; if (m[a].k != 1) { try { (void)t[a].get(); } catch (std::runtime_error&) { th = true; } vf::check(th, "try", "get() without a value did not throw"); th = false; try { (void)t[a].move(); } catch (std::runtime_error&) { th = true; } vf::check(th, "try", "move() without a value did not throw"); } } break;
        default: if (m[a].k == 2 && m[a].v != ANY) { std::string w; try { t[a].rethrow(); } catch (Boom& e) { w = e.what(); } vf::check(w == S(m[a].v) && t[a].what() == S(m[a].v), "try", "rethrow gave '" + w + "'"); } else if (m[a].k != 2) { bool th = false; try { (void)t[a].exception(); } catch (std::runtime_error&) { th = true; } vf::check(th, "try", "exception() without an exception did not throw"); } break;
        }
        for (int i = 0; i < 3; ++i) { vf::check(t[(std::size_t)i].isVal() == (m[i].k == 1) && (bool)t[(std::size_t)i] == (m[i].k == 1), "try", "isVal wrong after op " + S(op)); if (m[i].k == 1 && m[i].v != ANY) vf::check(A::get(std::as_const(t[(std::size_t)i]).get()) == m[i].v, "try", "value wrong after op " + S(op)); }
        h = vf::mix(h * 11 + (std::uint64_t)(op * 9 + m[a].k * 3 + m[b].k)); if (vf::st().fails) break; }
    vf::eval((std::uint64_t)len); vf::sig(h);
}
template <class T> void uninitProgram(vf::Rng& rng) {
    using A = Acc<T>; using U = container::Uninitialized<T>; std::vector<U> u(3); std::optional<long> m[3]; std::uint64_t h = 3; int len = (int)rng.range(3, 40);
    for (int k = 0; k < len; ++k) { std::size_t a = rng.below(3), b = rng.below(3); int op = (int)rng.below(5); long x = (long)rng.below(10000);
        switch (op) {
        case 0: case 1: u[a].set(A::mk(x)); m[a] = x; break;
        case 2: if (m[a]) { T o = u[a].move(); vf::check(A::get(o) == *m[a], "uninit", "move() gave a wrong value"); m[a].reset(); } break;
        case 3: if (a != b) { u[a] = std::move(u[b]); m[a] = m[b]; m[b].reset(); } else { u[a] = std::move(u[a]); } break;
        default: { U o{std::move(u[a])}; vf::check(o.isAvailable() == m[a].has_value(), "uninit", "moved slot"); if (m[a]) vf::check(A::get(o.get()) == *m[a], "uninit", "moved slot value"); m[a].reset(); break; } }
        for (int i = 0; i < 3; ++i) { vf::check(u[(std::size_t)i].isAvailable() == m[i].has_value(), "uninit", "isAvailable wrong after op " + S(op)); if (m[i]) vf::check(A::get(std::as_const(u[(std::size_t)i]).get()) == *m[i], "uninit", "value wrong after op " + S(op)); }
        h = vf::mix(h * 13 + (std::uint64_t)(op * 8 + a)); if (vf::st().fails) break; }
    vf::eval((std::uint64_t)len); vf::sig(h);
}
} // namespace
VF_SECTION("try", 20000, 300000) { switch (index % 5) { case 0: tryProgram<Tracked>(rng); break; case 1: tryProgram<Uniq>(rng); break; case 2: tryProgram<std::string>(rng); break; case 3: tryProgram<int>(rng); break; default: tryProgram<Big>(rng); } vf::noneLive("try"); }
VF_SECTION("try-void", 500, 5000) { container::Try<> t; vf::check(!t.isVal(), "try", "empty void Try has a value"); t.setVal(container::NonVoidType<>{}); vf::check(t.isVal(), "try", "void value"); container::Try<> u{std::move(t)}; vf::check(u.isVal(), "try", "moved void"); u.setException(std::make_exception_ptr(Boom("x"))); vf::check(!u.isVal() && u.what() == "x", "try", "void exception"); u = container::Try<>{container::NonVoidType<>{}}; vf::check(u.isVal(), "try", "void reassigned"); vf::eval(5); vf::sig("tv" + S(index)); }
VF_SECTION("uninitialized", 20000, 300000) { switch (index % 5) { case 0: uninitProgram<Tracked>(rng); break; case 1: uninitProgram<Uniq>(rng); break; case 2: uninitProgram<std::string>(rng); break; case 3: uninitProgram<int>(rng); break; default: uninitProgram<Big>(rng); } vf::noneLive("uninitialized"); }
VF_SECTION("uninitialized-throw", 4000, 40000) { { container::Uninitialized<Thrower> u; bool have = false; long v = 0; for (int i = 0; i < 12; ++i) { long x = (long)rng.below(1000); if (rng.chance(0.4)) fuse = 0; try { u.set(x); have = true; v = x; } catch (Boom&) { have = false; } fuse = -1; vf::check(u.isAvailable() == have, "uninit", "availability wrong around a throwing constructor"); if (have) vf::check(u.get().t.val() == v, "uninit", "value"); } container::Uninitialized<void> w; vf::check(!w.isAvailable(), "uninit", "void"); w.set(container::NonVoidHelper<>{}); vf::check(w.isAvailable(), "uninit", "void"); w.move(); vf::check(!w.isAvailable(), "uninit", "void"); } vf::noneLive("uninitialized-throw"); vf::eval(12); vf::sig("ut" + S(index % 700)); }
VF_SECTION("shared", 20000, 300000) {
    { using P = container::CoSharedPtr<Tracked>; std::vector<P> p(6); std::vector<std::shared_ptr<long>> m(6); std::uint64_t h = 5; int len = (int)rng.range(4, 60);
      for (int k = 0; k < len; ++k) { std::size_t a = rng.below(6), b = rng.below(6); int op = (int)rng.below(10); long x = (long)rng.below(100000);
        switch (op) {
        case 0: p[a] = container::makeCoSharedPtr<Tracked>(x); m[a] = std::make_shared<long>(x); break;
        case 1: p[a] = P{Tracked(x)}; m[a] = std::make_shared<long>(x); break;
        case 2: case 3: p[a] = p[b]; m[a] = m[b]; break;
        case 4: if (a != b) { p[a] = std::move(p[b]); m[a] = std::move(m[b]); m[b].reset(); } else p[a] = std::move(p[a]); break;
        case 5: p[a].swap(p[b]); std::swap(m[a], m[b]); break;
        case 6: p[a].reset(Tracked(x)); m[a] = std::make_shared<long>(x); break;
        case 7: p[a] = nullptr; m[a].reset(); break;
        case 8: { P q{p[a]}; P r{std::move(q)}; vf::check(r == p[a] && !q, "shared", "copy/move construction"); vf::check(r.useCount() == (std::size_t)(m[a] ? m[a].use_count() + 1 : 0), "shared", "count inside"); break; }
        default: if (m[a]) { *p[a] = Tracked(x); *m[a] = x; } break; }
        for (int i = 0; i < 6; ++i) { auto& q = p[(std::size_t)i]; auto& w = m[(std::size_t)i]; vf::check((bool)q == (bool)w, "shared", "bool wrong after op " + S(op)); vf::check(q.useCount() == (std::size_t)w.use_count(), "shared", "useCount " + S((long)q.useCount()) + " instead of " + S(w.use_count()) + " after op " + S(op)); if (w) vf::check(q->val() == *w && (*q).val() == *w && std::as_const(q).get()->val() == *w, "shared", "value wrong after op " + S(op)); else vf::check(q.get() == nullptr, "shared", "null get"); for (int j = 0; j < 6; ++j) vf::check((q == p[(std::size_t)j]) == (w == m[(std::size_t)j]), "shared", "comparison wrong"); }
        h = vf::mix(h * 17 + (std::uint64_t)(op * 36 + (long)a * 6 + (long)b)); if (vf::st().fails) break; }
      vf::eval((std::uint64_t)len); vf::sig(h); }
    vf::noneLive("shared");
    { bool thrown = false; fuse = 0; try { auto q = container::makeCoSharedPtr<Thrower>(3L); } catch (Boom&) { thrown = true; } fuse = -1; vf::check(thrown, "shared", "a constructor's exception vanished"); } vf::noneLive("shared-throw");
    // nested ownership: a chain of pointers is released without touching freed memory
    { struct Node { Tracked t{1}; container::CoSharedPtr<Node> next{}; }; container::CoSharedPtr<Node> head; for (int i = 0; i < 50; ++i) { auto n = container::makeCoSharedPtr<Node>(); n->next = std::move(head); head = std::move(n); } while (head && rng.chance(0.7)) head = container::CoSharedPtr<Node>{head->next}; while (head && rng.chance(0.7)) head = head->next; } vf::noneLive("shared-chain");
}
VF_SECTION("function", 8000, 80000) {
    { long calls = 0; std::vector<std::unique_ptr<container::MoveOnlyFunction>> fs; int n = (int)rng.range(1, 12); long want = 0;
      for (int i = 0; i < n; ++i) { auto l = [&calls, t = Tracked(i), u = std::make_unique<Tracked>(i * 2)]() mutable { calls += t.val() + u->val(); t = Tracked(t.val()); }; container::MoveOnlyFunctionAny<decltype(l)> f{std::move(l)}; container::MoveOnlyFunctionAny<decltype(l)> g{std::move(f)}; fs.push_back(std::make_unique<decltype(g)>(std::move(g))); }
      for (int k = 0; k < 20; ++k) { std::size_t a = rng.below((std::uint64_t)n); std::swap(fs[a], fs[rng.below((std::uint64_t)n)]); }
      for (int i = 0; i < n; ++i) want += i * 3; for (auto& f : fs) f->call(); vf::check(calls == want, "function", "calls saw " + S(calls) + " instead of " + S(want)); std::unique_ptr<container::MoveOnlyFunction> e = std::make_unique<container::MoveOnlyFunction>(); e->call(); fs[0] = std::move(e);
      // preserved argument tuples: rvalues are owned and handed over, lvalues are referenced
      Tracked lv(5); auto tup = container::makePreserveTuple(lv, Tracked(6), std::make_unique<Tracked>(7), 8L); long s = container::moveApply([](Tracked& a, Tracked b, std::unique_ptr<Tracked> c, long d) { long r = a.val() * 1000 + b.val() * 100 + c->val() * 10 + d; a = Tracked(9); return r; }, std::move(tup)); vf::check(s == 5678 && lv.val() == 9, "apply", "moveApply gave " + S(s)); vf::eval((std::uint64_t)n + 2); vf::sig("fn" + S(n) + S((long)(rng.next() % 999))); }
    vf::noneLive("function");
}
