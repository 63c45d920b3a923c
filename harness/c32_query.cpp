// C32: a query selects exactly the rows for which the same expression, evaluated in C++ with SQL's rules for NULL, holds.
#include "db.hpp"
#include <algorithm>
#include <memory>
#include <set>
#include <tuple>
#include <variant>
using namespace dt;

struct Xt { AutoIncrementPrimaryKey<std::int64_t> id; std::int32_t a, b; std::int64_t l; double d; float f; std::string s, t; std::optional<std::int32_t> oa; std::optional<std::string> os; std::optional<double> od; std::optional<std::int64_t> ol; };
struct Yt { AutoIncrementPrimaryKey<std::int64_t> id; std::int32_t k, v; std::string s; std::optional<std::int32_t> o; inline static constexpr std::string_view TableName = "y_table"; };
struct Zt { AutoIncrementPrimaryKey<std::int64_t> id; std::int32_t k; std::int64_t ref; std::string n; };

// ---- the reference: values with NULL, SQLite's arithmetic, comparison and three-valued logic
struct Val : std::variant<std::monostate, std::int64_t, double, std::string> {
    using variant::variant;
    bool null() const { return index() == 0; } bool isI() const { return index() == 1; } bool isD() const { return index() == 2; } bool isS() const { return index() == 3; }
    std::int64_t i() const { return std::get<1>(*this); } double dbl() const { return isI() ? (double)i() : std::get<2>(*this); } std::string const& s() const { return std::get<3>(*this); }
    template <auto... Vs> Val in() const; template <auto... Vs> Val notIn() const;
    template <meta::FixedString P_> Val like() const; template <meta::FixedString P_> Val notLike() const;
    Val isNull() const { return Val{std::int64_t{null()}}; } Val isNotNull() const { return Val{std::int64_t{!null()}}; }
};
static Val B(bool b) { return Val{std::int64_t{b}}; }
static Val D(double d) { return d == d ? Val{d} : Val{}; }
template <class T> static Val V(T const& v) {
    if constexpr (std::is_same_v<T, Val>) return v;
    else if constexpr (meta::IsOptionalVal<T>) return v ? V(*v) : Val{};
    else if constexpr (std::is_integral_v<T>) return Val{(std::int64_t)v};
    else if constexpr (std::is_floating_point_v<T>) return D((double)v);
    else return Val{std::string{std::string_view{v}}};
}
static int truth(Val const& v) { if (v.null()) return -1; if (v.isI()) return v.i() != 0; if (v.isD()) return v.dbl() != 0; return 0; }
static int cmp(Val const& x, Val const& y) { if (x.isS() && y.isS()) { auto n = std::min(x.s().size(), y.s().size()); int c = std::memcmp(x.s().data(), y.s().data(), n); return c ? c : x.s().size() < y.s().size() ? -1 : x.s().size() > y.s().size(); } auto f = [](Val const& v) { return v.isI() ? (long double)v.i() : (long double)v.dbl(); }; auto p = f(x), q = f(y); return p < q ? -1 : p > q; }
static Val arith(char op, Val const& x, Val const& y) {
    if (x.null() || y.null()) return {};
    if (x.isI() && y.isI()) { std::int64_t p = x.i(), q = y.i(), z = 0; switch (op) { case '+': if (!__builtin_add_overflow(p, q, &z)) return Val{z}; break; case '-': if (!__builtin_sub_overflow(p, q, &z)) return Val{z}; break; case '*': if (!__builtin_mul_overflow(p, q, &z)) return Val{z}; break; case '/': if (!q) return {}; if (!(q == -1 && p == INT64_MIN)) return Val{p / q}; break; default: if (!q) return {}; return Val{q == -1 ? 0 : p % q}; } }
    double p = x.dbl(), q = y.dbl(); switch (op) { case '+': return D(p + q); case '-': return D(p - q); case '*': return D(p * q); case '/': return q == 0 ? Val{} : D(p / q); } return {};
}
#define REF_OP(OP, EXPR) template <class L_, class R_> requires (std::is_same_v<L_, Val> || std::is_same_v<R_, Val>) static Val operator OP(L_ const& l_, R_ const& r_) { Val x = V(l_), y = V(r_); return EXPR; }
REF_OP(+, arith('+', x, y)) REF_OP(-, arith('-', x, y)) REF_OP(*, arith('*', x, y)) REF_OP(/, arith('/', x, y)) REF_OP(%, arith('%', x, y))
#define REF_CMP(OP) REF_OP(OP, x.null() || y.null() ? Val{} : B(cmp(x, y) OP 0))
REF_CMP(==) REF_CMP(!=) REF_CMP(<) REF_CMP(<=) REF_CMP(>) REF_CMP(>=)
REF_OP(&&, truth(x) == 0 || truth(y) == 0 ? B(false) : truth(x) < 0 || truth(y) < 0 ? Val{} : B(true))
REF_OP(||, truth(x) == 1 || truth(y) == 1 ? B(true) : truth(x) < 0 || truth(y) < 0 ? Val{} : B(false))
static Val operator!(Val const& v) { int t = truth(v); return t < 0 ? Val{} : B(!t); }
static thread_local std::vector<Val> gArgs;
template <std::size_t N> struct RefParam { };
template <class T> static Val lit(T const& v) { return V(v); }
template <std::size_t N> static Val lit(RefParam<N>) { return gArgs[N]; }
template <auto... Vs> Val Val::in() const { if constexpr (sizeof...(Vs) == 0) return B(false); else return ((*this == lit(Vs)) || ...  || B(false)); }
template <auto... Vs> Val Val::notIn() const { return !this->template in<Vs...>(); }
static bool likeAt(std::string_view p, std::string_view s) { // ASCII letters match in either case, _ is one character
    auto up = [](char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; };
    while (!p.empty()) { if (p[0] == '%') { for (std::size_t i = 0; i <= s.size(); ++i) if (likeAt(p.substr(1), s.substr(i))) return true; return false; } if (s.empty()) return false; if (p[0] == '_') { std::size_t n = 1; while (n < s.size() && ((unsigned char)s[n] & 0xC0) == 0x80) ++n; s.remove_prefix(n); } else { if (up(p[0]) != up(s[0])) return false; s.remove_prefix(1); } p.remove_prefix(1); } return s.empty(); }
template <meta::FixedString P_> Val Val::like() const { return null() ? Val{} : B(likeAt(std::string_view{P_}, s())); }
template <meta::FixedString P_> Val Val::notLike() const { return null() ? Val{} : B(!likeAt(std::string_view{P_}, s())); }

// ---- the two readings of an expression: typed SQL, and the reference
struct X { std::int64_t id; std::int32_t a, b; std::int64_t l; double d; float f; std::string s, t; std::optional<std::int32_t> oa; std::optional<std::string> os; std::optional<double> od; std::optional<std::int64_t> ol; };
struct Y { std::int64_t id; std::int32_t k, v; std::string s; std::optional<std::int32_t> o; };
struct Z { std::int64_t id; std::int32_t k; std::int64_t ref; std::string n; };
static thread_local X const* gX; static thread_local Y const* gY; static thread_local Z const* gZ;
template <bool Named> struct Sql {
#define SQL_COL(F, T_, M) static constexpr auto F() { return Col(&T_::M); }
    SQL_COL(Id, Xt, id) SQL_COL(A, Xt, a) SQL_COL(B, Xt, b) SQL_COL(L, Xt, l) SQL_COL(D, Xt, d) SQL_COL(F, Xt, f) SQL_COL(S, Xt, s) SQL_COL(T, Xt, t) SQL_COL(Oa, Xt, oa) SQL_COL(Os, Xt, os) SQL_COL(Od, Xt, od) SQL_COL(Ol, Xt, ol)
    SQL_COL(Yi, Yt, id) SQL_COL(Yk, Yt, k) SQL_COL(Yv, Yt, v) SQL_COL(Ys, Yt, s) SQL_COL(Yo, Yt, o) SQL_COL(Zk, Zt, k) SQL_COL(Zr, Zt, ref) SQL_COL(Zn, Zt, n)
    template <class T, std::size_t N> static constexpr auto pv() { if constexpr (!Named) return param<T>; else if constexpr (N == 0) return param<T>.template bind<"first">(); else if constexpr (N == 1) return param<T>.template bind<"second">(); else return param<T>.template bind<"third">(); }
    template <class T, std::size_t N> static constexpr auto p = pv<T, N>();
};
struct Ref {
#define REF_COL(F, R_, M) static Val F() { return R_ ? V(R_->M) : Val{}; }
    REF_COL(Id, gX, id) REF_COL(A, gX, a) REF_COL(B, gX, b) REF_COL(L, gX, l) REF_COL(D, gX, d) REF_COL(F, gX, f) REF_COL(S, gX, s) REF_COL(T, gX, t) REF_COL(Oa, gX, oa) REF_COL(Os, gX, os) REF_COL(Od, gX, od) REF_COL(Ol, gX, ol)
    REF_COL(Yi, gY, id) REF_COL(Yk, gY, k) REF_COL(Yv, gY, v) REF_COL(Ys, gY, s) REF_COL(Yo, gY, o) REF_COL(Zk, gZ, k) REF_COL(Zr, gZ, ref) REF_COL(Zn, gZ, n)
    template <class T, std::size_t N> static constexpr RefParam<N> p{};
};
// a parameter in an operator, rather than in a list
#define REF_PAR(OP) template <std::size_t N> static Val operator OP(Val const& l_, RefParam<N>) { return l_ OP gArgs[N]; }
REF_PAR(==) REF_PAR(!=) REF_PAR(<) REF_PAR(<=) REF_PAR(>) REF_PAR(>=) REF_PAR(+) REF_PAR(-) REF_PAR(*) REF_PAR(/) REF_PAR(%)

static std::int32_t smallInt(vf::Rng& r) { return r.chance(0.05) ? r.pick({INT32_MIN, INT32_MAX, 1000000}) : (std::int32_t)r.range(-3, 8); }
static std::int64_t bigInt(vf::Rng& r) { return r.chance(0.3) ? r.pick({INT64_MIN, INT64_MAX, INT64_MAX - 1, std::int64_t{1} << 53, (std::int64_t{1} << 53) + 1, std::int64_t{-5000000000}}) : r.range(-3, 8); }
static double genD(vf::Rng& r) { return r.chance(0.1) ? r.pick({1e300, -1e300, 1e-300, 0.1, 9007199254740993.0}) : (double)r.range(-12, 12) / 4; }
static std::string simple(vf::Rng& r) { return r.chance(0.1) ? r.pick({std::string("\xE4\xBD\xA0" "b"), std::string("a\xE5\xA5\xBD"), std::string("aBc"), std::string("it's"), std::string("100%")}) : r.text(r.below(4), "abAB%_'"); }
template <class T> static T genV(vf::Rng& r) {
    if constexpr (meta::IsOptionalVal<T>) return r.chance(0.3) ? T{} : T{genV<typename T::value_type>(r)};
    else if constexpr (std::is_same_v<T, std::int32_t>) return smallInt(r); else if constexpr (std::is_same_v<T, std::int64_t>) return bigInt(r);
    else if constexpr (std::is_floating_point_v<T>) return (T)(std::is_same_v<T, float> ? (double)r.range(-12, 12) / 4 : genD(r)); else return r.chance(0.5) ? simple(r) : hostile(r);
}
struct Data {
    std::vector<X> x; std::vector<Y> y; std::vector<Z> z; std::string f = file(); DB db; std::unique_ptr<Raw> raw;
    Data() { db.open(f); db.exec("PRAGMA synchronous=OFF"); vf::check((bool)db.createDatabase<Xt>() && (bool)db.createDatabase<Yt>() && (bool)db.createDatabase<Zt>(), "create", "createDatabase"); raw = std::make_unique<Raw>(f); }
    ~Data() { raw.reset(); db.close(); drop(f); }
    void fill(vf::Rng& r) {
        db.exec("BEGIN; DELETE FROM Xt; DELETE FROM y_table; DELETE FROM Zt"); x.clear(); y.clear(); z.clear(); auto n = r.chance(0.05) ? 0 : r.range(1, 24);
        for (std::int64_t i = 0; i < n; ++i) { X t{i * 3 + 1, smallInt(r), smallInt(r), bigInt(r), genD(r), genV<float>(r), genV<std::string>(r), simple(r), genV<std::optional<std::int32_t>>(r), genV<std::optional<std::string>>(r), genV<std::optional<double>>(r), genV<std::optional<std::int64_t>>(r)}; if (!x.empty() && r.chance(0.2)) t.s = r.pick(x).s; x.push_back(t); db.sqlTemplate<"fx"_fs>().insert<Xt, true>(Xt{{t.id}, t.a, t.b, t.l, t.d, t.f, t.s, t.t, t.oa, t.os, t.od, t.ol}).exec(); }
        n = r.range(0, 10); for (std::int64_t i = 0; i < n; ++i) { Y t{i + 1, (std::int32_t)r.range(-1, 6), smallInt(r), r.chance(0.5) && !x.empty() ? r.pick(x).s : hostile(r), genV<std::optional<std::int32_t>>(r)}; y.push_back(t); db.sqlTemplate<"fy"_fs>().insert<Yt, true>(Yt{{t.id}, t.k, t.v, t.s, t.o}).exec(); }
        n = r.range(0, 6); for (std::int64_t i = 0; i < n; ++i) { Z t{i + 1, (std::int32_t)r.range(-1, 6), r.range(1, 8), simple(r)}; z.push_back(t); db.sqlTemplate<"fz"_fs>().insert<Zt, true>(Zt{{t.id}, t.k, t.ref, t.n}).exec(); }
        db.exec("COMMIT");
    }
    // whatever a query did, it changed no table
    void intact(char const* what) { vf::eval(1); auto n = raw->rows("SELECT (SELECT count(*) FROM Xt), (SELECT count(*) FROM y_table), (SELECT count(*) FROM Zt), (SELECT count(*) FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%')"); vf::check(n.size() == 1 && n[0] == std::vector<Cell>{cInt((long long)x.size()), cInt((long long)y.size()), cInt((long long)z.size()), cInt(3)}, "injection", [&] { return std::string(what) + ": a query changed the tables"; }); auto e = raw->run("BEGIN EXCLUSIVE; ROLLBACK"); vf::check(e.empty(), "lock", [&] { return std::string(what) + ": " + e; }); }
};
template <class T> static std::string cellStr(T const& v) { auto x = V(v); return x.null() ? "NULL" : x.isI() ? S(x.i()) : x.isD() ? num(x.dbl()) : "'" + vf::esc(x.s(), 60) + "'"; }
template <class... As> static std::string argText(std::tuple<As...> const& a) { std::string s; std::apply([&](auto&... v) { ((s += cellStr(v) + " "), ...); }, a); return s; }

using Ids = std::vector<std::int64_t>;
template <class R_> static Ids ids(R_ const& v) { Ids o; for (auto& e : v) o.push_back(e.template get<0>()); return o; }
static std::string show(Ids const& v) { std::string s = "["; for (auto i : v) s += S(i) + " "; return s + "]"; }
template <int Id, auto F, class... As> static void shape(Data& db, vf::Rng& r, char const* text) {
    constexpr auto e = F(Sql<false>{}); std::tuple<As...> args;
    for (int round = 0; round < 3; ++round) {
        std::apply([&](auto&... a) { ((a = [&]<class T>(T const&) -> T { if (!db.x.empty() && r.chance(0.5)) { auto& row = r.pick(db.x); if constexpr (std::is_same_v<T, std::string>) return r.chance(0.5) ? row.s : row.t; else if constexpr (std::is_same_v<T, std::int64_t>) return row.l; else if constexpr (std::is_same_v<T, double>) return row.d; else if constexpr (std::is_same_v<T, float>) return row.f; else if constexpr (std::is_same_v<T, std::int32_t>) return row.a; } return genV<T>(r); }(a)), ...); }, args);
        gArgs.clear(); std::apply([&](auto&... a) { (gArgs.push_back(V(a)), ...); }, args);
        Ids want; for (auto& x : db.x) { gX = &x; if (truth(F(Ref{})) == 1) want.push_back(x.id); } gX = nullptr;
        auto say = [&](char const* how, Ids const& got) { vf::eval(1 + db.x.size()); vf::check(got == want, "rows", [&] { std::string s = std::string(text) + " (" + how + ", " + argText(args) + "): rows " + show(got) + " instead of " + show(want); for (auto& x : db.x) if (std::count(got.begin(), got.end(), x.id) != std::count(want.begin(), want.end(), x.id)) { s += " e.g. a=" + S(x.a) + " b=" + S(x.b) + " l=" + S(x.l) + " d=" + num(x.d) + " s='" + vf::esc(x.s, 40) + "' t='" + vf::esc(x.t, 40) + "' oa=" + cellStr(x.oa) + " os=" + cellStr(x.os) + " od=" + cellStr(x.od); break; } return s; }); };
        try {
            say("values", ids(std::apply([&](auto&... a) { return db.db.template sqlTemplate<Id, 0>().template select<Col(&Xt::id)>().template from<Xt>().template where<e>(a...).template orderBy<Col(&Xt::id).asc()>().exec(); }, args)));
            if constexpr (sizeof...(As) > 0) {
                { auto copy = args; auto v = std::apply([&](auto&... a) { return db.db.template sqlTemplate<Id, 1>().template select<Col(&Xt::id)>().template from<Xt>().template where<e>(std::move(a)...).execNoThrow(); }, copy); if (vf::check((bool)v, "error", [&] { return std::string(text) + ": " + v.what(); })) { auto g = ids(v.get()); std::sort(g.begin(), g.end()); say("temporaries", g); } }
                constexpr auto n = F(Sql<true>{}); auto q = [&] { return db.db.template sqlTemplate<Id, 2>().template select<Col(&Xt::id)>().template from<Xt>(); };
                if constexpr (sizeof...(As) == 1) say("named", ids(q().template where<n>(bind<"first">.link(std::get<0>(args))).template orderBy<Col(&Xt::id).asc()>().exec()));
                else if constexpr (sizeof...(As) == 2) say("named, other order", ids(q().template where<n>(bind<"second">.link(std::get<1>(args)), bind<"first">.link(std::get<0>(args))).template orderBy<Col(&Xt::id).asc()>().exec()));
                else say("named, other order", ids(q().template where<n>(bind<"third">.link(std::get<2>(args)), bind<"first">.link(std::get<0>(args)), bind<"second">.link(std::get<1>(args))).template orderBy<Col(&Xt::id).asc()>().exec()));
            }
            if constexpr (Id % 3 == 0) { // the same condition on UPDATE and DELETE
                db.db.exec("BEGIN"); std::int32_t v = 987654; auto u = std::apply([&](auto&... a) { return db.db.template sqlTemplate<Id, 3>().template update<&Xt::b>(v).template where<e>(a...).template returning<&Xt::id, &Xt::b>().execGetChanges(); }, args); auto g = ids(u.columnRes); std::sort(g.begin(), g.end()); say("update", g); vf::check(u.changes == want.size(), "changes", "update"); db.db.exec("ROLLBACK; BEGIN");
                auto c = std::apply([&](auto&... a) { return db.db.template sqlTemplate<Id, 4>().template deleteForm<Xt>().template where<e>(a...).execGetChanges(); }, args); vf::check(c == want.size(), "changes", [&] { return std::string(text) + ": delete removed " + S((long)c) + " rows instead of " + S((long)want.size()); }); Ids left; for (auto& x : db.x) if (!std::count(want.begin(), want.end(), x.id)) left.push_back(x.id); auto rest = ids(db.db.template sqlTemplate<"rest"_fs>().template select<Col(&Xt::id)>().template from<Xt>().template orderBy<Col(&Xt::id).asc()>().exec()); vf::check(rest == left, "rows", [&] { return std::string(text) + ": delete left " + show(rest) + " instead of " + show(left); }); db.db.exec("ROLLBACK");
            }
        } catch (std::exception const& x) { vf::fail("error", std::string(text) + " threw " + x.what()); try { db.db.exec("ROLLBACK"); } catch (...) {} }
        vf::note("queries"); vf::note(want.empty() ? "selecting nothing" : want.size() == db.x.size() ? "selecting everything" : "selecting some rows");
    }
    db.intact(text);
}
using Shape = void (*)(Data&, vf::Rng&, char const*);
static std::vector<std::pair<Shape, char const*>>& shapes() { static std::vector<std::pair<Shape, char const*>> v; return v; }
template <int Id, auto F, class... As> struct Reg { Reg(char const* t) { shapes().emplace_back(&shape<Id, F, As...>, t); } };
#define SHAPE_I(N, TYPES, ...) static constexpr auto shapeF##N = []<class C>(C) { return __VA_ARGS__; }; static Reg<N, shapeF##N COMMA_ TYPES> shapeR##N{#__VA_ARGS__};
#define SHAPE_N(N, TYPES, ...) SHAPE_I(N, TYPES, __VA_ARGS__)
#define SHAPE(...) SHAPE_N(__COUNTER__, (), __VA_ARGS__)
#define COMMA_(...) __VA_OPT__(,) __VA_ARGS__
#define SHAPEP(TYPES, ...) SHAPE_N(__COUNTER__, TYPES, __VA_ARGS__)
using i32 = std::int32_t; using i64 = std::int64_t; using str_ = std::string;
// comparisons with columns and literals, on either side
SHAPE(C::A() == 3) SHAPE(C::A() != 3) SHAPE(C::A() < 2) SHAPE(C::A() <= 2) SHAPE(C::A() > 2) SHAPE(C::A() >= 2)
SHAPE(3 == C::A()) SHAPE(2 < C::A()) SHAPE(2 <= C::A()) SHAPE(2 > C::A()) SHAPE(2 >= C::A()) SHAPE(2 != C::A())
SHAPE(C::A() == C::B()) SHAPE(C::A() < C::B()) SHAPE(C::A() >= C::B()) SHAPE(C::A() != C::Oa()) SHAPE(C::Oa() > C::B()) SHAPE(C::L() == 9223372036854775807L) SHAPE(C::L() > 9007199254740992L) SHAPE(C::L() < -4999999999L) SHAPE(-1 == C::A()) SHAPE(C::A() > -2)
SHAPE(C::D() == 0.25) SHAPE(C::D() > -0.5) SHAPE(C::D() < 1e299) SHAPE(0.1 == C::D()) SHAPE(C::D() == 1.0) SHAPE(C::Od() <= 1.5) SHAPE(C::F() == 0.5f) SHAPE(C::F() < 1.0f)
SHAPE(C::T() == "ab"_fs) SHAPE(C::T() == "it's"_fs) SHAPE(C::S() == "' OR '1'='1"_fs) SHAPE(C::S() != "'"_fs) SHAPE(C::T() < "b"_fs) SHAPE("a"_fs <= C::T()) SHAPE(C::Os() >= "A"_fs) SHAPE(C::S() == ""_fs) SHAPE(C::S() < C::T()) SHAPE(C::S() == C::Os()) SHAPE("?"_fs == C::S())
// null tests, lists, patterns, negation
SHAPE(C::Oa().isNull()) SHAPE(C::Oa().isNotNull()) SHAPE(C::Os().isNull() && C::Od().isNotNull()) SHAPE(C::Oa().isNull() || C::Oa() == 1) SHAPE(!C::A()) SHAPE(!C::Oa()) SHAPE(!C::D()) SHAPE(!C::Oa() || C::Oa().isNull()) SHAPE(C::A() == 1 && !C::B())
SHAPE(C::A().template in<1>()) SHAPE(C::A().template in<1, 3, -2>()) SHAPE(C::A().template in<>()) SHAPE(C::Oa().template in<>()) SHAPE(C::Oa().template notIn<>()) SHAPE(C::A().template notIn<1>()) SHAPE(C::Oa().template notIn<1, 2>()) SHAPE(C::Oa().template in<1, 2>()) SHAPE(C::D().template in<0.25, -0.5, 1.0>()) SHAPE(C::T().template in<"a"_fs, "it's"_fs, ""_fs>()) SHAPE(C::S().template notIn<"'"_fs, "x"_fs>()) SHAPE(C::L().template in<9223372036854775807L, 5L>())
SHAPE(C::T().template like<"a%">()) SHAPE(C::T().template like<"_">()) SHAPE(C::T().template like<"%b_">()) SHAPE(C::T().template notLike<"%a%">()) SHAPE(C::T().template like<"">()) SHAPE(C::T().template like<"it's">()) SHAPE(C::T().template like<"%'%">()) SHAPE(C::T().template like<"A%" >() && C::A() > 1)
// grouping of && and ||
SHAPE((C::A() == 1 || C::A() == 2) && C::B() == 2) SHAPE(C::A() == 1 || (C::A() == 2 && C::B() == 2)) SHAPE(C::A() == 1 || C::A() == 2 && C::B() > 2) SHAPE((C::A() > 1 && C::B() > 1) || (C::A() < 0 && C::B() < 0)) SHAPE((C::A() > 1 || C::B() > 1) && (C::A() < 0 || C::B() < 0)) SHAPE(((C::A() == 1 || C::B() == 1) && C::L() > 0L) || C::D() == 0.5) SHAPE((C::A() == 1 || C::Oa() == 1) && (C::Oa().isNull() || C::Od() > 0.0)) SHAPE(C::A() > 0 && (C::B() > 0 && (C::A() < 5 || C::B() < 5)))
SHAPE((C::A().template in<1, 2>() || C::T().template like<"a%">()) && C::Oa().isNotNull())
// arithmetic
SHAPE(C::A() + 1 == 3) SHAPE((C::A() + 1) * 2 == 6) SHAPE(C::A() + 1 != 3) SHAPE(5 - C::A() == 2) SHAPE((5 - C::A()) - 1 == 2) SHAPE(5 - (C::A() + 1) == 2) SHAPE(12 / (C::A() - 1) == 4) SHAPE((12 / C::A()) / 2 == 2) SHAPE(C::A() % 3 == 1) SHAPE(7 % C::A() == 1) SHAPE((C::A() % 3) * 2 == 2) SHAPE(10 - (C::A() % 4) == 9) SHAPE(C::A() / 2 == 1) SHAPE((C::A() * -1) == 2) SHAPE(C::B() == C::A() + 1) SHAPE(C::A() - 2 == C::B()) SHAPE(C::A() * 2 != C::B()) SHAPE((C::Oa() + 1) * 3 == 6) SHAPE(C::L() + 1L == 2L) SHAPE(C::L() * 2L == 4L) SHAPE(C::L() - 1L == 9223372036854775806L) SHAPE(C::D() * 2.0 == 0.5) SHAPE(1.0 / C::D() == 4.0) SHAPE((C::D() + 0.5) * 2.0 == 1.5) SHAPE(C::D() - 0.25 == C::D()) SHAPE(2 * (C::A() + 1) == 6 && (C::A() + 1) * 2 != 8) SHAPE((C::A() < 3) == 1) SHAPE((C::A() == 2) != 1) SHAPE(0 == (C::B() > 2)) SHAPE(C::A() / 0 == 1 || C::A() == 1) SHAPE(C::A() - 1 && C::B() == 2)
// parameters
SHAPEP((i32), C::A() == C::template p<i32, 0>) SHAPEP((i32), C::A() < C::template p<i32, 0>) SHAPEP((i32), C::Oa() >= C::template p<i32, 0>) SHAPEP((i32), C::Oa() != C::template p<i32, 0>) SHAPEP((i64), C::L() == C::template p<i64, 0>) SHAPEP((i64), C::L() <= C::template p<i64, 0>) SHAPEP((double), C::D() > C::template p<double, 0>) SHAPEP((double), C::D() == C::template p<double, 0>) SHAPEP((double), C::Od() != C::template p<double, 0>) SHAPEP((float), C::F() >= C::template p<float, 0>)
SHAPEP((str_), C::S() == C::template p<str_, 0>) SHAPEP((str_), C::S() != C::template p<str_, 0>) SHAPEP((str_), C::S() < C::template p<str_, 0>) SHAPEP((str_), C::T() >= C::template p<str_, 0>) SHAPEP((str_), C::Os() == C::template p<str_, 0>) SHAPEP((str_), C::Os() <= C::template p<str_, 0>)
SHAPEP((i32, i32), C::A() >= C::template p<i32, 0> && C::A() < C::template p<i32, 1>) SHAPEP((i32, str_), C::A() == C::template p<i32, 0> || C::S() == C::template p<str_, 1>) SHAPEP((str_, i32), C::S() != C::template p<str_, 0> && C::A() > C::template p<i32, 1>) SHAPEP((str_, str_), C::S() == C::template p<str_, 0> || C::T() == C::template p<str_, 1>) SHAPEP((i64, double, str_), (C::L() > C::template p<i64, 0> || C::D() < C::template p<double, 1>) && C::S() >= C::template p<str_, 2>) SHAPEP((i32, i32, i32), C::A() == C::template p<i32, 0> || (C::B() == C::template p<i32, 1> && C::Oa() == C::template p<i32, 2>))
SHAPEP((i32), C::A().template in<C::template p<i32, 0>>()) SHAPEP((i32, i32), C::A().template in<C::template p<i32, 0>, 3, C::template p<i32, 1>>()) SHAPEP((i32), C::Oa().template notIn<1, C::template p<i32, 0>>()) SHAPEP((str_, str_), C::S().template in<C::template p<str_, 0>, C::template p<str_, 1>>()) SHAPEP((str_, i32), C::S().template notIn<C::template p<str_, 0>>() && C::A() > C::template p<i32, 1>) SHAPEP((i32, str_), (C::A() == 1 || C::A() == C::template p<i32, 0>) && C::S() != C::template p<str_, 1> && C::Oa().isNull())

VF_SECTION("where", 160, 5000) {
    auto& r = rng; Data d; vf::Watch w("hang|a query does not come back", 120); int n = 0;
    for (int k = 0; k < 2; ++k) { d.fill(r); for (auto& [f, t] : shapes()) if (r.chance(0.25)) { vf::setCase("where " + S(index) + ": " + t + " on " + S((long)d.x.size()) + " rows"); f(d, r, t); ++n; } }
    std::string sig; for (auto& x : d.x) sig += S(x.a) + "," + S(x.b) + x.s; vf::sig(sig + S(n));
}

// ---- ordering and limits
static int cmpNull(Val const& a, Val const& b) { if (a.null() || b.null()) return (int)b.null() - (int)a.null(); return cmp(a, b); } // NULL first
template <class Key> static Ids sorted(Data& d, Key key) { std::vector<X const*> v; for (auto& x : d.x) v.push_back(&x); std::stable_sort(v.begin(), v.end(), [&](X const* p, X const* q) { return key(*p, *q) < 0; }); Ids o; for (auto* x : v) o.push_back(x->id); return o; }
static int then(int a, int b) { return a ? a : b; }
#define BY(M) cmpNull(V(p.M), V(q.M))
static Ids cut(Ids const& v, i64 off, i64 n) { Ids o; if (off < 0) off = 0; for (i64 i = off; i < (i64)v.size() && (n < 0 || i - off < n); ++i) o.push_back(v[(std::size_t)i]); return o; }
static void same(char const* what, Ids const& got, Ids const& want) { vf::eval(1 + want.size()); vf::check(got == want, "order", [&] { return std::string(what) + ": " + show(got) + " instead of " + show(want); }); }
VF_SECTION("order", 300, 8000) {
    auto& r = rng; Data d; vf::setCase("order " + S(index)); vf::Watch w("hang|a query does not come back", 60); std::string sig;
    try { for (int k = 0; k < 3; ++k) { d.fill(r); auto q = [&]<int I>() { return d.db.template sqlTemplate<I>().template select<Col(&Xt::id)>().template from<Xt>(); };
        auto o1 = sorted(d, [](X const& p, X const& q) { return then(BY(a), then(-BY(b), BY(id))); }); same("a asc, b desc, id asc", ids(q.operator()<1>().orderBy<Col(&Xt::a).asc(), Col(&Xt::b).desc(), Col(&Xt::id).asc()>().exec()), o1);
        auto o2 = sorted(d, [](X const& p, X const& q) { return then(-BY(s), -BY(id)); }); same("s desc, id desc", ids(q.operator()<2>().orderBy<Col(&Xt::s).desc(), Col(&Xt::id).desc()>().exec()), o2);
        auto o3 = sorted(d, [](X const& p, X const& q) { return then(BY(oa), then(-BY(od), BY(id))); }); same("oa asc, od desc, id asc", ids(q.operator()<3>().orderBy<Col(&Xt::oa).asc(), Col(&Xt::od).desc(), Col(&Xt::id).asc()>().exec()), o3);
        auto o4 = sorted(d, [](X const& p, X const& q) { return then(BY(l), then(BY(d), BY(id))); });
        same("l, d, id limit 3", ids(q.operator()<4>().orderBy<Col(&Xt::l).asc(), Col(&Xt::d).asc(), Col(&Xt::id).asc()>().limit<3>().exec()), cut(o4, 0, 3));
        same("l, d, id limit 2,4", ids(q.operator()<5>().orderBy<Col(&Xt::l).asc(), Col(&Xt::d).asc(), Col(&Xt::id).asc()>().limit<2, 4>().exec()), cut(o4, 2, 4));
        i64 off = r.range(-1, 10), cnt = r.range(-1, 10);
        same("limit by parameters", ids(q.operator()<6>().orderBy<Col(&Xt::l).asc(), Col(&Xt::d).asc(), Col(&Xt::id).asc()>().limit<param<i64>, param<i64>>(off, cnt).exec()), cut(o4, off, cnt));
        same("limit by one parameter", ids(q.operator()<7>().orderBy<Col(&Xt::a).asc(), Col(&Xt::b).desc(), Col(&Xt::id).asc()>().limit<param<i64>>(i64{cnt}).exec()), cut(o1, 0, cnt));
        same("offset by parameter", ids(q.operator()<8>().orderBy<Col(&Xt::a).asc(), Col(&Xt::b).desc(), Col(&Xt::id).asc()>().limit<param<i64>, 3>(off).exec()), cut(o1, off, 3));
        same("limit 0", ids(q.operator()<9>().limit<0>().exec()), {});
        i32 a = smallInt(r); auto s = r.chance(0.5) && d.x.size() ? r.pick(d.x).s : hostile(r); Ids want; for (auto i : o2) { auto& x = *std::find_if(d.x.begin(), d.x.end(), [&](X const& e) { return e.id == i; }); if (x.a >= a || x.s == s) want.push_back(i); }
        same("where, order, limit", ids(q.operator()<10>().where<Col(&Xt::a) >= param<i32> || Col(&Xt::s) == param<str_>>(a, s).orderBy<Col(&Xt::s).desc(), Col(&Xt::id).desc()>().limit<param<i64>, param<i64>>(off, cnt).exec()), cut(want, off, cnt));
        // what is selected: columns in their order, under their names
        auto v = d.db.sqlTemplate<11>().select<Col(&Xt::s).as<"text">(), Col(&Xt::oa), Col(&Xt::id).as<"key">(), Col(&Xt::l), Col(&Xt::os).as<"maybe">(), Col(&Xt::d), Col(&Xt::f)>().from<Xt>().orderBy<Col(&Xt::id).asc()>().exec(); vf::check(v.size() == d.x.size(), "rows", "select columns"); for (std::size_t i = 0; i < v.size() && i < d.x.size(); ++i) { auto& x = d.x[i]; auto& g = v[i]; vf::eval(7); vf::check(g.get<"text">() == x.s && g.get<0>() == x.s && g.get<1>() == x.oa && g.get<"key">() == x.id && g.get<3>() == x.l && g.get<"maybe">() == x.os && g.get<5>() == x.d && g.get<6>() == x.f, "value", [&] { return "columns of row " + S(x.id) + " s='" + vf::esc(g.get<0>()) + "'"; }); }
        d.intact("order"); sig += show(o1) + show(o2); vf::note("queries", 11); } } catch (std::exception const& x) { vf::fail("error", x.what()); }
    vf::sig(sig);
}
// ---- aggregates and groups
struct Agg { i64 n = 0, cOa = 0, sumA = 0; std::set<std::string> ds; std::set<i32> da; double sumF = 0; std::optional<double> avgOd, sumOd; int nOd = 0; std::string minS, maxS; std::optional<i32> minOa, maxOa; std::optional<i64> sumOa; i64 minL = 0, maxL = 0;
    void add(X const& x) { if (!n || x.s < minS) minS = x.s; if (!n || maxS < x.s) maxS = x.s; if (!n || x.l < minL) minL = x.l; if (!n || x.l > maxL) maxL = x.l; ++n; sumA += x.a; sumF += x.f; ds.insert(x.s); da.insert(x.a); if (x.oa) { ++cOa; minOa = minOa ? std::min(*minOa, *x.oa) : *x.oa; maxOa = maxOa ? std::max(*maxOa, *x.oa) : *x.oa; sumOa = sumOa.value_or(0) + *x.oa; } } };
#define AGGS count<Col(&Xt::id)>, countAll<Col(&Xt::id)>, count<Col(&Xt::oa)>, countDistinct<Col(&Xt::s)>, sum<Col(&Xt::a)>, avg<Col(&Xt::a)>, sum<Col(&Xt::f)>, min<Col(&Xt::s)>, max<Col(&Xt::s)>, min<Col(&Xt::oa)>, max<Col(&Xt::oa)>, sum<Col(&Xt::oa)>.as<"total">(), min<Col(&Xt::l)>, max<Col(&Xt::l)>, avg<Col(&Xt::oa)>, countDistinct<Col(&Xt::a)>
template <std::size_t O, class G> static void aggSame(char const* what, G const& g, Agg const& a) { vf::eval(16); char const* bad = nullptr; auto t = [&](bool ok, char const* n) { if (!ok && !bad) bad = n; };
    t(g.template get<O>() == a.n, "count(id)"); t(g.template get<O + 1>() == a.n, "count(*)"); t(g.template get<O + 2>() == a.cOa, "count(oa)"); t(g.template get<O + 3>() == (i64)a.ds.size(), "count(distinct s)"); t(g.template get<O + 4>() == a.sumA, "sum(a)"); t(g.template get<O + 5>() == (a.n ? (double)a.sumA / (double)a.n : 0), "avg(a)"); t(g.template get<O + 6>() == a.sumF, "sum(f)"); t(g.template get<O + 7>() == a.minS, "min(s)"); t(g.template get<O + 8>() == a.maxS, "max(s)"); t(g.template get<O + 9>() == a.minOa, "min(oa)"); t(g.template get<O + 10>() == a.maxOa, "max(oa)"); t(g.template get<O + 11>() == a.sumOa && g.template get<"total">() == a.sumOa, "sum(oa)"); t(g.template get<O + 12>() == a.minL, "min(l)"); t(g.template get<O + 13>() == a.maxL, "max(l)"); t(g.template get<O + 14>() == (a.sumOa ? std::optional<double>((double)*a.sumOa / (double)a.cOa) : std::nullopt), "avg(oa)"); t(g.template get<O + 15>() == (i64)a.da.size(), "count(distinct a)");
    vf::check(!bad, "aggregate", [&] { return std::string(what) + ": " + bad + " over " + S(a.n) + " rows is wrong"; }); }
VF_SECTION("aggregates", 300, 8000) {
    auto& r = rng; Data d; vf::setCase("aggregates " + S(index)); vf::Watch w("hang|a query does not come back", 60); std::string sig;
    try { for (int k = 0; k < 3; ++k) { d.fill(r); i32 lim = smallInt(r); auto str = r.chance(0.6) && d.x.size() ? r.pick(d.x).s : hostile(r);
        { Agg a; for (auto& x : d.x) a.add(x); auto v = d.db.sqlTemplate<1>().select<AGGS>().from<Xt>().exec(); vf::check(v.size() == 1, "rows", "an aggregate without groups gives one row"); if (v.size() == 1) aggSame<0>("whole table", v[0], a); }
        { Agg a; for (auto& x : d.x) if (x.a < lim && x.s != str) a.add(x); auto v = d.db.sqlTemplate<2>().select<AGGS>().from<Xt>().where<Col(&Xt::a) < param<i32> && Col(&Xt::s) != param<str_>>(lim, str).exec(); vf::check(v.size() == 1, "rows", "an aggregate without groups gives one row"); if (v.size() == 1) aggSame<0>("filtered", v[0], a); }
        { std::map<i32, Agg> m; for (auto& x : d.x) m[x.a].add(x); auto v = d.db.sqlTemplate<3>().select<Col(&Xt::a), AGGS>().from<Xt>().groupBy<&Xt::a>().orderBy<Col(&Xt::a).asc()>().exec(); vf::eval(1); vf::check(v.size() == m.size(), "rows", "groups"); auto it = m.begin(); for (auto& g : v) { if (it == m.end()) break; vf::check(g.get<0>() == it->first, "group", "order of groups"); aggSame<1>("group by a", g, it->second); ++it; } }
        { std::map<std::pair<std::string, i32>, Agg> m; for (auto& x : d.x) if (x.oa && *x.oa >= lim) m[{x.s, x.b}].add(x); std::erase_if(m, [&](auto& e) { return !(e.first.second > lim || e.first.first == str); });
          auto v = d.db.sqlTemplate<4>().select<Col(&Xt::b), Col(&Xt::s), AGGS>().from<Xt>().where<Col(&Xt::oa) >= param<i32>>(lim).groupBy<Col(&Xt::s), Col(&Xt::b)>().having<(Col(&Xt::b) > param<i32>) || Col(&Xt::s) == param<str_>>(lim, str).orderBy<Col(&Xt::s).asc(), Col(&Xt::b).asc()>().exec(); vf::eval(1); vf::check(v.size() == m.size(), "rows", [&] { return "where/group/having: " + S((long)v.size()) + " groups instead of " + S((long)m.size()); }); auto it = m.begin(); for (auto& g : v) { if (it == m.end()) break; vf::check(g.get<1>() == it->first.first && g.get<0>() == it->first.second, "group", "order of groups"); aggSame<2>("group by s, b", g, it->second); ++it; }
          auto u = d.db.sqlTemplate<5>().select<Col(&Xt::b), Col(&Xt::s), AGGS>().from<Xt>().where<Col(&Xt::oa) >= param<i32>.bind<"o">()>(bind<"o">.link(lim)).groupBy<&Xt::s, &Xt::b>().having<(Col(&Xt::b) > param<i32>.bind<"b">()) || Col(&Xt::s) == param<str_>.bind<"s">()>(bind<"s">.link(str), bind<"b">.link(lim)).orderBy<Col(&Xt::s).asc(), Col(&Xt::b).asc()>().limit<param<i64>, param<i64>>(i64{1}, i64{3}).exec(); std::vector<Agg> cutm; int n = 0; for (auto& [key, a] : m) { if (n >= 1 && n < 4) cutm.push_back(a); ++n; } vf::eval(1); if (vf::check(u.size() == cutm.size(), "rows", "groups with a limit")) for (std::size_t i = 0; i < u.size(); ++i) aggSame<2>("group by s, b limit", u[i], cutm[i]); }
        { auto v = d.db.sqlTemplate<6>().select<Col(&Xt::oa), count<Col(&Xt::id)>>().from<Xt>().groupBy<&Xt::oa>().exec(); std::map<std::optional<i32>, i64> want, got; for (auto& x : d.x) ++want[x.oa]; for (auto& g : v) got[g.get<0>()] += g.get<1>(); vf::eval(1); vf::check(got == want && v.size() == want.size(), "group", "groups of an optional column"); }
        d.intact("aggregates"); vf::note("queries", 6); sig += S((long)d.x.size()) + S(lim) + str; } } catch (std::exception const& x) { vf::fail("error", x.what()); }
    vf::sig(sig);
}
// ---- joins
template <class T> static std::string row(T const& t) { return std::apply([](auto&... v) { return ((cellStr(v) + "|") + ...); }, t); }
using Bag = std::multiset<std::string>;
template <class V_> static Bag bag(V_ const& v) { Bag b; for (auto& e : v) b.insert(row(e.gets())); return b; }
static void sameBag(char const* what, Bag const& got, Bag const& want) { vf::eval(1 + want.size()); vf::check(got == want, "rows", [&] { std::string e; for (auto& s : want) if (got.count(s) != want.count(s)) { e = " missing " + s; break; } if (e.empty()) for (auto& s : got) if (got.count(s) != want.count(s)) { e = " extra " + s; break; } return std::string(what) + ": " + S((long)got.size()) + " rows instead of " + S((long)want.size()) + "," + e; }); }
VF_SECTION("joins", 250, 8000) {
    auto& r = rng; Data d; vf::setCase("joins " + S(index)); vf::Watch w("hang|a query does not come back", 60); std::string sig;
    try { for (int k = 0; k < 3; ++k) { d.fill(r); i32 p1 = smallInt(r), p2 = smallInt(r); auto str = r.chance(0.6) && d.y.size() ? r.pick(d.y).s : hostile(r); Y const none{}; Z const noz{}; X const nox{};
        #define XY Col(&Xt::id), Col(&Xt::s), Col(&Yt::id), Col(&Yt::v), Col(&Yt::s), Col(&Yt::o)
        auto put = [&](Bag& b, X const& x, Y const& y) { b.insert(row(std::tuple{x.id, x.s, y.id, y.v, y.s, y.o})); };
        { Bag want; for (auto& x : d.x) for (auto& y : d.y) if (x.a == y.k) put(want, x, y); sameBag("join", bag(d.db.sqlTemplate<1>().select<XY>().from<Xt>().join<Yt>().on<Col(&Xt::a) == Col(&Yt::k)>().exec()), want); }
        { Bag want; for (auto& x : d.x) for (auto& y : d.y) if (x.a == y.k && y.v > p1 && (x.b == p2 || y.s == str)) put(want, x, y); sameBag("join with parameters", bag(d.db.sqlTemplate<2>().select<XY>().from<Xt>().join<Yt>().on<Col(&Xt::a) == Col(&Yt::k) && (Col(&Yt::v) > param<i32>)>(p1).where<Col(&Xt::b) == param<i32> || Col(&Yt::s) == param<str_>>(p2, str).exec()), want); }
        { Bag want; for (auto& x : d.x) { bool any = false; for (auto& y : d.y) if (x.a == y.k && y.v > p1) put(want, x, y), any = true; if (!any) put(want, x, none); } sameBag("left join", bag(d.db.sqlTemplate<3>().select<XY>().from<Xt>().leftJoin<Yt>().on<Col(&Xt::a) == Col(&Yt::k) && (Col(&Yt::v) > param<i32>)>(p1).exec()), want); }
        { Bag want; for (auto& y : d.y) { bool any = false; for (auto& x : d.x) if (x.s == y.s) put(want, x, y), any = true; if (!any) put(want, nox, y); } sameBag("right join", bag(d.db.sqlTemplate<4>().select<XY>().from<Xt>().rightJoin<Yt>().on<Col(&Xt::s) == Col(&Yt::s)>().exec()), want); }
        { Bag want; for (auto& x : d.x) { bool any = false; for (auto& y : d.y) if (x.a == y.k) any = true; if (!any) put(want, x, none); } sameBag("left join, only rows without partner", bag(d.db.sqlTemplate<5>().select<XY>().from<Xt>().leftJoin<Yt>().on<Col(&Xt::a) == Col(&Yt::k)>().where<Col(&Yt::o).isNull() && !Col(&Yt::id) || Col(&Yt::o).isNull()>().exec()), [&] { Bag b = want; for (auto& x : d.x) for (auto& y : d.y) if (x.a == y.k && !y.o) put(b, x, y); return b; }()); }
        { Bag want; auto put3 = [&](X const& x, Y const& y, Z const& z) { want.insert(row(std::tuple{z.n, x.id, y.id, z.ref})); }; for (auto& x : d.x) for (auto& y : d.y) if (x.a == y.k && x.b > p1) { bool any = false; for (auto& z : d.z) if (z.k == y.k && z.n != str) { any = true; if (y.v < p2) put3(x, y, z); } if (!any && y.v < p2) put3(x, y, noz); }
          sameBag("two joins", bag(d.db.sqlTemplate<6>().select<Col(&Zt::n), Col(&Xt::id), Col(&Yt::id), Col(&Zt::ref)>().from<Xt>().join<Yt>().on<Col(&Xt::a) == Col(&Yt::k) && (Col(&Xt::b) > param<i32>)>(p1).leftJoin<Zt>().on<Col(&Zt::k) == Col(&Yt::k) && Col(&Zt::n) != param<str_>>(str).where<Col(&Yt::v) < param<i32>>(p2).exec()), want); }
        { std::map<i32, std::pair<i64, i64>> m; for (auto& x : d.x) for (auto& y : d.y) if (x.a == y.k && x.b != p1) { auto& e = m[y.k]; ++e.first; e.second += y.v; } std::erase_if(m, [&](auto& e) { return !(e.first >= p2); }); auto v = d.db.sqlTemplate<7>().select<Col(&Yt::k), countAll<Col(&Xt::id)>, sum<Col(&Yt::v)>>().from<Xt>().join<Yt>().on<Col(&Xt::a) == Col(&Yt::k)>().where<Col(&Xt::b) != param<i32>>(p1).groupBy<&Yt::k>().having<Col(&Yt::k) >= param<i32>>(p2).orderBy<Col(&Yt::k).desc()>().limit<0, 100>().exec(); vf::eval(1); bool ok = v.size() == m.size(); auto it = m.rbegin(); for (auto& g : v) { if (it == m.rend()) break; ok = ok && g.get<0>() == it->first && g.get<1>() == it->second.first && g.get<2>() == it->second.second; ++it; } vf::check(ok, "group", "groups of a join"); }
        d.intact("joins"); vf::note("queries", 7); sig += S((long)d.x.size()) + S(p1) + str; } } catch (std::exception const& x) { vf::fail("error", x.what()); }
    vf::sig(sig);
}
