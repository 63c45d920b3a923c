// C31: rows come back exactly as stored; mutations change exactly what they say; failing statements change nothing.
#include "db.hpp"
#include <memory>
#include <set>
using namespace dt;

struct Pt { int x = 0, y = 0; bool operator==(Pt const&) const = default; };
struct Tag { std::string v; bool operator==(Tag const&) const = default; };
enum class Kind { A = 0, B = 1, C = 77777 };
// toSql returns a temporary
template <> struct HX::db::CustomType<Pt> {
    using Type = Pt;
    static std::string toSql(Pt const& p) noexcept { return std::to_string(p.x) + ",                                " + std::to_string(p.y); }
    static Pt fromSql(std::string_view s) noexcept { Pt p{}; std::sscanf(std::string(s).c_str(), "%d,%d", &p.x, &p.y); return p; }
};
// toSql returns a reference
template <> struct HX::db::CustomType<Tag> {
    using Type = Tag;
    static std::string const& toSql(Tag const& p) noexcept { return p.v; }
    static Tag fromSql(std::string_view s) noexcept { return {std::string(s)}; }
};
template <> struct HX::db::CustomType<Kind> {
    using Type = Kind;
    static std::string toSql(Kind const& k) noexcept { return "k" + std::to_string((int)k); }
    static Kind fromSql(std::string_view s) noexcept { return (Kind)std::atoi(std::string(s.substr(s.empty() ? 0 : 1)).c_str()); }
};

struct Row {
    AutoIncrementPrimaryKey<std::int64_t> id;
    std::int8_t i8; char c; std::int16_t i16; std::int32_t i32; std::int64_t i64; float f; double d;
    std::string s; Blob b; Pt pt; Tag tag; Kind kind;
    std::optional<std::int32_t> oi; std::optional<std::int64_t> ol; std::optional<double> od; std::optional<std::string> os;
    std::optional<Blob> ob; std::optional<Pt> op; std::optional<Kind> ok;
    Constraint<std::string, attr::Unique> u; Constraint<std::optional<std::int32_t>, attr::NotNull> nn; Constraint<std::optional<std::int64_t>, attr::Unique> uo;
};
#define ROW_COLS Col(&Row::id), Col(&Row::i8), Col(&Row::c), Col(&Row::i16), Col(&Row::i32), Col(&Row::i64), Col(&Row::f), Col(&Row::d), Col(&Row::s), Col(&Row::b), Col(&Row::pt), Col(&Row::tag), Col(&Row::kind), Col(&Row::oi), Col(&Row::ol), Col(&Row::od), Col(&Row::os), Col(&Row::ob), Col(&Row::op), Col(&Row::ok), Col(&Row::u), Col(&Row::nn), Col(&Row::uo)
using Tup = ColumnResult<meta::ValueWrap<ROW_COLS>>::Type;
enum { ID, I8, CH, I16, I32, I64, FL, DB_, ST, BL, PT, TAG, KIND, OI, OL, OD, OS, OB, OP, OK_, U, NN, UO };
static Row toRow(Tup const& t) { return std::apply([](auto&... x) { return Row{{x}...}; }, t); }

static std::int64_t genInt(vf::Rng& r, std::int64_t lo, std::int64_t hi) {
    if (r.chance(0.25)) return lo;
    if (r.chance(0.25)) return hi;
    if (r.chance(0.6)) return std::clamp<std::int64_t>(r.range(-3, 3), lo, hi);
    return std::clamp<std::int64_t>((std::int64_t)r.next() >> r.below(64), lo, hi);
}
static double genDouble(vf::Rng& r) {
    using L = std::numeric_limits<double>;
    if (r.chance(0.4)) return r.pick({0.0, 1.0, -1.0, 0.1, -0.5, 1e300, -1e-300, L::max(), L::lowest(), L::min(), L::denorm_min(), L::infinity(), -L::infinity(), 9007199254740993.0, 123456789.123456789, 1e15, 3.0});
    for (;;) { double d; auto v = r.next(); std::memcpy(&d, &v, 8); if (d == d && d != 0) return d; }
}
static float genFloat(vf::Rng& r) {
    using L = std::numeric_limits<float>;
    if (r.chance(0.4)) return r.pick({0.f, 1.f, -0.1f, 3e38f, L::max(), L::min(), L::denorm_min(), L::infinity(), 16777217.f});
    for (;;) { float d; auto v = (std::uint32_t)r.next(); std::memcpy(&d, &v, 4); if (d == d && d != 0) return d; }
}
template <class T> static T genOf(vf::Rng& r) {
    using L = std::numeric_limits<T>;
    if constexpr (meta::IsOptionalVal<T>) return r.chance(0.4) ? T{} : T{genOf<typename T::value_type>(r)};
    else if constexpr (std::is_integral_v<T>) return (T)genInt(r, L::min(), L::max());
    else if constexpr (std::is_same_v<T, double>) return genDouble(r);
    else if constexpr (std::is_same_v<T, float>) return genFloat(r);
    else if constexpr (std::is_same_v<T, std::string>) return hostile(r);
    else if constexpr (std::is_same_v<T, Blob>) { auto s = hostile(r); return Blob(s.begin(), s.end()); }
    else if constexpr (std::is_same_v<T, Pt>) return Pt{(int)genInt(r, INT32_MIN, INT32_MAX), (int)r.range(-2, 2)};
    else if constexpr (std::is_same_v<T, Tag>) return Tag{hostile(r)};
    else if constexpr (std::is_same_v<T, Kind>) return r.pick({Kind::A, Kind::B, Kind::C});
}
template <class T> static Cell cellOf(T const& v) {
    if constexpr (meta::IsOptionalVal<T>) return v ? cellOf(*v) : Cell{};
    else if constexpr (std::is_integral_v<T>) return cInt((long long)v);
    else if constexpr (std::is_floating_point_v<T>) return cReal((double)v);
    else if constexpr (std::is_same_v<T, std::string>) return cText(v);
    else if constexpr (std::is_same_v<T, Blob>) return cBlob(std::string(v.begin(), v.end()));
    else return cText(CustomType<T>::toSql(v));
}
static std::vector<Cell> cellsOf(Tup const& t) { return std::apply([](auto&... x) { return std::vector<Cell>{cellOf(x)...}; }, t); }
static std::string str(std::vector<Cell> const& v) { std::string s; for (auto& c : v) s += c.str() + " "; return s.substr(0, 900); }
static std::string differ(Tup const& a, Tup const& b) { auto x = cellsOf(a), y = cellsOf(b); for (std::size_t i = 0; i < x.size(); ++i) if (!(x[i] == y[i])) return "column " + S((long)i) + ": " + x[i].str() + " instead of " + y[i].str(); return "equal bytes, different values"; }

using Model = std::map<std::int64_t, Tup>;
struct Env {
    std::string f = file(); DB db; std::unique_ptr<Raw> raw; Model m; std::int64_t top = 0; bool txn = false; Model saved; std::int64_t savedTop = 0;
    void undo() { m = saved; top = savedTop; txn = false; }
    Env() { open(); auto r = db.createDatabase<Row>(); vf::check((bool)r, "create", "createDatabase failed"); raw = std::make_unique<Raw>(f); }
    void open() { db.open(f); db.exec("PRAGMA synchronous=OFF"); }
    ~Env() { raw.reset(); db.close(); drop(f); }
};
static Tup genRow(vf::Rng& r, std::int64_t id) {
    Tup t; std::apply([&](auto&... x) { ((x = genOf<std::remove_reference_t<decltype(x)>>(r)), ...); }, t);
    std::get<ID>(t) = id;
    std::get<U>(t) = r.chance(0.5) ? "u" + S(r.range(0, 30)) : hostile(r);
    std::get<NN>(t) = r.chance(0.06) ? std::nullopt : std::optional<int>((int)r.range(-9, 9));
    if (std::get<UO>(t)) std::get<UO>(t) = r.range(0, 60);
    return t;
}
static bool clash(Model const& m, Tup const& t, std::int64_t self) {
    if (!std::get<NN>(t)) return true;
    for (auto& [id, o] : m) if (id != self && (std::get<U>(o) == std::get<U>(t) || (std::get<UO>(o) && std::get<UO>(o) == std::get<UO>(t)))) return true;
    return false;
}
template <class F> static bool works(char const* what, F&& f) {
    try { f(); return true; } catch (std::exception const& e) { if (!*e.what()) vf::fail("error", std::string(what) + ": an error without a message"); return false; }
    catch (...) { vf::fail("error", std::string(what) + ": the thrown error is not a std::exception"); return false; }
}
static void sameRows(char const* what, std::vector<ColumnResult<meta::ValueWrap<ROW_COLS>>> const& got, Model const& want, bool ordered) {
    vf::eval(1 + got.size());
    vf::check(got.size() == want.size(), "rows", [&] { return std::string(what) + ": " + S((long)got.size()) + " rows instead of " + S((long)want.size()); });
    std::int64_t last = INT64_MIN; std::set<std::int64_t> seen;
    for (auto& g : got) {
        auto& t = g.gets(); auto id = std::get<ID>(t); auto it = want.find(id);
        if (!vf::check(it != want.end() && seen.insert(id).second, "rows", [&] { return std::string(what) + ": row " + S(id) + " should not be there (again)"; })) continue;
        vf::check(t == it->second, "value", [&] { return std::string(what) + ", row " + S(id) + ": " + differ(t, it->second); });
        if (ordered) vf::check(id > last, "order", [&] { return std::string(what) + ": rows not ordered by id"; });
        last = id;
    }
}
static void audit(Env& e, char const* what) {
    if (!e.txn) {
        auto rows = e.raw->rows("SELECT * FROM Row ORDER BY id"); vf::eval(1 + rows.size());
        vf::check(rows.size() == e.m.size(), "stored", [&] { return std::string(what) + ": the file has " + S((long)rows.size()) + " rows instead of " + S((long)e.m.size()); });
        std::size_t i = 0;
        for (auto& [id, t] : e.m) { if (i >= rows.size()) break; auto want = cellsOf(t); vf::check(rows[i] == want, "stored", [&] { std::string s = std::string(what) + ", row " + S(id) + ": "; for (std::size_t k = 0; k < want.size(); ++k) if (k >= rows[i].size() || !(rows[i][k] == want[k])) return s + "column " + S((long)k) + " holds " + (k < rows[i].size() ? rows[i][k].str() : "nothing") + " instead of " + want[k].str(); return s; }); ++i; }
        auto err = e.raw->run("BEGIN EXCLUSIVE; ROLLBACK");
        vf::check(err.empty(), "lock", [&] { return std::string(what) + ": the database stays locked after the statement: " + err; });
    } else sameRows(what, e.db.sqlTemplate<"audit"_fs>().select<ROW_COLS>().from<Row>().orderBy<Col(&Row::id).asc()>().exec(), e.m, true);
}
// conditions: an expression, a generator for its argument, and what it means
struct ById { static constexpr int id = 100; static constexpr auto expr = Col(&Row::id) == param<std::int64_t>; using A = std::int64_t; static A gen(vf::Rng& r, Env& e) { if (e.m.empty() || r.chance(0.2)) return r.range(-2, 60); auto it = e.m.begin(); std::advance(it, (long)r.below(e.m.size())); return it->first; } static bool hit(Tup const& t, A const& a) { return std::get<ID>(t) == a; } };
struct ByI16 { static constexpr int id = 101; static constexpr auto expr = Col(&Row::i16) < param<std::int16_t>; using A = std::int16_t; static A gen(vf::Rng& r, Env&) { return genOf<A>(r); } static bool hit(Tup const& t, A const& a) { return std::get<I16>(t) < a; } };
template <int N, auto C> struct Same { static constexpr int id = 200 + N; using A = meta::RemoveOptionalWrapType<std::tuple_element_t<(std::size_t)N, Tup>>; static constexpr auto expr = C == param<A>; static A gen(vf::Rng& r, Env& e) { for (auto& [k, t] : e.m) if (r.chance(0.3)) { auto& v = std::get<(std::size_t)N>(t); if constexpr (meta::IsOptionalVal<std::tuple_element_t<(std::size_t)N, Tup>>) { if (v) return *v; } else return v; } return genOf<A>(r); } static bool hit(Tup const& t, A const& a) { return std::get<(std::size_t)N>(t) == a; } };
template <class W> static Model matching(Env& e, typename W::A const& a) { Model h; for (auto& [id, t] : e.m) if (W::hit(t, a)) h.emplace(id, t); return h; }

template <class W> static void query(Env& e, vf::Rng& r) {
    auto a = W::gen(r, e); auto want = matching<W>(e, a);
    if (r.chance(0.5)) { sameRows("select where", e.db.sqlTemplate<W::id, 1>().template select<ROW_COLS>().template from<Row>().template where<W::expr>(a).template orderBy<Col(&Row::id).asc()>().exec(), want, true); }
    else { auto t = e.db.sqlTemplate<W::id, 2>().template select<ROW_COLS>().template from<Row>().template where<W::expr>(typename W::A(a)).execNoThrow(); if (vf::check((bool)t, "select", [&] { return "select failed: " + t.what(); })) sameRows("select where", t.get(), want, false); }
    vf::note("selects");
}
template <class W> static void change(Env& e, vf::Rng& r) {
    auto a = W::gen(r, e); auto hit = matching<W>(e, a); auto v = genOf<std::int32_t>(r); auto s = hostile(r); auto o = genOf<std::optional<double>>(r);
    auto next = e.m; for (auto& [id, t] : hit) { auto& n = next[id]; std::get<I32>(n) = v; std::get<ST>(n) = s; std::get<OD>(n) = o; t = n; }
    switch (r.below(4)) {
        case 0: { auto n = e.db.sqlTemplate<W::id, 3>().template update<&Row::i32, &Row::s, &Row::od>(v, s, o).template where<W::expr>(a).execGetChanges(); vf::check(n == hit.size(), "changes", [&] { return "update reports " + S((long)n) + " changes instead of " + S((long)hit.size()); }); break; }
        case 1: { auto res = e.db.sqlTemplate<W::id, 4>().template update<&Row::i32, &Row::s, &Row::od>(v, s, o).template where<W::expr>(a).template returning<ROW_COLS>().execNoThrowGetChanges(); if (vf::check((bool)res, "update", [&] { return "update failed: " + res.what(); })) { sameRows("update returning", res.get().columnRes, hit, false); vf::check(res.get().changes == hit.size(), "changes", [&] { return "update returning reports " + S((long)res.get().changes) + " changes instead of " + S((long)hit.size()); }); } break; }
        case 2: { auto res = e.db.sqlTemplate<W::id, 5>().template update<&Row::i32, &Row::s, &Row::od>(v, s, o).template where<W::expr>(a).execNoThrow(); vf::check((bool)res, "update", "update failed"); break; }
        default: e.db.sqlTemplate<W::id, 6>().template update<&Row::i32, &Row::s, &Row::od>(v, s, o).template where<W::expr>(a).exec();
    }
    e.m = next; vf::eval(2); vf::note("updates");
}
template <class W> static void remove(Env& e, vf::Rng& r) {
    auto a = W::gen(r, e); auto hit = matching<W>(e, a); for (auto& [id, t] : hit) e.m.erase(id);
    switch (r.below(3)) {
        case 0: { auto n = e.db.sqlTemplate<W::id, 7>().template deleteForm<Row>().template where<W::expr>(a).execGetChanges(); vf::check(n == hit.size(), "changes", [&] { return "delete reports " + S((long)n) + " changes instead of " + S((long)hit.size()); }); break; }
        case 1: { auto res = e.db.sqlTemplate<W::id, 8>().template deleteForm<Row>().template where<W::expr>(a).template returning<ROW_COLS>().exec(); sameRows("delete returning", res, hit, false); break; }
        default: { auto res = e.db.sqlTemplate<W::id, 9>().template deleteForm<Row>().template where<W::expr>(a).execNoThrowGetChanges(); if (vf::check((bool)res, "delete", "delete failed")) vf::check(res.get() == hit.size(), "changes", [&] { return "delete reports " + S((long)res.get()) + " instead of " + S((long)hit.size()); }); }
    }
    vf::eval(2); vf::note("deletes");
}
// multi-row change of a unique column: fails in the middle when it would give two rows the same value
template <class W> static void uniqueAll(Env& e, vf::Rng& r) {
    auto a = W::gen(r, e); auto hit = matching<W>(e, a); std::string v = "u" + S(r.range(0, 30)); bool bad = hit.size() > 1; for (auto& [id, t] : e.m) if (!hit.count(id) && std::get<U>(t) == v) bad |= !hit.empty();
    bool ok; switch (r.below(3)) {
        case 0: ok = works("unique update", [&] { e.db.sqlTemplate<W::id, 10>().template update<&Row::u>(v).template where<W::expr>(a).exec(); }); break;
        case 1: ok = (bool)e.db.sqlTemplate<W::id, 11>().template update<&Row::u>(v).template where<W::expr>(a).execNoThrowGetChanges(); break;
        default: ok = works("unique update", [&] { auto res = e.db.sqlTemplate<W::id, 12>().template update<&Row::u>(v).template where<W::expr>(a).template returning<ROW_COLS>().exec(); vf::check(res.size() == hit.size(), "rows", "rows of the unique update"); }); }
    vf::eval(2); vf::check(ok == !bad, "constraint", [&] { return "update of " + S((long)hit.size()) + " rows to one unique value " + (ok ? "succeeded" : "failed"); });
    if (!bad) for (auto& [id, t] : hit) std::get<U>(e.m[id]) = v; else vf::note("failing statements");
}
static void insertOne(Env& e, vf::Rng& r) {
    auto t = genRow(r, r.range(-5, 50)); auto row = toRow(t); bool bad = clash(e.m, t, INT64_MIN), ok = false; std::int64_t got = -1; bool knows = false;
    switch (r.below(5)) {
        case 0: ok = works("insert", [&] { e.db.sqlTemplate<"ins"_fs, 0>().insert<Row>(row).exec(); }); break;
        case 1: ok = (bool)e.db.sqlTemplate<"ins"_fs, 1>().insert<Row>(row).execNoThrow(); break;
        case 2: ok = works("insert", [&] { auto res = e.db.sqlTemplate<"ins"_fs, 2>().insert<Row>(row).returning<ROW_COLS>().exec(); got = res.get<0>(); knows = true; auto w = t; std::get<ID>(w) = got; vf::check(res.gets() == w, "value", [&] { return "insert returning: " + differ(res.gets(), w); }); }); break;
        case 3: { auto res = e.db.sqlTemplate<"ins"_fs, 3>().insert<Row>(row).returning<&Row::s, &Row::id, &Row::od>().execNoThrow(); ok = (bool)res; if (ok) { got = res.get().get<1>(); knows = true; vf::check(res.get().get<0>() == std::get<ST>(t) && res.get().get<2>() == std::get<OD>(t), "value", "insert returning some columns"); } break; }
        default: { // every column but the key, in another order
            ok = works("insert", [&] { e.db.sqlTemplate<"ins"_fs, 4>().insert<&Row::uo, &Row::nn, &Row::u, &Row::ok, &Row::op, &Row::ob, &Row::os, &Row::od, &Row::ol, &Row::oi, &Row::kind, &Row::tag, &Row::pt, &Row::b, &Row::s, &Row::d, &Row::f, &Row::i64, &Row::i32, &Row::i16, &Row::c, &Row::i8>(std::get<UO>(t), std::get<NN>(t), std::get<U>(t), std::get<OK_>(t), std::get<OP>(t), std::get<OB>(t), std::get<OS>(t), std::get<OD>(t), std::get<OL>(t), std::get<OI>(t), std::get<KIND>(t), std::get<TAG>(t), std::get<PT>(t), std::get<BL>(t), std::get<ST>(t), std::get<DB_>(t), std::get<FL>(t), std::get<I64>(t), std::get<I32>(t), std::get<I16>(t), std::get<CH>(t), std::get<I8>(t)).exec(); }); } }
    vf::eval(3); vf::check(ok == !bad, "constraint", [&] { return std::string("an insert that ") + (bad ? "violates a constraint succeeded" : "is fine failed"); }); if (!ok) { vf::note("failing statements"); return; }
    auto ids = e.db.sqlTemplate<"newest"_fs>().select<Col(&Row::id)>().from<Row>().orderBy<Col(&Row::id).desc()>().limit<1>().exec();
    if (!vf::check(ids.size() == 1, "rows", "the inserted row is not there")) return; auto id = ids[0].get<0>(); if (knows) vf::check(id == got, "identifier", [&] { return "insert returned id " + S(got) + ", the row has " + S(id); });
    auto after = e.m.empty() ? e.top : std::max(e.top, e.m.rbegin()->first); vf::check(id > after, "identifier", [&] { return "new id " + S(id) + " after " + S(after); }); e.top = std::max(e.top, id); std::get<ID>(t) = id; e.m[id] = t; vf::note("inserts");
}
static void insertKey(Env& e, vf::Rng& r) {
    std::int64_t id = r.chance(0.1) ? -r.range(0, 1000) : r.chance(0.05) ? e.top + r.range(1, 1000000000000) : r.range(1, 60); auto t = genRow(r, id); auto row = toRow(t); bool bad = clash(e.m, t, INT64_MIN) || e.m.count(id);
    bool ok; if (r.chance(0.5)) ok = works("insert with key", [&] { e.db.sqlTemplate<"insk"_fs, 0>().insert<Row, true>(row).exec(); }); else ok = works("insert with key", [&] { auto res = e.db.sqlTemplate<"insk"_fs, 1>().insert<Row, true>(row).returning<&Row::id>().exec(); vf::check(res.get<0>() == id, "identifier", "insert with key returned another id"); });
    vf::eval(2); vf::check(ok == !bad, "constraint", [&] { return "insert with key " + S(id) + (ok ? " succeeded" : " failed"); }); if (ok) { e.m[id] = t; e.top = std::max(e.top, id); } else vf::note("failing statements");
}
static void updateRow(Env& e, vf::Rng& r) {
    auto id = ById::gen(r, e); bool there = e.m.count(id) > 0; bool key = r.chance(0.4); auto t = genRow(r, key ? r.range(1, 60) : id); auto row = toRow(t); auto nid = std::get<ID>(t); bool bad = there && (clash(e.m, t, id) || (key && nid != id && e.m.count(nid))); std::uint64_t n = 0;
    bool ok = works("update row", [&] { n = key ? e.db.sqlTemplate<"upd"_fs, 0>().update<Row, true>(row).where<Col(&Row::id) == param<std::int64_t>>(id).execGetChanges() : e.db.sqlTemplate<"upd"_fs, 1>().update<Row>(row).where<Col(&Row::id) == param<std::int64_t>>(id).execGetChanges(); });
    vf::eval(3); vf::check(ok == !bad, "constraint", [&] { return "update of row " + S(id) + (ok ? " succeeded" : " failed"); }); if (ok) vf::check(n == (there ? 1u : 0u), "changes", [&] { return "update of one row reports " + S((long)n); }); else vf::note("failing statements");
    if (ok && there) { e.m.erase(id); e.m[nid] = t; }
}
static void everything(Env& e, vf::Rng& r) {
    switch (r.below(6)) {
        case 0: { auto v = genOf<std::optional<std::int32_t>>(r); for (auto& [id, t] : e.m) std::get<OI>(t) = v; auto res = e.db.sqlTemplate<"all"_fs, 0>().update<&Row::oi>(v).returning<ROW_COLS>().execGetChanges(); sameRows("update all returning", res.columnRes, e.m, false); vf::check(res.changes == e.m.size(), "changes", "update of all rows"); break; }
        case 1: { auto v = genOf<Blob>(r); auto p = genOf<std::optional<Pt>>(r); for (auto& [id, t] : e.m) std::get<BL>(t) = v, std::get<OP>(t) = p; auto n = e.db.sqlTemplate<"all"_fs, 1>().update<&Row::b, &Row::op>(v, p).execGetChanges(); vf::check(n == e.m.size(), "changes", "update of all rows"); break; }
        case 5: { auto v = genOf<std::string>(r); auto a = genOf<std::int32_t>(r); auto b = genOf<std::int64_t>(r); auto c = genOf<std::optional<double>>(r); auto o = genOf<std::optional<std::string>>(r); for (auto& [id, t] : e.m) std::get<ST>(t) = v, std::get<I32>(t) = a, std::get<I64>(t) = b, std::get<OD>(t) = c, std::get<OS>(t) = o; auto n = e.db.sqlTemplate<"all"_fs, 5>().update<&Row::os, &Row::i32, &Row::od, &Row::i64, &Row::s>(o, a, c, b, v).execGetChanges(); vf::check(n == e.m.size(), "changes", "update of all rows"); break; }
        case 2: if (r.chance(0.3)) { auto n = e.db.sqlTemplate<"all"_fs, 2>().deleteForm<Row>().execGetChanges(); vf::check(n == e.m.size(), "changes", [&] { return "delete of all rows reports " + S((long)n); }); e.m.clear(); break; } [[fallthrough]];
        default: sameRows("select all", e.db.sqlTemplate<"all"_fs, 3>().select<ROW_COLS>().from<Row>().exec(), e.m, false); }
    vf::eval(1);
}
// another connection holds the write lock: every mutation must fail, change nothing, and work afterwards
static void locked(Env& e, vf::Rng& r) {
    if (e.txn) return; auto err = e.raw->run("BEGIN IMMEDIATE"); if (!vf::check(err.empty(), "lock", [&] { return "no write lock to be had: " + err; })) return;
    auto t = genRow(r, 0); auto row = toRow(t); bool ok = true; auto id = ById::gen(r, e);
    switch (r.below(4)) { case 0: ok = works("locked", [&] { e.db.sqlTemplate<"ins"_fs, 0>().insert<Row>(row).exec(); }); break; case 1: ok = works("locked", [&] { e.db.sqlTemplate<"ins"_fs, 2>().insert<Row>(row).returning<ROW_COLS>().exec(); }); break; case 2: ok = (bool)e.db.sqlTemplate<ById::id, 9>().deleteForm<Row>().where<ById::expr>(id).execNoThrowGetChanges(); break; default: ok = works("locked", [&] { e.db.sqlTemplate<"all"_fs, 0>().update<&Row::oi>(std::optional<int>{}).returning<ROW_COLS>().execGetChanges(); }); }
    vf::check(!ok, "locked", "a mutation reported success although another connection holds the write lock"); sameRows("select under a lock", e.db.sqlTemplate<"all"_fs, 3>().select<ROW_COLS>().from<Row>().exec(), e.m, false); e.raw->run("ROLLBACK"); vf::eval(2); vf::note("lock conflicts");
}
static void transaction(Env& e, vf::Rng& r) {
    if (!e.txn) { e.saved = e.m; e.savedTop = e.top; e.db.exec("BEGIN"); e.txn = true; return; }
    e.txn = false; if (r.chance(0.5)) { e.db.exec("ROLLBACK"); e.undo(); vf::note("rollbacks"); } else e.db.exec("COMMIT");
}
static void brokenSql(Env& e, vf::Rng& r) { bool thrown = false; try { e.db.exec(r.pick({"SELEC 1", "INSERT INTO nowhere VALUES(1)", "INSERT INTO Row(id, nn) VALUES(1, NULL)", "'"})); } catch (std::exception const&) { thrown = true; } vf::eval(1); vf::check(thrown, "error", "a broken statement reported success"); }

static void sequence(vf::Rng& r, long index) {
    bool two = r.chance(0.3); std::vector<std::unique_ptr<Env>> es; es.push_back(std::make_unique<Env>()); if (two) es.push_back(std::make_unique<Env>());
    int n = (int)r.range(10, 60); std::string log; vf::Watch w("hang|a database statement does not come back", 60);
    for (int i = 0; i < n; ++i) {
        auto& e = *es[r.below(es.size())]; char const* what = ""; int k = (int)r.below(100); if (e.m.size() > 14 && r.chance(0.3)) k = 60;
        std::string cur; auto at = [&](char const* s) { what = s; cur = s; vf::setCase("sequence " + S(index) + " step " + S(i) + "/" + S(n) + ": " + s + (e.txn ? " in a transaction" : "") + ", rows " + S((long)e.m.size()) + (two ? ", two databases" : "")); };
        try {
            if (k < 22) at("insert"), insertOne(e, r);
            else if (k < 28) at("insert with key"), insertKey(e, r);
            else if (k < 36) at("update row"), updateRow(e, r);
            else if (k < 48) { at("update where"); switch (r.below(6)) { case 0: change<ById>(e, r); break; case 1: change<ByI16>(e, r); break; case 2: change<Same<ST, Col(&Row::s)>>(e, r); break; case 3: change<Same<KIND, Col(&Row::kind)>>(e, r); break; case 4: change<Same<OI, Col(&Row::oi)>>(e, r); break; default: change<Same<DB_, Col(&Row::d)>>(e, r); } }
            else if (k < 53) { at("unique update"); if (r.chance(0.5)) uniqueAll<ById>(e, r); else uniqueAll<ByI16>(e, r); }
            else if (k < 64) { at("delete where"); switch (r.below(5)) { case 0: case 1: remove<ById>(e, r); break; case 2: remove<ByI16>(e, r); break; case 3: remove<Same<TAG, Col(&Row::tag)>>(e, r); break; default: remove<Same<OS, Col(&Row::os)>>(e, r); } }
            else if (k < 80) { at("select where"); switch (r.below(8)) { case 0: query<ById>(e, r); break; case 1: query<ByI16>(e, r); break; case 2: query<Same<ST, Col(&Row::s)>>(e, r); break; case 3: query<Same<BL, Col(&Row::b)>>(e, r); break; case 4: query<Same<PT, Col(&Row::pt)>>(e, r); break; case 5: query<Same<OS, Col(&Row::os)>>(e, r); break; case 6: query<Same<FL, Col(&Row::f)>>(e, r); break; default: query<Same<I64, Col(&Row::i64)>>(e, r); } }
            else if (k < 86) at("all rows"), everything(e, r);
            else if (k < 90) at("locked"), locked(e, r);
            else if (k < 94) at("transaction"), transaction(e, r);
            else if (k < 96) at("broken sql"), brokenSql(e, r);
            else if (k < 98) { at("reopen"); if (e.txn) e.undo(); if (r.chance(0.5)) e.db.close(); e.open(); vf::note("reopened"); }
            else { at("move"); DB other; if (r.chance(0.5)) other = std::move(e.db); else { DB x; x = std::move(e.db); other = std::move(x); } e.db = std::move(other); vf::note("moved"); }
        } catch (std::exception const& x) { vf::fail("error", std::string(what) + " threw " + x.what()); } catch (...) { vf::fail("error", std::string(what) + " threw something that is no std::exception"); }
        try { audit(e, what); } catch (std::exception const& x) { vf::fail("error", std::string("audit after ") + what + " threw " + x.what()); }
        if (two) for (auto& o : es) if (o.get() != &e && !o->txn) { try { audit(*o, "the other database"); } catch (std::exception const& x) { vf::fail("error", x.what()); } }
        log += cur + S((long)e.m.size()); vf::note("statements");
    }
    vf::sig(log);
}
VF_SECTION("sequences", 900, 30000) { sequence(rng, index); }

// tables with keys, constraints, defaults, references and indexes
struct Cp { std::int32_t a; double v; std::string b; std::optional<std::string> w; struct UnionAttr { attr::PrimaryKey<&Cp::a, &Cp::b> pk; }; };
struct Mid { std::string name; Constraint<std::int32_t, attr::PrimaryKey<>> k; std::optional<double> v; };
struct Nk { std::string a; std::int64_t b; };
struct Only { AutoIncrementPrimaryKey<std::int64_t> id; };
struct Df { AutoIncrementPrimaryKey<std::int64_t> id; std::string x; Constraint<std::string, attr::DefaultVal<"it's; DROP TABLE Df"_fs>> s; Constraint<std::int32_t, attr::DefaultVal<-3>> k; Constraint<double, attr::DefaultVal<0.1>> d; Constraint<std::int64_t, attr::NotNull, attr::DefaultVal<9007199254740993L>> l; Constraint<std::optional<std::string>, attr::DefaultVal<""_fs>> e; std::optional<std::int32_t> o; inline static constexpr std::string_view TableName = "defaults_table"; };
struct Par { AutoIncrementPrimaryKey<std::int64_t> id; Constraint<std::int32_t, attr::Index<>> n; std::string s; struct UnionAttr { attr::Index<attr::IndexOrder<&Par::s, attr::Order::Desc>, attr::IndexOrder<&Par::n>> i; }; inline static constexpr std::string_view TableName = "parents"; };
struct Kid { AutoIncrementPrimaryKey<std::int64_t> id; Constraint<std::int64_t, attr::Foreign<&Par::id>> par; Constraint<std::string, attr::NotNull, attr::Unique> s; Constraint<std::int32_t, attr::DescIndex> n; };
struct Ref { std::int64_t id; std::int32_t toA; std::string b2; struct UnionAttr { attr::UnionForeign<attr::ForeignMap<&Ref::toA, &Cp::a>, attr::ForeignMap<&Ref::b2, &Cp::b>> f; }; };

static void tables(vf::Rng& r, long index) {
    vf::setCase("tables " + S(index)); vf::Watch w("hang|a database statement does not come back", 60); auto f = file(); std::string log;
    { DB db{f}; db.exec("PRAGMA synchronous=OFF; PRAGMA foreign_keys=ON"); Raw raw(f);
      auto make = [&](char const* n, container::Try<> t, bool want = true) { vf::eval(1); vf::check((bool)t == want, "create", [&] { return std::string("creating ") + n + (want ? " failed: " + t.what() : std::string(" a second time succeeded")); }); };
      make("Cp", db.createDatabase<Cp>()); make("Mid", db.createDatabase<Mid>()); make("Nk", db.createDatabase<Nk>()); make("Df", db.createDatabase<Df>()); make("Par", db.createDatabase<Par>()); make("Kid", db.createDatabase<Kid>()); make("Ref", db.createDatabase<Ref>());
      // composite key
      std::map<std::pair<int, std::string>, std::pair<double, std::optional<std::string>>> cp; std::map<int, std::pair<std::string, std::optional<double>>> mid; std::vector<std::pair<std::string, std::int64_t>> nk;
      int n = (int)r.range(5, 30); for (int i = 0; i < n; ++i) { vf::setCase("tables " + S(index) + " step " + S(i));
        try { switch (r.below(9)) {
            case 0: case 1: { int a = (int)r.range(0, 3); std::string b = r.pick({"", "x", "'", "X"}); auto v = genDouble(r); auto o = genOf<std::optional<std::string>>(r); bool ok = works("insert", [&] { db.sqlTemplate<1>().insert<Cp, true>(Cp{a, v, b, o}).exec(); }); vf::eval(1); vf::check(ok == !cp.count({a, b}), "constraint", "insert with a composite key"); if (ok) cp[{a, b}] = {v, o}; log += "i"; break; }
            case 2: { int a = (int)r.range(0, 3); std::string b = r.pick({"", "x", "'", "X"}); auto v = genDouble(r); auto o = genOf<std::optional<std::string>>(r); auto c = db.sqlTemplate<2>().update<Cp>(Cp{99, v, "no", o}).where<Col(&Cp::a) == param<std::int32_t> && Col(&Cp::b) == param<std::string>>(a, b).execGetChanges(); bool there = cp.count({a, b}); vf::eval(1); vf::check(c == there, "changes", "update by a composite key"); if (there) cp[{a, b}] = {v, o}; log += "u"; break; }
            case 3: { int k = (int)r.range(-2, 5); auto s = hostile(r); auto v = genOf<std::optional<double>>(r); bool ok = works("insert", [&] { db.sqlTemplate<3>().insert<Mid, true>(Mid{s, {k}, v}).exec(); }); vf::eval(1); vf::check(ok == !mid.count(k), "constraint", "insert with a key in the middle"); if (ok) mid[k] = {s, v}; log += "m"; break; }
            case 4: { auto s = hostile(r); auto v = genOf<std::optional<double>>(r); auto res = db.sqlTemplate<4>().insert<Mid>(Mid{s, {12345}, v}).returning<&Mid::k>().exec(); int k = res.get<0>(); vf::eval(1); vf::check(!mid.count(k) && k != 12345, "identifier", "insert without key"); mid[k] = {s, v}; log += "M"; break; }
            case 5: { if (mid.empty()) break; int k = mid.begin()->first; auto s = hostile(r); auto v = genOf<std::optional<double>>(r); auto c = db.sqlTemplate<5>().update<Mid>(Mid{s, {777}, v}).where<Col(&Mid::k) == param<std::int32_t>>(k).execGetChanges(); vf::eval(1); vf::check(c == 1, "changes", "update with a key in the middle"); mid[k] = {s, v}; log += "U"; break; }
            case 6: { auto s = hostile(r); auto v = genOf<std::int64_t>(r); db.sqlTemplate<6>().insert<Nk>(Nk{s, v}).exec(); nk.emplace_back(s, v); log += "n"; break; }
            case 7: { auto s = hostile(r); auto c = db.sqlTemplate<7>().deleteForm<Nk>().where<Col(&Nk::a) == param<std::string>>(s).execGetChanges(); auto want = std::erase_if(nk, [&](auto& x) { return x.first == s; }); vf::eval(1); vf::check(c == want, "changes", "delete from a table without key"); log += "d"; break; }
            default: { // creating again keeps everything
                make("Cp again", db.createDatabase<Cp>()); make("Par again", db.createDatabase<Par>()); make("Kid again", db.createDatabase<Kid>()); make("Df again", db.createDatabase<Df>()); if (r.chance(0.5)) { make("Cp", db.createDatabase<Cp, false>(), false); make("Kid", db.createDatabase<Kid, false>(), false); } log += "c"; } }
        } catch (std::exception const& x) { vf::fail("error", x.what()); } catch (...) { vf::fail("error", "something that is no std::exception was thrown"); } }
      { auto a = raw.rows("SELECT a, b, v, w FROM Cp ORDER BY a, b"); std::vector<std::vector<Cell>> want; for (auto& [k, v] : cp) want.push_back({cInt(k.first), cText(k.second), cReal(v.first), v.second ? cText(*v.second) : Cell{}}); vf::eval(3); vf::check(a == want, "stored", "the table with a composite key differs"); auto b = raw.rows("SELECT k, name, v FROM Mid ORDER BY k"); want.clear(); for (auto& [k, v] : mid) want.push_back({cInt(k), cText(v.first), v.second ? cReal(*v.second) : Cell{}}); vf::check(b == want, "stored", "the table with its key in the middle differs"); auto c = raw.rows("SELECT a, b FROM Nk ORDER BY rowid"); want.clear(); for (auto& [s, v] : nk) want.push_back({cText(s), cInt(v)}); vf::check(c == want, "stored", "the table without key differs"); }
      // defaults
      { std::string x = hostile(r); int n = (int)r.range(1, 3); for (int i = 0; i < n; ++i) db.sqlTemplate<20>().insert<&Df::x>(x).exec(); int k = (int)r.range(-5, 5); auto ret = db.sqlTemplate<21>().insert<&Df::k, &Df::x>(k, x).returning<&Df::s, &Df::k, &Df::d, &Df::l, &Df::e, &Df::o>().exec(); vf::eval(2); vf::check(ret.get<0>() == "it's; DROP TABLE Df" && ret.get<1>() == k && ret.get<2>() == 0.1 && ret.get<3>() == 9007199254740993L && ret.get<4>() && ret.get<4>()->empty() && !ret.get<5>(), "default", "returned defaults"); auto rows = raw.rows("SELECT x, s, k, d, l, e, o FROM defaults_table ORDER BY id"); for (std::size_t i = 0; i < rows.size(); ++i) vf::check(rows[i] == std::vector<Cell>{cText(x), cText("it's; DROP TABLE Df"), cInt((int)i == n ? k : -3), cReal(0.1), cInt(9007199254740993L), cText(""), Cell{}}, "default", [&] { return "stored defaults " + str(rows[i]); }); vf::check((int)rows.size() == n + 1, "stored", "rows of the table with defaults"); }
      // nothing but a key that the database chooses
      { make("Only", db.createDatabase<Only>()); std::set<std::int64_t> ids; int n = (int)r.range(1, 4); for (int i = 0; i < n; ++i) ids.insert(r.chance(0.5) ? db.sqlTemplate<25>().insert<Only>(Only{}).returning<&Only::id>().exec().get<0>() : (db.sqlTemplate<26>().insert<Only>(Only{{99}}).exec(), (std::int64_t)std::stoll(raw.rows("SELECT max(id) FROM Only")[0][0].data))); vf::eval(1); vf::check((int)ids.size() == n && !ids.count(99) && raw.rows("SELECT count(*) FROM Only")[0][0] == cInt(n), "identifier", "rows of a table with nothing but a key"); }
      // references, NOT NULL and UNIQUE
      { std::set<std::int64_t> pars; for (int i = 0; i < 3; ++i) pars.insert(db.sqlTemplate<30>().insert<Par>(Par{{}, {(int)r.range(0, 9)}, hostile(r)}).returning<&Par::id>().exec().get<0>()); std::set<std::string> names; std::multiset<std::int64_t> used; for (int i = 0; i < 8; ++i) { auto p = r.range(1, 5); std::string s = "k" + S(r.range(0, 8)); bool ok = (bool)db.sqlTemplate<31>().insert<Kid>(Kid{{}, {p}, {s}, {i}}).execNoThrow(); bool want = pars.count(p) && !names.count(s); vf::eval(1); vf::check(ok == want, "constraint", [&] { return "insert referring to " + S(p) + " named " + s + (ok ? " succeeded" : " failed"); }); if (ok) names.insert(s), used.insert(p); }
        vf::check(!db.sqlTemplate<32>().insert<&Kid::par, &Kid::n>(std::int64_t{1}, 5).execNoThrow(), "constraint", "NOT NULL is not enforced"); for (std::int64_t p = 1; p <= 4; ++p) { auto t = db.sqlTemplate<33>().deleteForm<Par>().where<Col(&Par::id) == param<std::int64_t>>(p).execNoThrowGetChanges(); vf::eval(1); if (used.count(p)) vf::check(!t, "constraint", "a referenced row was deleted"); else vf::check(t && t.get() == pars.count(p), "changes", "delete of a row nothing refers to"); }
        auto k = raw.rows("SELECT count(*) FROM Kid"); vf::check(k[0][0] == cInt((long long)names.size()), "stored", "rows of the referring table");
        for (int i = 0; i < 6; ++i) { int a = (int)r.range(0, 3); std::string b = r.pick({"", "x", "'", "X"}); bool ok = works("insert", [&] { db.sqlTemplate<34>().insert<Ref>(Ref{i, a, b}).exec(); }); vf::eval(1); vf::check(ok == (cp.count({a, b}) > 0), "constraint", "insert with a composite reference"); } }
      // indexes
      { auto cols = [&](std::string const& t) { std::multiset<std::string> out; for (auto& i : raw.rows("SELECT name FROM sqlite_master WHERE type='index' AND sql IS NOT NULL AND tbl_name='" + t + "'")) { std::string d; for (auto& c : raw.rows("SELECT name, \"desc\" FROM pragma_index_xinfo('" + i[0].data + "') WHERE key=1 ORDER BY seqno")) d += c[0].data + (c[1].data == "1" ? " desc," : " asc,"); out.insert(d); } return out; }; vf::eval(2); vf::check(cols("parents") == std::multiset<std::string>{"n asc,", "s desc,n asc,"}, "index", "indexes of the parent table"); vf::check(cols("Kid") == std::multiset<std::string>{"n desc,"}, "index", "indexes of the child table"); }
      auto err = raw.run("BEGIN EXCLUSIVE; ROLLBACK"); vf::check(err.empty(), "lock", [&] { return "the database stays locked: " + err; }); }
    { Raw raw(f); auto err = raw.run("BEGIN EXCLUSIVE; ROLLBACK"); vf::check(err.empty(), "close", "a closed database is still locked"); }
    drop(f); vf::note("tables checked", 7); vf::sig(log);
}
VF_SECTION("tables", 250, 8000) { tables(rng, index); }
// opening: errors are reported and leave nothing behind; closing releases everything
VF_SECTION("open", 60, 1500) {
    auto& r = rng; vf::setCase("open " + S(index)); int fds = vf::countFds(); auto f = file(); vf::eval(4);
    { DB db; bool thrown = false; try { db.open(vf::scratch() + "/no/such/dir/x.db"); } catch (std::exception const&) { thrown = true; } vf::check(thrown, "open", "opening a file in a missing directory succeeded");
      std::string wide = f + "tail"; db.open(std::string_view{wide}.substr(0, f.size())); vf::check((bool)db.createDatabase<Nk>(), "create", "createDatabase"); std::string sql = "INSERT INTO Nk VALUES('a', 1); garbage"; db.exec(std::string_view{sql}.substr(0, 29)); vf::check(::access(wide.c_str(), F_OK) != 0, "open", "a string_view was read past its end");
      for (int i = 0; i < 3; ++i) { auto v = db.sqlTemplate<1>().select<Col(&Nk::b)>().from<Nk>().exec(); vf::check(v.size() == 1 && v[0].get<0>() == 1, "rows", "the inserted row"); if (r.chance(0.5)) { db.close(); vf::check(vf::countFds() <= fds, "close", "a closed database keeps descriptors"); db.open(f); } else if (r.chance(0.5)) db.open(f); }
      // a statement prepared before its table exists works once it does
      auto t = db.sqlTemplate<2>().select<Col(&Mid::k)>().from<Mid>().execNoThrow(); vf::check(!t, "error", "select from a missing table succeeded"); auto u = db.sqlTemplate<3>().insert<Mid, true>(Mid{"x", {3}, {}}).execNoThrow(); vf::check(!u, "error", "insert into a missing table succeeded"); auto d = db.sqlTemplate<4>().deleteForm<Mid>().where<Col(&Mid::k) == 3>().execNoThrowGetChanges(); vf::check(!d, "error", "delete from a missing table succeeded"); vf::check((bool)db.createDatabase<Mid>(), "create", "createDatabase"); db.sqlTemplate<3>().insert<Mid, true>(Mid{"x", {3}, {}}).exec(); auto t2 = db.sqlTemplate<2>().select<Col(&Mid::k)>().from<Mid>().exec(); vf::check(t2.size() == 1 && t2[0].get<0>() == 3, "rows", "the row of a table created later"); vf::check(db.sqlTemplate<4>().deleteForm<Mid>().where<Col(&Mid::k) == 3>().execGetChanges() == 1, "changes", "delete from a table created later"); 
      // the table changes under a prepared statement
      Raw raw(f); raw.run("DROP TABLE Mid"); auto t3 = db.sqlTemplate<2>().select<Col(&Mid::k)>().from<Mid>().execNoThrow(); vf::check(!t3, "error", "select from a dropped table succeeded"); (void)db.createDatabase<Mid>(); auto t4 = db.sqlTemplate<2>().select<Col(&Mid::k)>().from<Mid>().execNoThrow(); vf::check(t4 && t4.get().empty(), "rows", "select from a table created again"); }
    vf::check(vf::countFds() <= fds, "fd-leak", "descriptors stay open"); drop(f); vf::sig(S((long)rng.next())); vf::note("opened");
}
// results larger than any buffer: every row of a large table comes back once, from SELECT and from RETURNING
VF_SECTION("bulk", 40, 900) {
    auto& r = rng; auto f = file(); vf::Watch w("hang|a database statement does not come back", 60); std::string log;
    { DB db{f}; db.exec("PRAGMA synchronous=OFF"); vf::check((bool)db.createDatabase<Nk>(), "create", "createDatabase"); int n = (int)r.pick({1, 7, 99, 100, 101, 128, 255, 256, 257, 999, 1000, 1001, (int)r.range(1, 4000)}); vf::setCase("bulk of " + S(n) + " rows"); std::map<std::int64_t, std::string> m;
      db.exec("BEGIN"); for (int i = 0; i < n; ++i) { std::string s = r.chance(0.3) ? hostile(r) : "r" + S(r.range(0, 20)); auto ret = db.sqlTemplate<1>().insert<Nk>(Nk{s, i}).returning<&Nk::b, &Nk::a>().exec(); if (ret.get<0>() != i || ret.get<1>() != s) vf::fail("rows", "insert returned another row"); m[i] = s; } db.exec("COMMIT");
      auto same = [&](auto const& v, std::map<std::int64_t, std::string> const& want, char const* what) { std::map<std::int64_t, std::string> got; std::size_t c = 0; for (auto const& x : v) { ++c; got[x.template get<0>()] = std::string(x.template get<1>()); } vf::eval(1); vf::check(c == want.size() && got == want, "rows", [&] { return std::string(what) + " of " + S((long)want.size()) + " rows gave " + S((long)c); }); };
      auto all = [&](char const* what) { same(db.sqlTemplate<2>().select<Col(&Nk::b), Col(&Nk::a)>().from<Nk>().exec(), m, what); };
      all("select"); auto lim = (std::int64_t)r.range(0, n + 2); std::map<std::int64_t, std::string> part; for (auto& [k, v] : m) if (k < lim) part[k] = v; same(db.sqlTemplate<3>().select<Col(&Nk::b), Col(&Nk::a)>().from<Nk>().where<Col(&Nk::b) < param<std::int64_t>>(lim).exec(), part, "select with a condition");
      lim = r.range(0, n + 2); part.clear(); auto to = hostile(r); for (auto& [k, v] : m) if (k < lim) part[k] = v = to; if (r.chance(0.5)) same(db.sqlTemplate<4>().update<&Nk::a>(to).where<Col(&Nk::b) < param<std::int64_t>>(lim).returning<&Nk::b, &Nk::a>().exec(), part, "update with RETURNING"); else { auto c = db.sqlTemplate<5>().update<&Nk::a>(to).where<Col(&Nk::b) < param<std::int64_t>>(lim).execGetChanges(); vf::check(c == part.size(), "changes", "a large update"); } all("select after an update");
      lim = r.range(0, n + 2); part.clear(); for (auto& [k, v] : m) if (k < lim) part[k] = v; std::erase_if(m, [&](auto& x) { return x.first < lim; }); if (r.chance(0.5)) same(db.sqlTemplate<6>().deleteForm<Nk>().where<Col(&Nk::b) < param<std::int64_t>>(lim).returning<&Nk::b, &Nk::a>().exec(), part, "delete with RETURNING"); else { auto c = db.sqlTemplate<7>().deleteForm<Nk>().where<Col(&Nk::b) < param<std::int64_t>>(lim).execGetChanges(); vf::check(c == part.size(), "changes", "a large delete"); } all("select after a delete"); log = S(n) + "/" + S((long)part.size()) + "/" + S((long)m.size()); }
    drop(f); vf::note("bulk rows"); vf::sig(log);
}
// a database object that is assigned from another one takes its connection and its statements along
VF_SECTION("moved", 60, 1500) {
    auto& r = rng; vf::setCase("moved " + S(index)); int fds = vf::countFds(); auto f = file(), f2 = file();
    auto use = [&](DB& db, std::int64_t v, std::size_t want, char const* what) { try { vf::eval(1); db.sqlTemplate<1>().insert<Nk>(Nk{"x", v}).exec(); auto rows = db.sqlTemplate<2>().select<Col(&Nk::b)>().from<Nk>().exec(); vf::check(rows.size() == want && rows.back().get<0>() == v, "moved", [&] { return std::string(what) + ": " + S((long)rows.size()) + " rows"; }); auto bad = db.sqlTemplate<3>().select<Col(&Mid::k)>().from<Mid>().execNoThrow(); vf::check(!bad && bad.what().find("Mid") != std::string::npos, "moved", [&] { return std::string(what) + ": the error of a bad statement was " + (bad ? "none" : bad.what()); }); } catch (std::exception const& e) { vf::fail("moved", std::string(what) + ": " + e.what()); } };
    { DB to; bool had = r.chance(0.5); if (had) { to.open(f2); (void)to.createDatabase<Nk>(); use(to, 7, 1, "before"); }
      { auto from = std::make_unique<DB>(f); (void)from->createDatabase<Nk>(); std::size_t n = 0; if (r.chance(0.8)) use(*from, 1, ++n, "before the move"); to = std::move(*from); if (r.chance(0.5) && had) use(*from, 8, 2, "the database given in exchange"); if (r.chance(0.5)) from.reset(); use(to, 2, ++n, "after the move"); from.reset(); use(to, 3, ++n, "after the moved-from object is gone"); if (r.chance(0.4)) { DB third; third = std::move(to); use(third, 4, ++n, "after a second move"); to = std::move(third); use(to, 5, ++n, "after moving back"); } }
      Raw raw(f); vf::check(raw.rows("SELECT count(*) FROM Nk WHERE b IN (7, 8)")[0][0] == cInt(0), "moved", "rows went to the other database"); }
    vf::check(vf::countFds() <= fds, "fd-leak", "descriptors stay open"); drop(f); drop(f2); vf::note("databases moved"); vf::sig(S((long)r.next()));
}
