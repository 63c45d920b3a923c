// C27: formatted text vs an independent formatter (compact toString and indented formatString, built and streamed); concurrent log lines.
#include "vf.hpp"
#include <HXLibs/log/Log.hpp>
#include <HXLibs/log/serialize/ToString.hpp>
#include <HXLibs/container/UninitializedNonVoidVariant.hpp>
#include <list>
#include <set>
#include <map>
#include <unordered_map>
#include <deque>
#include <thread>
#include <atomic>
#include <memory>
#include <cmath>
#include <variant>
#include <filesystem>
#include <sys/wait.h>
using namespace HX;
enum class Col : unsigned { red, green, blue_9 = 7 };
struct Leaf { int a; std::string b; double c; bool operator<(Leaf const& o) const { return a < o.a; } };
struct Mid { std::vector<Leaf> leaves; std::optional<Leaf> ol; std::map<std::string, std::vector<int>> m; Col col; };
struct Top { Mid mid; std::unique_ptr<Leaf> up; std::variant<int, std::string, Leaf> v; std::tuple<int, std::string> t; std::vector<std::map<int, Leaf>> vm; bool flag; };
struct Empty1 { std::vector<int> none; };
struct Six { char c1; unsigned char c2; long long c3; float c4; std::string_view c5; std::pair<int, std::string> c6; };

// ---- independent formatter
struct Ref {
    bool pretty; std::string out; std::size_t depth = 0;
    void sep() { out += pretty ? ", " : ","; }
    void nl() { out += "\n"; for (std::size_t i = 0; i < depth; ++i) out += "    "; }
    void raw(std::string const& s) { out += s; }
    void v(bool b) { out += b ? "true" : "false"; }
    void v(char c) { out += c; }
    template <class T> requires (std::is_integral_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>) void v(T x) { out += std::to_string(x); }
    template <class T> requires std::is_floating_point_v<T> void v(T x) { char b[64]; for (int p = 1; p <= 30; ++p) { std::snprintf(b, 64, "%.*g", p, (double)x); T y = sizeof(T) == 4 ? (T)std::strtof(b, nullptr) : (T)std::strtod(b, nullptr); if (y == x) break; } num = x; out += "\x01" + std::string(b) + "\x01"; }
    double num = 0;
    void v(std::string const& s) { out += '"'; out += s; out += '"'; }
    void v(std::string_view s) { out += '"'; out += s; out += '"'; }
    void v(std::filesystem::path const& p) { out += p.string(); }
    void v(std::nullopt_t) { out += "null"; } void v(std::nullptr_t) { out += "null"; } void v(std::monostate) { out += "null"; }
    void v(Col c) { v(std::string(c == Col::red ? "red" : c == Col::green ? "green" : c == Col::blue_9 ? "blue_9" : "")); }
    template <class T> void seq(T const& t) { out += '['; bool f = false; for (auto const& x : t) { if (f) sep(); f = true; v(x); } out += ']'; }
    template <class T> void v(std::vector<T> const& t) { seq(t); } template <class T> void v(std::list<T> const& t) { seq(t); } template <class T> void v(std::deque<T> const& t) { seq(t); } template <class T> void v(std::set<T> const& t) { seq(t); } template <class T, std::size_t N> void v(std::array<T, N> const& t) { seq(t); }
    void v(std::vector<bool> const& t) { out += '['; for (std::size_t i = 0; i < t.size(); ++i) { if (i) sep(); v((bool)t[i]); } out += ']'; }
    template <class M> void mp(M const& m) { out += '{'; bool f = false; ++depth; for (auto const& [k, x] : m) { if (f) out += ","; if (pretty) nl(); f = true; v(k); out += pretty ? ": " : ":"; v(x); } --depth; if (f && pretty) nl(); out += '}'; }
    template <class K, class T> void v(std::map<K, T> const& m) { mp(m); } template <class K, class T> void v(std::unordered_map<K, T> const& m) { mp(m); } template <class K, class T> void v(std::multimap<K, T> const& m) { mp(m); }
    template <class T> void v(std::optional<T> const& o) { if (o) v(*o); else out += "null"; } template <class T> void v(std::unique_ptr<T> const& o) { if (o) v(*o); else out += "null"; } template <class T> void v(std::shared_ptr<T> const& o) { if (o) v(*o); else out += "null"; }
    template <class A, class B> void v(std::pair<A, B> const& p) { out += '('; v(p.first); sep(); v(p.second); out += ')'; }
    template <class... T> void v(std::tuple<T...> const& t) { out += '('; std::size_t i = 0; std::apply([&](auto const&... x) { ((i++ ? sep() : void(), v(x)), ...); }, t); out += ')'; }
    template <class... T> void v(std::variant<T...> const& t) { std::visit([&](auto const& x) { v(x); }, t); }
    template <class T> void mem(const char* n, T const& x, bool first) { if (!first) out += ","; if (pretty) nl(); v(std::string(n)); out += pretty ? ": " : ":"; v(x); }
    template <class F> void obj(F f) { out += '{'; ++depth; f(); --depth; if (pretty) nl(); out += '}'; }
    void v(Leaf const& l) { obj([&] { mem("a", l.a, true); mem("b", l.b, false); mem("c", l.c, false); }); }
    void v(Mid const& l) { obj([&] { mem("leaves", l.leaves, true); mem("ol", l.ol, false); mem("m", l.m, false); mem("col", l.col, false); }); }
    void v(Top const& l) { obj([&] { mem("mid", l.mid, true); mem("up", l.up, false); mem("v", l.v, false); mem("t", l.t, false); mem("vm", l.vm, false); mem("flag", l.flag, false); }); }
    void v(Empty1 const& l) { obj([&] { mem("none", l.none, true); }); }
    void v(Six const& l) { obj([&] { mem("c1", l.c1, true); mem("c2", l.c2, false); mem("c3", l.c3, false); mem("c4", l.c4, false); mem("c5", l.c5, false); mem("c6", l.c6, false); }); }
};
// compare, reading a number where the reference has a \x01number\x01 marker: any text for it must parse back to the same value
static bool match(std::string const& got, std::string const& want, std::string& why) {
    std::size_t i = 0, j = 0;
    while (j < want.size()) {
        if (want[j] == '\x01') { auto e = want.find('\x01', j + 1); std::string n = want.substr(j + 1, e - j - 1); std::size_t k = i; while (k < got.size() && (std::isalnum((unsigned char)got[k]) || got[k] == '+' || got[k] == '-' || got[k] == '.')) ++k; std::string g = got.substr(i, k - i); char* x; double a = std::strtod(g.c_str(), &x), b = std::strtod(n.c_str(), nullptr); bool ok = !g.empty() && !*x && (a == b || (std::isnan(a) && std::isnan(b))); if (!ok) { why = "number '" + g + "' should be " + n; return false; } i = k; j = e + 1; continue; }
        if (i >= got.size() || got[i] != want[j]) { why = "differs at byte " + std::to_string(i) + ": ..." + vf::esc(got.substr(i > 20 ? i - 20 : 0, 60)) + " want ..." + vf::esc(want.substr(j > 20 ? j - 20 : 0, 60)); return false; } ++i; ++j;
    }
    if (i != got.size()) { why = "extra text at the end: " + vf::esc(got.substr(i)); return false; } return true;
}
template <class T> static void judge(T const& t, const char* kind) {
    vf::eval(); std::string why; Ref a{false, {}, 0}, b{true, {}, 0}; a.v(t); b.v(t); vf::sig(a.out); vf::setCase(std::string(kind) + ": " + a.out);
    auto c1 = log::toString(t); if (!match(c1, a.out, why)) vf::fail(std::string("compact-") + kind, why);
    std::string c2 = "pre"; log::toString(t, c2); vf::check(c2 == "pre" + c1, std::string("compact-stream-") + kind, "streamed: " + vf::esc(c2) + " built: " + vf::esc(c1));
    auto p1 = log::formatString(t); if (!match(p1, b.out, why)) vf::fail(std::string("pretty-") + kind, why);
    std::string p2 = "pre"; log::formatString(t, p2); vf::check(p2 == "pre" + p1, std::string("pretty-stream-") + kind, "streamed: " + vf::esc(p2) + " built: " + vf::esc(p1));
    auto both = log::toString(t, std::string_view{"|"}, t); vf::check(both == c1 + "\"|\"" + c1, std::string("several-") + kind, vf::esc(both)); auto both2 = log::formatString(t, 5, t); vf::check(both2 == p1 + "5" + p1, std::string("several-") + kind, vf::esc(both2));
}
static std::string str(vf::Rng& r) { std::string s; auto n = r.chance(0.9) ? r.below(12) : r.below(400); for (std::size_t i = 0; i < n; ++i) s += r.chance(0.8) ? (char)('a' + r.below(26)) : r.chance(0.5) ? "\"\\,:{}[]%sn\n"[r.below(12)] : (char)(2 + r.below(254)); if (r.chance(0.05)) s += '\0'; return s; }
static double dbl(vf::Rng& r) { if (r.chance(0.4)) return (double)r.range(-50, 50); std::uint64_t b = r.next(); double d; std::memcpy(&d, &b, 8); return std::isnan(d) ? 0.1 : d; }
static Leaf leaf(vf::Rng& r) { return {(int)r.next(), str(r), dbl(r)}; }
static Col col(vf::Rng& r) { return r.chance(0.9) ? (r.chance(0.5) ? Col::red : r.chance(0.5) ? Col::green : Col::blue_9) : (Col)3; }
template <class F> static auto vec(vf::Rng& r, F f) { std::vector<decltype(f())> v; auto n = r.below(4); for (std::size_t i = 0; i < n; ++i) v.push_back(f()); return v; }
static Mid mid(vf::Rng& r) { Mid m; m.leaves = vec(r, [&] { return leaf(r); }); if (r.chance(0.5)) m.ol = leaf(r); auto n = r.below(3); for (std::size_t i = 0; i < n; ++i) m.m[str(r)] = vec(r, [&] { return (int)r.next(); }); m.col = col(r); return m; }
static Top top(vf::Rng& r) { Top t; t.mid = mid(r); if (r.chance(0.5)) t.up = std::make_unique<Leaf>(leaf(r)); switch (r.below(3)) { case 0: t.v = (int)r.next(); break; case 1: t.v = str(r); break; default: t.v = leaf(r); } t.t = {(int)r.next(), str(r)}; auto n = r.below(3); for (std::size_t i = 0; i < n; ++i) { std::map<int, Leaf> m; auto k = r.below(3); for (std::size_t j = 0; j < k; ++j) m[(int)r.below(9)] = leaf(r); t.vm.push_back(std::move(m)); } t.flag = r.chance(0.5); return t; }
VF_SECTION("scalars", 700, 20000) {
    judge((int)rng.next(), "int"); judge((long long)rng.next(), "int64"); judge((unsigned long long)rng.next(), "uint64"); judge((short)rng.next(), "int16"); judge((signed char)rng.next(), "int8"); judge((unsigned char)rng.next(), "uint8"); judge((char)(2 + rng.below(120)), "char"); judge(rng.chance(0.5), "bool");
    judge(dbl(rng), "double"); judge((float)rng.range(-100000, 100000) / 64.f, "float"); judge(str(rng), "string"); auto s = str(rng); judge(std::string_view{s}, "string_view"); judge(col(rng), "enum"); judge(std::filesystem::path("/a/b" + std::to_string(rng.below(99))), "path"); judge(std::monostate{}, "null"); judge(nullptr, "null"); judge(std::nullopt, "null");
    std::string z = "lit" + std::to_string(rng.below(1000)); const char* cz = z.c_str(); vf::check(log::toString(cz) == z, "c-string", log::toString(cz)); vf::check(log::formatString(cz) == z, "c-string", log::formatString(cz)); vf::check(log::toString("abc") == "abc" && log::formatString("abc") == "abc", "literal", log::toString("abc"));
    int* p = (int*)rng.next(); char b[40]; std::snprintf(b, 40, "0x%llX", (unsigned long long)p); if (p) { vf::check(log::toString(p) == b, "pointer", log::toString(p)); vf::check(log::formatString(p) == b, "pointer", log::formatString(p)); }
    char32_t cp = rng.chance(0.3) ? (char32_t)rng.below(0x80) : rng.chance(0.5) ? (char32_t)rng.below(0x800) : (char32_t)rng.below(0x110000); if (rng.chance(0.25)) cp = rng.pick({U'\1', U'\x7E', U'\x7F', U'\x80', U'\x7FE', U'\x7FF', U'\x800', U'\xFFE', U'\xFFF', U'\x1000', U'\xD7FF', U'\xE000', U'\xFFFD', U'\xFFFF', U'\x10000', U'\x10FFF', U'\xFFFFF', U'\x100000', U'\x10FFFF'}); if (cp >= 0xD800 && cp < 0xE000) cp = 0xFFFF; std::wstring w = L"x"; w += (wchar_t)cp; w += L'y'; std::string u = "\"x"; if (cp < 0x80) u += (char)cp; else if (cp < 0x800) { u += (char)(0xC0 | cp >> 6); u += (char)(0x80 | (cp & 63)); } else if (cp < 0x10000) { u += (char)(0xE0 | cp >> 12); u += (char)(0x80 | (cp >> 6 & 63)); u += (char)(0x80 | (cp & 63)); } else { u += (char)(0xF0 | cp >> 18); u += (char)(0x80 | (cp >> 12 & 63)); u += (char)(0x80 | (cp >> 6 & 63)); u += (char)(0x80 | (cp & 63)); } u += "y\""; vf::check(log::toString(w) == u, "wide", vf::esc(log::toString(w)) + " want " + vf::esc(u));
    std::string ws; log::toString(w, ws); vf::check(ws == u, "wide-stream", vf::esc(ws)); std::ostringstream os; os << std::this_thread::get_id(); vf::check(log::toString(std::this_thread::get_id()) == os.str(), "thread-id", log::toString(std::this_thread::get_id()));
    auto ms = (long)rng.range(-100000, 100000); vf::check(log::toString(std::chrono::milliseconds{ms}) == std::to_string(ms) + "ms" && log::formatString(std::chrono::seconds{ms}) == std::to_string(ms) + "s", "duration", log::toString(std::chrono::milliseconds{ms}));
}
VF_SECTION("containers", 1500, 40000) {
    auto I = [&] { return (int)rng.next(); }; auto S = [&] { return str(rng); }; auto L = [&] { return leaf(rng); };
    judge(vec(rng, I), "vec-int"); judge(vec(rng, S), "vec-str"); judge(vec(rng, L), "vec-obj"); judge(vec(rng, [&] { return vec(rng, S); }), "vec-vec"); auto vi = vec(rng, I); judge(std::list<int>(vi.begin(), vi.end()), "list"); judge(std::deque<int>(vi.begin(), vi.end()), "deque"); judge(std::set<int>(vi.begin(), vi.end()), "set"); judge(std::array<std::string, 3>{S(), S(), S()}, "array"); std::vector<bool> vb; for (int x : vi) vb.push_back(x & 1); judge(vb, "vec-bool");
    std::map<std::string, int> m1; std::map<int, std::string> m2; std::unordered_map<int, std::vector<std::string>> m3; std::multimap<int, int> mm; std::map<std::string, std::map<int, Leaf>> m4; auto n = rng.below(4); for (std::size_t i = 0; i < n; ++i) { m1[S()] = I(); m2[I()] = S(); m3[I()] = vec(rng, S); mm.insert({(int)rng.below(2), I()}); m4[S()][(int)rng.below(3)] = L(); }
    judge(m1, "map-str"); judge(m2, "map-int"); judge(m3, "umap"); judge(mm, "multimap"); judge(m4, "map-map"); judge(std::pair{I(), S()}, "pair"); judge(std::tuple<>{}, "tuple0"); judge(std::tuple<int>{I()}, "tuple1"); judge(std::tuple{I(), S(), L(), std::vector<int>{1, 2}}, "tuple4");
    judge(rng.chance(0.5) ? std::optional<std::string>{S()} : std::nullopt, "optional"); judge(rng.chance(0.5) ? std::make_shared<Leaf>(L()) : std::shared_ptr<Leaf>{}, "shared"); judge(std::variant<int, std::string>{S()}, "variant"); judge(std::vector<std::optional<std::pair<int, std::string>>>{std::nullopt, std::pair{1, S()}}, "vec-opt-pair");
    container::UninitializedNonVoidVariant<int, std::string> uv; if (rng.chance(0.5)) uv = 5; else uv = std::string("q"); auto g = log::toString(uv); vf::check(g == (uv.index() == 0 ? "5" : "\"q\""), "uvariant", g);
    int arr[3] = {I(), I(), I()}; std::vector<int> av(arr, arr + 3); Ref r{false, {}, 0}; r.v(av); vf::check(log::toString(arr) == r.out, "c-array", log::toString(arr)); Ref r2{true, {}, 0}; r2.v(av); vf::check(log::formatString(arr) == r2.out, "c-array", log::formatString(arr)); std::string sa; log::toString(arr, sa); vf::check(sa == r.out, "c-array-stream", sa);
}
VF_SECTION("objects", 1500, 40000) {
    judge(leaf(rng), "leaf"); judge(mid(rng), "mid"); judge(top(rng), "top"); judge(Empty1{}, "empty"); auto s5 = str(rng); judge(Six{(char)(2 + rng.below(100)), (unsigned char)rng.next(), (long long)rng.next(), (float)rng.range(-99, 99) / 4, s5, {1, str(rng)}}, "six");
    judge(std::vector<Top>{}, "vec-top0"); std::map<std::string, Mid> mm; mm[str(rng)] = mid(rng); mm[str(rng)] = mid(rng); judge(mm, "map-mid"); judge(std::optional<Top>{top(rng)}, "opt-top"); judge(std::tuple{mid(rng), std::optional<Mid>{mid(rng)}}, "tuple-mid");
    if (index == 0) vf::sample(log::formatString(mid(rng)));
}
// ---- logging from several threads, to a file in place of stdout
VF_BOUND(40)
VF_SECTION("log", 24, 200) {
    int T = 2 + (int)rng.below(6), M = 40 + (int)rng.below(400); std::string path = vf::scratch() + "/log" + std::to_string(::getpid()) + "_" + std::to_string(index); vf::setCase("log " + std::to_string(T) + " threads x " + std::to_string(M));
    std::fflush(stdout); int save = ::dup(1); int fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); ::dup2(fd, 1); ::close(fd); static char sbuf[1 << 16]; (void)sbuf;
    std::vector<std::vector<std::string>> body((std::size_t)T); std::uint64_t seed = rng.next();
    { std::vector<std::thread> ts; std::atomic<int> go{0}; for (int t = 0; t < T; ++t) ts.emplace_back([&, t] { vf::Rng r(seed + (unsigned)t); auto& B = body[(std::size_t)t]; ++go; while (go < T) {} 
        for (int m = 0; m < M; ++m) { std::string pay((std::size_t)(r.chance(0.9) ? r.below(60) : r.below(9000)), (char)('a' + t)); if (!pay.empty() && r.chance(0.1)) pay[r.below(pay.size())] = '\0'; std::vector<int> v; for (std::size_t k = r.below(3); k; --k) v.push_back((int)r.below(100)); std::string head = "#" + std::to_string(t) + "." + std::to_string(m);
            switch (r.below(3)) { case 0: B.push_back("I" + log::formatString(head) + " " + log::formatString(pay) + " " + log::formatString(v) + " "); log::hxLog.info(head, pay, v); break; case 1: B.push_back("W" + log::formatString(head) + " " + std::to_string(m) + " " + log::formatString(pay) + " "); log::hxLog.warning(head, m, pay); break; default: B.push_back("E" + log::formatString(head) + " " + log::formatString(pay) + " "); log::hxLog.error(head, pay); } if (r.chance(0.1)) std::this_thread::yield(); } }); for (auto& t : ts) t.join(); }
    std::fflush(stdout); ::dup2(save, 1); ::close(save);
    std::string all; { FILE* f = std::fopen(path.c_str(), "rb"); char b[65536]; std::size_t n; while ((n = std::fread(b, 1, sizeof b, f)) > 0) all.append(b, n); std::fclose(f); } ::unlink(path.c_str());
    std::vector<std::size_t> next((std::size_t)T, 0); std::size_t lines = 0, switches = 0; int last = -1; std::size_t i = 0; bool bad = false;
    while (i < all.size() && !bad) { auto e = all.find('\n', i); if (e == all.npos) { vf::fail("log-line", "last line incomplete"); break; } std::string l = all.substr(i, e - i); i = e + 1; ++lines; vf::eval();
        static const std::pair<std::string, char> heads[] = {{"\033[1;32m[INFO]\033[0m \033[32m", 'I'}, {"\033[1;33m[WARNING]\033[0m \033[33m", 'W'}, {"\033[1;31m[ERROR]\033[0m \033[31m", 'E'}}; char k = 0; std::string rest; for (auto& [h, c] : heads) if (l.starts_with(h)) { k = c; rest = l.substr(h.size()); } std::string const tail = "\033[0m";
        if (!k || !rest.ends_with(tail)) { vf::fail("log-mixed", "line is not one whole message: " + vf::esc(l, 300)); bad = true; break; } rest.resize(rest.size() - tail.size());
        auto q = rest.find('#'); int t = q == rest.npos ? -1 : std::atoi(rest.c_str() + q + 1); if (t < 0 || t >= T || next[(std::size_t)t] >= body[(std::size_t)t].size() || body[(std::size_t)t][next[(std::size_t)t]] != k + rest) { vf::fail("log-message", "unexpected message (" + std::to_string(rest.size() + 1) + ") " + vf::esc(k + rest, 120) + " want (" + std::to_string(t >= 0 && t < T && next[(std::size_t)t] < body[(std::size_t)t].size() ? body[(std::size_t)t][next[(std::size_t)t]].size() : 0) + ") " + (t >= 0 && t < T && next[(std::size_t)t] < body[(std::size_t)t].size() ? vf::esc(body[(std::size_t)t][next[(std::size_t)t]], 120) : "-") + " of thread " + std::to_string(t)); bad = true; break; } ++next[(std::size_t)t]; if (t != last) ++switches; last = t; }
    if (!bad) for (int t = 0; t < T; ++t) vf::check(next[(std::size_t)t] == (std::size_t)M, "log-lost", "thread " + std::to_string(t) + " wrote " + std::to_string(M) + " messages, " + std::to_string(next[(std::size_t)t]) + " arrived");
    vf::note("log lines", lines); vf::note("thread switches between lines", switches); vf::sig("log" + std::to_string(seed));
}
