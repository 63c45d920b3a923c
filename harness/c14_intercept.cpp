// C14: interceptors wrap a handler in order and can stop it.
#include "http.hpp"
using namespace ht;
using namespace HX::net;
using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>; using TK = HX::coroutine::Task<>; template <class T> using CT = HX::coroutine::Task<T>;
enum class Verdict { No = 0, Yes = 3 };

static std::mutex gm; static std::map<std::string, std::vector<std::string>> glog;
// what steers a request travels in its headers or in its query, so that some requests have no header at all
static std::string prm(Req& q, std::string_view k) { if (auto it = q.getHeaders().find(k); it != q.getHeaders().end()) return it->second; auto ps = q.getParseQueryParameters(); auto it = ps.find(std::string(k)); return it == ps.end() ? "?" : std::string(it->second); }
static void note(Req& q, std::string e) { std::string id = prm(q, "x-id"); std::lock_guard g(gm); glog[id].push_back(std::move(e)); }
static int hdr(Req& q, std::string_view k) { auto v = prm(q, k); return v == "?" ? -1 : std::atoi(v.c_str()); }
static TK pause(Req& q) { int k = hdr(q, "x-pause"); if (k == 1) co_await static_cast<HX::coroutine::EventLoop&>(q.getIO()).makeTimer().yield(); if (k > 1) co_await static_cast<HX::coroutine::EventLoop&>(q.getIO()).makeTimer().sleepFor(std::chrono::microseconds(k)); }
static bool beforeS(Req& q, int i) { note(q, "b" + S(i)); if (hdr(q, "x-throw") == i) throw std::runtime_error("before"); return hdr(q, "x-refuse") != i; }
static bool afterS(Req& q, int i) { note(q, "a" + S(i)); return hdr(q, "x-afalse") != i; }
static CT<bool> beforeC(Req& q, Res& s, int i) { co_await pause(q); bool ok = beforeS(q, i); co_await pause(q); if (!ok) co_await s.setStatusAndContent(Status::CODE_403, "refused by " + S(i)).sendRes(); co_return ok; }
static CT<bool> afterC(Req& q, int i) { co_await pause(q); bool ok = afterS(q, i); co_await pause(q); co_return ok; }
template <class V> static V as(bool b) { if constexpr (std::is_same_v<V, Verdict>) return b ? Verdict::Yes : Verdict::No; else return (V)b; }
// what an interceptor or handler carries: gone once it was moved away
struct Ix { std::string s; Ix(int i) : s("the interceptor at position " + S(i)) {} operator int() const { return s.empty() ? -7 : std::atoi(s.c_str() + 28); } };
template <class V, class W> struct SS { Ix i; auto before(Req& q, Res&) { return as<V>(beforeS(q, i)); } auto after(Req& q, Res&) { return as<W>(afterS(q, i)); } static constexpr bool b = true, a = true, co = false; };
struct CC { Ix i; CT<bool> before(Req& q, Res& s) { co_return co_await beforeC(q, s, i); } CT<bool> after(Req& q, Res&) { co_return co_await afterC(q, i); } static constexpr bool b = true, a = true, co = true; };
struct CI { Ix i; CT<int> before(Req& q, Res& s) { co_return (co_await beforeC(q, s, i)) ? 2 : 0; } bool after(Req& q, Res&) { return afterS(q, i); } static constexpr bool b = true, a = true, co = true; };
struct SC { Ix i; int before(Req& q, Res&) { return beforeS(q, i) ? 4 : 0; } CT<int> after(Req& q, Res&) { co_return co_await afterC(q, i); } static constexpr bool b = true, a = true, co = false; };
struct OB { Ix i; bool before(Req& q, Res&) { return beforeS(q, i); } static constexpr bool b = true, a = false, co = false; };
struct OBC { Ix i; CT<bool> before(Req& q, Res& s) { co_return co_await beforeC(q, s, i); } static constexpr bool b = true, a = false, co = true; };
struct OA { Ix i; bool after(Req& q, Res&) { return afterS(q, i); } static constexpr bool b = false, a = true, co = false; };
struct OAC { Ix i; CT<bool> after(Req& q, Res&) { co_return co_await afterC(q, i); } static constexpr bool b = false, a = true, co = false; };
struct EE { Ix i; static constexpr bool b = false, a = false, co = false; };
using BB = SS<bool, bool>; using BI = SS<int, bool>; using BV = SS<Verdict, Verdict>;
struct Hook { bool b, a, co; };
static std::vector<std::vector<Hook>> lists; // shape of list k
static const char* PATHS[] = {"/plain%", "/one%/{v}", "/wild%/**", "/both%/{v}/**"};
template <class R, class... Is> static void reg(R& router, bool nf = false) {
    int k = (int)lists.size(); lists.push_back({Hook{Is::b, Is::a, Is::co}...}); auto h = [own = std::string("this is what the handler carries")](Req& q, Res& s) -> TK { co_await pause(q); note(q, own == "this is what the handler carries" ? "h" : "an empty handler"); if (hdr(q, "x-throw") == 100) throw std::runtime_error("handler"); auto b = co_await q.parseBody(); co_await pause(q); co_await s.setStatusAndContent(Status::CODE_200, prm(q, "x-id") + b).sendRes(); };
    if constexpr (std::is_same_v<R, Router<HttpIO>>) if (nf) { [&]<std::size_t... X>(std::index_sequence<X...>) { router.setErrorEndpointFunc(h, Is{(int)X}...); }(std::index_sequence_for<Is...>{}); return; }
    for (auto p : PATHS) { std::string s = p; s.replace(s.find('%'), 1, S(k)); [&]<std::size_t... X>(std::index_sequence<X...>) { if (k % 2) { std::tuple<Is...> ins{Is{(int)X}...}; router.template addEndpoint<GET, POST>(s, h, std::get<X>(ins)...); } else if (k % 4 == 2) router.template addEndpoint<GET, POST>(s, h, Is{(int)X}...); else { router.template addEndpoint<GET>(s, h, Is{(int)X}...); router.template addEndpoint<POST>(s, h, Is{(int)X}...); } }(std::index_sequence_for<Is...>{}); }
}
template <class R> static void routes(R& router) { lists.clear(); reg<R>(router); reg<R, BB>(router); reg<R, CC>(router); reg<R, SC, CI>(router); reg<R, OB, OA>(router); reg<R, OA, OBC, CC>(router); reg<R, EE, BV, CC>(router); reg<R, CC, CC, BB, BI>(router); reg<R, CI, SC, OBC, OAC, BV>(router); }
struct Rq { std::string id, bytes, body; int list, refuse = -1, afalse = -1, thr = -1; bool nf = false; };
static std::atomic_long ids{0};
static Rq gen(vf::Rng& r, std::vector<int> use, bool mayThrow) {
    Rq q; q.id = "r" + S(++ids); q.list = use[r.below(use.size())]; auto& L = lists[(std::size_t)q.list]; q.nf = q.list == 9; std::string p = q.nf ? "/nothing/here" : PATHS[r.below(4)]; if (!q.nf) { p.replace(p.find('%'), 1, S(q.list)); if (auto x = p.find("{v}"); x != p.npos) p.replace(x, 3, r.text(3)); if (auto x = p.find("**"); x != p.npos) p.replace(x, 2, "x/" + r.text(3)); }
    if (!L.empty()) { if (r.chance(0.3)) q.refuse = (int)r.below(L.size()); if (r.chance(0.1)) q.afalse = (int)r.below(L.size()); if (mayThrow && r.chance(0.2)) q.thr = (int)r.below(L.size()); } if (mayThrow && q.thr < 0 && r.chance(0.1)) q.thr = 100; if (r.chance(0.5)) q.body = r.text(r.below(40));
    std::vector<std::pair<std::string, std::string>> ps{{"x-id", q.id}, {"x-pause", S(r.chance(0.5) ? 0 : r.chance(0.7) ? 1 : (long)r.below(400) + 2)}}; if (q.refuse >= 0) ps.emplace_back("x-refuse", S(q.refuse)); if (q.afalse >= 0) ps.emplace_back("x-afalse", S(q.afalse)); if (q.thr >= 0) ps.emplace_back("x-throw", S(q.thr)); std::string inHead, inQuery; double share = r.chance(0.4) ? 1 : r.chance(0.6) ? 0 : 0.5; for (auto& [k, v] : ps) if (r.chance(share)) inHead += k + ": " + v + "\r\n"; else inQuery += (inQuery.empty() ? "?" : "&") + k + "=" + v; if (r.chance(0.3)) inHead = "Host: x\r\n" + inHead;
    q.bytes = (q.body.empty() ? "GET " : "POST ") + p + inQuery + " HTTP/1.1\r\n" + inHead; if (!q.body.empty()) q.bytes += "content-length: " + S((long)q.body.size()) + "\r\n"; q.bytes += "\r\n" + q.body; return q; }
struct Plan { std::vector<std::string> before; bool handler = true, refused = false, threw = false; int status = 0; std::vector<std::string> after; };
static Plan plan(Rq const& q) { Plan p; auto& L = lists[(std::size_t)q.list]; p.status = 200; for (int i = 0; i < (int)L.size(); ++i) if (L[(std::size_t)i].b) { p.before.push_back("b" + S(i)); if (q.thr == i) { p.threw = true; p.handler = false; p.status = 0; break; } if (q.refuse == i) { p.refused = true; p.handler = false; p.status = L[(std::size_t)i].co ? 403 : 0; break; } } if (p.handler && q.thr == 100) p.threw = true, p.status = 0; if (!p.threw) for (int i = 0; i < (int)L.size(); ++i) if (L[(std::size_t)i].a) { p.after.push_back("a" + S(i)); if (q.afalse == i) break; } return p; }
static void judge(Rq const& q) {
    std::vector<std::string> ev; { std::lock_guard g(gm); ev = glog[q.id]; } auto p = plan(q); std::string got; for (auto& e : ev) got += e + " "; auto say = [&] { std::string w; for (auto& b : p.before) w += b + " "; if (p.handler) w += "h "; w += p.refused ? "[" : ""; for (auto& a : p.after) w += a + " "; return "request " + q.id + " on list " + S(q.list) + " (refuse " + S(q.refuse) + ", throw " + S(q.thr) + "): got " + got + "expected " + w + (p.refused ? "]" : ""); };
    std::size_t i = 0; bool ok = true; for (auto& b : p.before) ok = ok && i < ev.size() && ev[i++] == b; if (p.handler) ok = ok && i < ev.size() && ev[i++] == "h";
    if (p.refused) { std::size_t a = 0; for (; ok && i < ev.size(); ++i) { while (a < p.after.size() && p.after[a] != ev[i]) ++a; ok = a < p.after.size(); ++a; } } else if (!p.threw) { for (auto& a : p.after) ok = ok && i < ev.size() && ev[i++] == a; ok = ok && i == ev.size(); } else { /* after a failure: nothing but after-hooks, each at most once */ std::set<std::string> seen; for (; i < ev.size(); ++i) ok = ok && ev[i][0] == 'a' && seen.insert(ev[i]).second; }
    vf::check(ok, "order", say()); vf::eval(1 + ev.size()); vf::sig(S(q.list) + got);
}
VF_SECTION("order", 1500, 25000) { auto& r = rng;
    Router<HttpIO> router; routes(router); switch (r.below(3)) { case 0: reg<Router<HttpIO>, CC>(router, true); break; case 1: reg<Router<HttpIO>, BB, OAC, CI>(router, true); break; default: reg<Router<HttpIO>>(router, true); } std::vector<int> all{0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
    std::vector<Rq> qs; int n = (int)r.range(1, 12); std::string bytes; for (int i = 0; i < n; ++i) { qs.push_back(gen(r, all, i + 1 == n)); bytes += qs.back().bytes; } Rq fin; fin.id = "end" + S(++ids); fin.bytes = "GET /plain0 HTTP/1.1\r\nx-id: " + fin.id + "\r\n\r\n"; fin.list = 0; bool thr = plan(qs.back()).threw; if (!thr) { qs.push_back(fin); bytes += fin.bytes; } vf::setCase(vf::esc(bytes, 3500));
    { Served<> sv(router); feed(sv.peer, bytes, cuts(r, bytes)); for (auto& q : qs) { auto p = plan(q); if (!p.status) continue; std::string err; auto res = sv.peer.response(false, err); if (!res) { vf::fail("no-answer", "request " + q.id + " list " + S(q.list) + " refuse " + S(q.refuse) + ": " + err); return; } vf::check(res->status == p.status, "status", [&] { return "request " + q.id + ": " + S(res->status) + " expected " + S(p.status); }); if (p.status == 200) vf::check(res->body == q.id + q.body, "mixed-up", [&] { return diff(res->body, q.id + q.body); }); } if (thr) sv.join(); else sv.finish(); }
    for (auto& q : qs) judge(q); std::lock_guard g(gm); glog.clear();
}
VF_SECTION("clients", 8, 80) { auto& r = rng;
    vf::setCase("clients"); int pt = port() + (int)(index % 30); HttpServer server{(std::uint16_t)pt}; routes(server); server.asyncRun<decltype(5_s)>((std::size_t)r.range(1, 4)); int fd = tcpRetry(pt); if (!vf::check(fd >= 0, "no-start", "server does not accept connections")) return; ::close(fd);
    std::uint64_t seed = r.next(); std::vector<std::thread> ts; std::mutex m; std::vector<Rq> done; int per = (int)(60 * std::min(1.0, vf::st().scale * 1.5)); for (int k = 0; k < 12; ++k) ts.emplace_back([&, k] { vf::Rng q(vf::mix(seed + (std::uint64_t)k)); Peer p(tcpRetry(pt)); std::vector<int> use; for (int i = 0; i < 9; ++i) use.push_back(i); for (int i = 0; i < per; ++i) { Rq x = gen(q, use, false), f = gen(q, {0}, false); f.refuse = f.afalse = -1; if (!p.send(x.bytes + f.bytes)) { vf::fail("closed", "closed while sending"); return; }
            for (auto* y : {&x, &f}) { auto pl = plan(*y); if (!pl.status) continue; std::string err; auto res = p.response(false, err, 20); if (!res) { vf::fail("no-answer", "request " + y->id + ": " + err); return; } if (!vf::check(res->status == pl.status && (pl.status != 200 || res->body == y->id + y->body), "mixed-up", [&] { return "request " + y->id + ": " + S(res->status) + " " + diff(res->body, y->id + y->body); })) return; } std::lock_guard g(m); done.push_back(x); done.push_back(f); } });
    for (auto& t : ts) t.join(); { vf::Watch w("server-stop|stopping", 30); server.syncStop(); } for (auto& q : done) judge(q); vf::note("requests of concurrent clients", done.size()); std::lock_guard g(gm); glog.clear();
}
