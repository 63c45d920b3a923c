// C12: requests on one connection are answered one each, in order, from that request alone; connections do not mix.
#include "http.hpp"
#include <filesystem>
#include <fstream>
using namespace ht;
using namespace HX::net;
using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>; using TK = HX::coroutine::Task<>;

static std::string theFile() { static std::string p = [] { auto f = vf::scratch() + "/c12-" + S(::getpid()) + ".txt"; std::ofstream(f, std::ios::binary) << std::string(40000, 'f'); return f; }(); return p; }
static std::string dump(std::map<std::string, std::string> const& m) { std::string s; for (auto& [k, v] : m) s += k + "=" + v + ";"; return s; }
// everything a handler can see of its request
template <class F> static std::string view(Req& q, F&& body, int params) {
    std::map<std::string, std::string> h, qs; for (auto& [k, v] : q.getHeaders()) h[low(k)] = v; for (auto& [k, v] : q.getParseQueryParameters()) qs[k] = v; std::string s = std::string(q.getReqType()) + " " + std::string(q.getReqPath()) + " " + std::string(q.getProtocolVersion()) + "\n" + dump(h) + "\n" + dump(qs) + "\n";
    for (int i = 0; i < 4; ++i) { try { s += "p" + S(i) + "=" + q.getPathParam((std::size_t)i).template to<std::string>() + ";"; } catch (std::exception const&) { s += "p" + S(i) + "!;"; } } try { s += "w=" + std::string(q.getUniversalWildcardPath()); } catch (std::exception const&) { s += "w!"; } (void)params; return s + "\n" + body; }
template <class R> static void routes(R& router) {
    auto echo = [](Req& q, Res& s) -> TK { std::string b = co_await q.parseBody(); if (q.getHeaders().contains(std::string("x-sleep"))) { co_await static_cast<HX::coroutine::EventLoop&>(q.getIO()).makeTimer().sleepFor(std::chrono::microseconds(300)); } co_await s.setStatusAndContent(Status::CODE_200, view(q, b, 0)).sendRes(); };
    router.template addEndpoint<GET, POST, PUT, DEL>("/one/{a}", echo); router.template addEndpoint<GET, POST, PUT, DEL>("/two/{a}/x/{b}", echo); router.template addEndpoint<GET, POST, PUT, DEL>("/wild/**", echo); router.template addEndpoint<GET, POST, PUT, DEL>("/both/{a}/**", echo); router.template addEndpoint<GET, POST, PUT, DEL>("/plain", echo); router.template addEndpoint<HEAD>("/plain", echo);
    router.template addEndpoint<GET, POST, PUT, DEL>("/noread", [](Req& q, Res& s) -> TK { co_await s.setStatusAndContent(Status::CODE_200, view(q, std::string("-"), 0)).sendRes(); });
    router.template addEndpoint<GET, POST, PUT, DEL>("/set", [](Req& q, Res& s) -> TK { auto b = co_await q.parseBody(); auto it = q.getHeaders().find(std::string_view("x-set")); s.setResLine(b.size() % 3 == 0 ? Status::CODE_201 : b.size() % 3 == 1 ? Status::CODE_202 : Status::CODE_403); if (it != q.getHeaders().end()) { s.addHeader("X-Got", it->second); if (it->second.size() % 2) s.addHeader("X-Odd-" + S((long)it->second.size()), "1"); } if (b.size() % 2) s.setBody(b); co_await s.sendRes(); });
    router.template addEndpoint<GET, POST, PUT, DEL>("/bye", [](Req& q, Res& s) -> TK { auto b = co_await q.parseBody(); auto it = q.getHeaders().find(std::string_view("x-bye")); s.addHeader("Connection", it == q.getHeaders().end() ? std::string("close") : it->second); if (b.size() % 3 == 1) { co_await s.useChunkedEncodingTransferFile(theFile()); co_return; } if (b.size() % 3 == 2) { co_await s.useRangeTransferFile(q.getRangeRequestView(), theFile()); co_return; } co_await s.setStatusAndContent(Status::CODE_200, "bye" + b).sendRes(); });
    router.template addEndpoint<GET, POST, PUT, DEL>("/file", [](Req&, Res& s) -> TK { co_await s.useChunkedEncodingTransferFile(theFile()); });
    router.template addEndpoint<GET, POST, PUT, DEL>("/range", [](Req& q, Res& s) -> TK { co_await s.useRangeTransferFile(q.getRangeRequestView(), theFile()); });
}
static std::string rname(vf::Rng& r) { return "x-" + r.text(1 + r.below(4), "abcdef"); }
struct Rq { std::string method, path, pure, body, bytes, expect; bool wantClose = false, echo = false, tail = false; std::map<std::string, std::string> headers; std::string kind; };
static Rq gen(vf::Rng& r, std::string const& tok, bool mayClose) {
    Rq q; static const char* ms[] = {"GET", "POST", "PUT", "DELETE"}; q.method = ms[r.below(4)]; auto seg = [&] { return r.text(1 + r.below(6)) + tok; }; std::string pp; bool wild = false; std::vector<std::string> ps; std::string w;
    switch (r.below(12)) { case 0: case 1: ps = {seg()}; q.pure = "/one/" + ps[0]; q.echo = true; break; case 2: ps = {seg(), seg()}; q.pure = "/two/" + ps[0] + "/x/" + ps[1]; q.echo = true; break; case 3: w = "/" + seg() + "/" + seg(); q.pure = "/wild" + w; q.echo = wild = true; break; case 4: ps = {seg()}; w = seg() + "/" + seg(); q.pure = "/both/" + ps[0] + "/" + w; q.echo = wild = true; break;
    case 5: q.pure = "/plain"; q.echo = true; if (r.chance(0.3)) q.method = "HEAD"; break; case 6: q.pure = "/noread"; q.echo = true; break; case 7: case 8: q.pure = "/set"; q.headers["x-set"] = tok + r.text(r.below(9)); break; case 9: q.pure = "/file"; break; case 10: q.pure = "/range"; if (r.chance(0.7)) { long a = (long)r.below(39000); q.headers["range"] = "bytes=" + S(a) + "-" + S(a + (long)r.below(900)) + (r.chance(0.3) ? ",0-4" : ""); } break; default: q.pure = "/nothing/" + seg(); break; }
    q.kind = q.pure.substr(0, q.pure.find('/', 1)); q.path = q.pure; std::map<std::string, std::string> qs; if (r.chance(0.4)) { q.path += "?"; for (int n = (int)r.range(1, 3); n--;) { auto k = r.text(3), v = r.text(r.below(6)) + tok; if (qs.count(k)) continue; if (!qs.empty()) q.path += "&"; qs[k] = v; q.path += k + "=" + v; } }
    for (int n = (int)r.below(5); n--;) q.headers[rname(r)] = r.text(r.below(10)) + tok; if (r.chance(0.1)) q.headers["x-sleep"] = "1"; if (q.method != "HEAD" && r.chance(0.5)) q.body = tok + (r.chance(0.2) ? r.bytes(r.below(20000)) : r.text(r.below(60)));
    if (mayClose && r.chance(0.08)) { q.pure = q.path = q.kind = "/bye"; q.echo = false; q.expect = ""; if (q.method == "HEAD") q.method = "GET"; ps.clear(); qs.clear(); wild = false; if (r.chance(0.6)) q.headers["x-bye"] = r.pick({"Close", "x-a, close", "CLOSE"}); q.wantClose = true; } // the handler asks for it
    else if (mayClose && r.chance(0.12)) { static const char* v[] = {"close", "Close", "CLOSE", "close, x-a", "x-a,close"}; q.headers["connection"] = v[r.below(5)]; q.wantClose = true; } else if (r.chance(0.2)) q.headers["connection"] = r.chance(0.5) ? "keep-alive" : "Keep-Alive";
    bool ck = !q.body.empty() && r.chance(0.3); if (ck) q.headers["transfer-encoding"] = "chunked"; else if (!q.body.empty() || r.chance(0.2)) q.headers["content-length"] = S((long)q.body.size());
    q.bytes = q.method + " " + q.path + " HTTP/1.1\r\n"; for (auto& [k, v] : q.headers) q.bytes += recase(r, k) + ": " + v + "\r\n"; q.bytes += "\r\n"; if (ck) { std::size_t at = 0; while (at < q.body.size()) { std::size_t n = std::min<std::size_t>(1 + r.below(5000), q.body.size() - at); char b[32]; std::snprintf(b, sizeof b, "%zx\r\n", n); q.bytes += b + q.body.substr(at, n) + "\r\n"; at += n; } q.bytes += "0\r\n\r\n"; } else q.bytes += q.body;
    if (q.echo) { q.expect = q.method + " " + q.path + " HTTP/1.1\n" + dump(q.headers) + "\n" + dump(qs) + "\n"; for (int i = 0; i < 4; ++i) q.expect += "p" + S(i) + (i < (int)ps.size() ? "=" + ps[(std::size_t)i] : "!") + ";"; q.expect += (wild ? "w=" + w : "w!") + std::string("\n") + (q.kind == "/noread" ? "-" : q.body); }
    return q;
}
static std::string norm(Resp const& r) { std::multiset<std::string> h; for (auto& [k, v] : r.headers) if (low(k) != "date") h.insert(low(k) + ": " + v); std::string s = S(r.status) + " " + r.reason + "\n"; for (auto& x : h) s += x + "\n"; 
    // the separator of a multi-range answer may be random
    std::string b = r.body; if (auto* ct = r.get("content-type"); ct && ct->find("boundary=") != ct->npos) { auto bd = ct->substr(ct->find("boundary=") + 9); for (auto p = s.find(bd); p != s.npos; p = s.find(bd)) s.replace(p, bd.size(), "@"); std::string o; for (std::size_t at = 0;;) { auto p = b.find(bd, at); o += b.substr(at, p - at); if (p == b.npos) break; o += "@"; at = p + bd.size(); } b = o; }
    return s + "\n" + b; }
// what this request is answered with when it is the only one
static std::optional<std::string> alone(Router<HttpIO> const& router, Rq const& q) { Served<> sv(router); sv.peer.send(q.bytes); std::string err; auto res = sv.peer.response(q.method == "HEAD", err); std::string extra; if (res) { if (!q.wantClose) { std::this_thread::sleep_for(std::chrono::microseconds(200)); sv.peer.pump(); } extra = sv.peer.in; } bool eof = sv.peer.eof; (void)eof; sv.finish(); if (!res) { vf::fail("no-answer", "alone: " + err + " " + vf::esc(q.bytes, 500)); return {}; } vf::check(extra.empty(), "extra-bytes", [&] { return "bytes after the response to " + vf::esc(q.bytes, 300) + ": " + vf::esc(extra, 200); }); return norm(*res); }

VF_SECTION("sequence", 700, 15000) { auto& r = rng;
    std::vector<Rq> qs; int n = (int)r.range(2, 10); std::string all; for (int i = 0; i < n; ++i) { qs.push_back(gen(r, "T" + S(i) + "." + r.text(3), i + 1 == n)); all += qs.back().bytes; } int how = (int)r.below(3); vf::setCase(S(how) + " " + vf::esc(all, 3500)); Router<HttpIO> router; routes(router); router.setErrorEndpointFunc([](Req& q, Res& s) -> TK { co_await s.setStatusAndContent(Status::CODE_404, "nf " + std::string(q.getReqPath())).sendRes(); });
    bool close = qs.back().wantClose; std::string order; Served<> sv(router); if (how && !feed(sv.peer, all, how == 2 ? std::vector<std::size_t>{} : cuts(r, all)) && !close) { vf::fail("closed", "closed while sending"); return; }
    for (int i = 0; i < n; ++i) { auto& q = qs[(std::size_t)i]; if (!how && !feed(sv.peer, q.bytes, cuts(r, q.bytes)) && !q.wantClose) { vf::fail("closed", "closed while sending request " + S(i)); return; } std::string err; auto res = sv.peer.response(q.method == "HEAD", err); if (!res) { vf::fail("no-answer", "request " + S(i) + " of " + S(n) + " (" + q.kind + "): " + err); return; }
        if (q.echo && q.method != "HEAD") vf::check(res->status == 200 && res->body == q.expect, "leak", [&] { return "request " + S(i) + " (" + q.kind + "): " + diff(res->body, q.expect); }); auto ref = alone(router, q); if (!ref) return; auto got = norm(*res); vf::check(got == *ref, "differs-from-alone", [&] { return "request " + S(i) + " (" + q.kind + ") after " + order + ": " + diff(got, *ref); }); order += q.kind; vf::eval(2); }
    if (close) { double e = now() + 5; while (!sv.peer.eof && now() < e) sv.peer.wait(0.05); vf::check(sv.peer.eof, "not-closed", [&] { return "the client asked to close (" + qs.back().headers["connection"] + "), the connection is open"; }); vf::check(sv.peer.in.empty(), "extra-bytes", [&] { return vf::esc(sv.peer.in, 200); }); }
    else { sv.peer.wait(0.003); vf::check(!sv.peer.eof, "not-kept", [&] { return "the connection was closed after " + qs.back().kind + " though nobody asked"; }); vf::check(sv.peer.in.empty(), "extra-bytes", [&] { return "bytes nobody asked for: " + vf::esc(sv.peer.in, 200); }); }
    sv.finish(); vf::sig(order + S(how) + all);
}
// after a request that asked to close nothing is answered any more
VF_SECTION("close", 150, 2000) { auto& r = rng;
    std::vector<Rq> qs; int n = (int)r.range(2, 6), at = (int)r.below((std::uint64_t)n); std::string all; for (int i = 0; i < n; ++i) { Rq q; do q = gen(r, "T" + S(i), i == at); while (q.wantClose != (i == at)); all += q.bytes; qs.push_back(std::move(q)); } vf::setCase(vf::esc(all, 3500)); Router<HttpIO> router; routes(router); router.setErrorEndpointFunc([](Req&, Res& s) -> TK { co_await s.setStatusAndContent(Status::CODE_404, "nf").sendRes(); });
    Served<> sv(router); sv.peer.send(all); for (int i = 0; i <= at; ++i) { std::string err; auto res = sv.peer.response(qs[(std::size_t)i].method == "HEAD", err); if (!res) { vf::fail("no-answer", "request " + S(i) + ", close asked by " + S(at) + ": " + err); return; } } double e = now() + 5; while (!sv.peer.eof && now() < e) sv.peer.wait(0.05); vf::check(sv.peer.eof, "not-closed", [&] { return "still open after " + qs[(std::size_t)at].headers["connection"]; }); vf::check(sv.peer.in.empty(), "answer-after-close", [&] { return vf::esc(sv.peer.in, 200); }); vf::eval(2 + at); vf::sig(all); sv.join();
}
// many clients on a real server: every answer carries the token of the client that asked
VF_SECTION("clients", 6, 60) { auto& r = rng;
    vf::setCase("clients"); int pt = port() + (int)(index % 30), threads = (int)r.range(1, 4); HttpServer server{(std::uint16_t)pt}; routes(server); theFile(); server.asyncRun<decltype(5_s)>((std::size_t)threads); int fd = tcpRetry(pt); if (!vf::check(fd >= 0, "no-start", "server does not accept connections")) return; ::close(fd);
    std::vector<std::thread> ts; std::uint64_t seed = r.next(); std::atomic_long done{0}; int clients = (int)r.range(8, 40), per = vf::st().thorough ? 120 : (int)(40 * std::min(1.0, vf::st().scale * 1.5));
    for (int k = 0; k < clients; ++k) ts.emplace_back([&, k] { vf::Rng q(vf::mix(seed + (std::uint64_t)k)); std::unique_ptr<Peer> p; for (int i = 0; i < per; ++i) { if (!p) { int f = tcpRetry(pt); if (f < 0) { vf::fail("refused", "cannot connect"); return; } p = std::make_unique<Peer>(f); }
            std::vector<Rq> qs; for (int n = (int)q.range(1, 3); n--;) qs.push_back(gen(q, "C" + S(k) + "." + S(i) + "." + S(n) + ".", n == 0)); std::string all; for (auto& x : qs) all += x.bytes; if (!p->send(all)) { vf::fail("closed", "closed while sending"); return; }
            for (auto& x : qs) { std::string err; auto res = p->response(x.method == "HEAD", err, 20); if (!res) { vf::fail("no-answer", "client " + S(k) + " " + x.kind + ": " + err); return; } if (x.echo && x.method != "HEAD") if (!vf::check(res->body == x.expect, "mixed-up", [&] { return "client " + S(k) + " " + x.kind + ": " + diff(res->body, x.expect); })) return; if (x.kind == "/set") if (!vf::check(res->get("x-got") && *res->get("x-got") == x.headers["x-set"] && (x.body.size() % 2 == 0 ? res->body.empty() : res->body == x.body), "mixed-up", "the answer to /set is not this client's")) return; ++done; }
            if (qs.back().wantClose) { double e = now() + 5; while (!p->eof && now() < e) p->wait(0.05); vf::check(p->eof, "not-closed", "asked to close"); p.reset(); } else if (q.chance(0.05)) p.reset(); } });
    for (auto& t : ts) t.join(); { vf::Watch w("server-stop|stopping", 30); server.syncStop(); } vf::note("answers to concurrent clients", (std::uint64_t)done); vf::eval((std::uint64_t)done); vf::sig(seed);
}
