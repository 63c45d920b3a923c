// C11: no byte stream from a client corrupts, crashes or wedges the server; malformed requests are not dispatched.
#include "http.hpp"
#include <filesystem>
#include <fstream>
using namespace ht;
using namespace HX::net;
using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>; using TK = HX::coroutine::Task<>;

struct Sink { std::mutex m; std::vector<std::string> targets; long n = 0; };
static std::string dir() { return vf::scratch() + "/c11-" + S(::getpid()); }
static std::string theFile() { static std::string p = [] { std::filesystem::create_directories(dir()); auto f = dir() + "/data.txt"; std::ofstream(f, std::ios::binary) << std::string(3000, 'd') + std::string(2000, 'e'); return f; }(); return p; }

template <class T> static void routes(Router<HttpIO>& router, Sink& sink) {
    theFile();
    auto rec = [&sink](Req& q) { std::size_t h = 0; for (auto& [k, v] : q.getHeaders()) h += k.size() + v.size(); for (auto& [k, v] : q.getParseQueryParameters()) h += k.size() + v.size(); h += q.getPureReqPath().size() + q.getProtocolVersion().size() + q.getReqType().size(); std::lock_guard g(sink.m); ++sink.n; sink.targets.push_back(std::string(q.getReqPath())); return h; };
    auto all = [&](std::string path, auto fn) { router.addEndpoint<GET, HEAD, POST, PUT, HttpMethod::TRACE, HttpMethod::PATCH, CONNECT, HttpMethod::OPTIONS, DEL>(path, fn); };
    all("/parse", [rec](Req& q, Res& s) -> TK { rec(q); auto b = co_await q.parseBody<T>(); co_await s.setStatusAndContent(Status::CODE_200, b.substr(0, 4000)).sendRes(); });
    all("/caught", [rec](Req& q, Res& s) -> TK { rec(q); bool bad = false; try { co_await q.parseBody<T>(); } catch (std::exception const&) { bad = true; } co_await s.setStatusAndContent(bad ? Status::CODE_400 : Status::CODE_200, "x").sendRes(); });
    all("/save", [rec](Req& q, Res& s) -> TK { rec(q); static std::atomic_int n{0}; auto f = dir() + "/save-" + S(n++); std::exception_ptr e; try { co_await q.saveToFile<T>(f); } catch (...) { e = std::current_exception(); } std::filesystem::remove(f); if (e) std::rethrow_exception(e); co_await s.setStatusAndContent(Status::CODE_200, "saved").sendRes(); });
    all("/none", [rec](Req& q, Res& s) -> TK { auto n = rec(q); co_await s.setStatusAndContent(Status::CODE_200, S((long)n)).sendRes(); });
    all("/num/{n}", [rec](Req& q, Res& s) -> TK { rec(q); std::string o; try { o = S(q.getPathParam(0).template to<int>()); } catch (std::exception const&) { o = "bad"; } co_await s.setStatusAndContent(Status::CODE_200, o).sendRes(); });
    all("/p/{a}/{b}/**", [rec](Req& q, Res& s) -> TK { rec(q); auto o = q.getPathParam(0).template to<std::string>() + "|" + q.getPathParam(1).template to<std::string>(); try { o += q.getUniversalWildcardPath(); } catch (std::exception const&) {} co_await s.setStatusAndContent(Status::CODE_200, o).sendRes(); });
    all("/w/**", [rec](Req& q, Res& s) -> TK { rec(q); co_await s.setStatusAndContent(Status::CODE_200, std::string(q.getUniversalWildcardPath())).sendRes(); });
    all("/range", [rec](Req& q, Res& s) -> TK { rec(q); co_await s.useRangeTransferFile(q.getRangeRequestView(), theFile()); });
    all("/file", [rec](Req& q, Res& s) -> TK { rec(q); co_await s.useChunkedEncodingTransferFile(theFile()); });
    router.setErrorEndpointFunc([rec](Req& q, Res& s) -> TK { rec(q); co_await s.setStatusAndContent(Status::CODE_404, "nf").sendRes(); });
}

static std::string target(vf::Rng& r) { static const char* t[] = {"/parse", "/caught", "/save", "/none", "/num/12", "/num/zz", "/num/", "/p/a/b/c/d", "/p/a", "/w/x/y", "/w", "/range", "/file", "/", "/nope", "*", "//", "/p//q///r", "/none?a=1&b", "/none?&&==&=x&a=&?", "/num/99999999999999999999", "/num/-1"}; return t[r.below(22)]; }
static std::string headers(vf::Rng& r) { std::string h; for (int n = (int)r.below(6); n--;) switch (r.below(14)) { case 0: h += "Host: a\r\n"; break; case 1: h += "Connection: close\r\n"; break; case 2: h += "Connection: keep-alive\r\n"; break; case 3: h += "Content-Length: " + S((long)r.below(40)) + "\r\n"; break; case 4: h += "Transfer-Encoding: chunked\r\n"; break;
    case 5: h += "Range: bytes=" + S((long)r.below(6000)) + "-" + (r.chance(0.5) ? S((long)r.below(6000)) : "") + (r.chance(0.3) ? ",-" + S((long)r.below(99)) : "") + "\r\n"; break; case 6: h += "Range: " + r.text(r.below(30), "bytes=0123456789-, ") + "\r\n"; break; case 7: h += "Expect: 100-continue\r\n"; break; case 8: h += "X: " + r.bytes(r.below(30)) + "\r\n"; break; case 9: h += r.text(1 + r.below(20)) + ": " + std::string(r.below(3000), 'v') + "\r\n"; break; case 10: h += " folded\r\n"; break; default: h += hname(r) + ": " + hval(r) + "\r\n"; } return h; }
static std::string request(vf::Rng& r) { static const char* ms[] = {"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "TRACE", "CONNECT", "PATCH", "BREW"}; std::string h = std::string(ms[r.below(10)]) + " " + target(r) + " HTTP/1." + (r.chance(0.9) ? "1" : "0") + "\r\n" + headers(r); std::string body;
    if (r.chance(0.5)) { if (r.chance(0.5)) { body = r.bytes(r.below(r.chance(0.1) ? 40000 : 300)); h += "Content-Length: " + S((long)body.size() + (r.chance(0.1) ? (long)r.below(20) - 10 : 0)) + "\r\n"; } else { h += "Transfer-Encoding: chunked\r\n"; for (int n = (int)r.below(6); n--;) { auto c = r.bytes(1 + r.below(200)); char b[32]; std::snprintf(b, sizeof b, "%zx\r\n", c.size()); body += b + c + "\r\n"; } body += "0\r\n\r\n"; } }
    return h + "\r\n" + body; }
static void mutate(vf::Rng& r, std::string& s) {
    static const std::vector<std::string> dict{"\r\n", "\r\n\r\n", "\n", "\r", ":", ": ", " ", "\t", std::string(1, '\0'), "HTTP/1.1", "HTTP/", "GET ", "Content-Length: ", "Content-Length: 18446744073709551615\r\n", "Transfer-Encoding: chunked\r\n", "0\r\n\r\n", "ffffffffffffffff\r\n", "FFFFFFFFFFFFFFFF", "?", "&", "=", "/", "//", "{", "}", "**", "..", "%00", "\xff\xff", "Range: bytes=0-0,-1,5-\r\n", "bytes=", "-", ",", "99999999999999999999", "close"};
    for (int n = (int)r.range(1, r.chance(0.2) ? 20 : 4); n--;) { if (s.empty()) { s = r.pick(dict); continue; } std::size_t p = r.below(s.size()), len = 1 + r.below(std::min<std::size_t>(s.size() - p, r.chance(0.2) ? 300 : 8));
        switch (r.below(8)) { case 0: s[p] = (char)r.next(); break; case 1: s.erase(p, len); break; case 2: s.insert(p, r.pick(dict)); break; case 3: s.replace(p, len, r.pick(dict)); break; case 4: s.insert(p, s.substr(r.below(s.size()), len)); break; case 5: s[p] ^= (char)(1 << r.below(8)); break; case 6: s.resize(p); break; default: s.insert(p, r.bytes(1 + r.below(12))); } } }
static std::string stream(vf::Rng& r) { std::string s; switch (r.below(10)) { case 0: return r.bytes(r.below(2000)); case 1: return r.text(r.below(600), " \r\n:/HTP1.GET0?&=\tabc,;"); case 2: return std::string(r.below(60000), "aA \r\n:0\0/"[r.below(9)]); default: break; }
    for (int n = (int)r.range(1, 4); n--;) s += request(r); if (r.chance(0.85)) mutate(r, s); if (r.chance(0.02)) s += std::string(1 << 20, 'x'); return s; }

// parses whatever came back: any number of well-formed responses, the last one possibly cut
static void wellFormed(Peer& p, std::string_view what, bool maybeHead) {
    while (!p.in.empty()) { bool head = false; if (maybeHead && p.in.find("HTTP/1.1 ") == 0) { /* a HEAD answer has no body: decide by what follows */ auto e = p.in.find("\r\n\r\n"); if (e != p.in.npos && (e + 4 == p.in.size() || p.in.compare(e + 4, 9, "HTTP/1.1 ") == 0)) head = true; }
        std::string err; auto res = p.response(head, err, 0.01); if (!res) { if (err.starts_with("closed") || err.starts_with("timeout")) return; vf::fail("bad-response", std::string(what) + ": " + err); return; } } }

VF_SECTION("fuzz", 4000, 100000) { auto& r = rng;
    std::string s = stream(r); int end = r.chance(0.93) ? (int)r.below(3) : 3; vf::setCase("end=" + S(end) + " " + vf::esc(s, 3500)); Sink sink; Router<HttpIO> router; routes<decltype(150_ms)>(router, sink); int fds = vf::countFds();
    { Served<decltype(200_ms)> sv(router, r.chance(0.1) ? 4096 : 0); auto c = cuts(r, s); if (c.size() > 60) c.resize(60); bool sent = feed(sv.peer, s, c); if (end == 0) sv.peer.close(); else if (end == 1) ::shutdown(sv.peer.fd, SHUT_WR); else if (end == 2 && sent) sv.peer.drained(2), ::shutdown(sv.peer.fd, SHUT_WR);
      bool gone = vf::waitUntil([&] { if (end) sv.peer.pump(); return sv.ended.load(); }, 15); vf::check(gone, "kept-open", "the connection is still served 15 s after the client left or stalled"); if (end) { sv.peer.pump(); wellFormed(sv.peer, "answers", s.find("HEAD") != s.npos); } sv.finish(); }
    vf::check(vf::countFds() == fds, "fd-leak", [&] { return S(vf::countFds() - fds) + " descriptors left"; }); vf::eval(4); vf::note("dispatched", (std::uint64_t)sink.n); vf::sig(s);
}
// heads that are malformed beyond doubt: never dispatched, the connection ends (with or without an error answer)
VF_SECTION("malformed", 3000, 40000) { auto& r = rng;
    std::string tok = "/tok" + r.text(8), h = "Host: a\r\n", s, kind; auto ctl = [&] { static const char c[] = {0, 1, 2, 7, 11, 12, 27, 31, 127}; return std::string(1, c[r.below(9)]); };
    auto line = [&](std::string bad, std::string k) { kind = k; std::string l = "GET " + tok + " HTTP/1.1\r\n"; int before = (int)r.below(3); for (int i = 0; i < before; ++i) l += hname(r) + ": v\r\n"; l += bad + "\r\n"; for (int i = (int)r.below(3); i--;) l += hname(r) + ": v\r\n"; s = l + "\r\n"; };
    switch (r.below(16)) {
    case 0: kind = "no version"; s = "GET " + tok + "\r\n" + h + "\r\n"; break;
    case 1: kind = "four words"; s = "GET " + tok + " extra HTTP/1.1\r\n" + h + "\r\n"; break;
    case 2: { static const char* v[] = {"HTTX/1.1", "http/1.1", "HTTP1.1", "HTTP/", "HTTP/1.1x", "HTTP/x.1", "HTTP/1", "1.1", "HTTPS/1.1", "HTTP/1,1", "HTTP/11"}; kind = std::string("version ") + v[r.below(11)]; s = "GET " + tok + " " + kind.substr(8) + "\r\n" + h + "\r\n"; break; }
    case 3: { static const char* v[] = {"G(T", "GE\"T", "G:ET", "GET,", "G\x01T", "{GET}", "G=T", "GET\x7f", "GE\xc3\xa9"}; kind = "method"; s = std::string(v[r.below(9)]) + " " + tok + " HTTP/1.1\r\n" + h + "\r\n"; break; }
    case 4: kind = "control character in the target"; s = "GET " + tok + ctl() + "a HTTP/1.1\r\n" + h + "\r\n"; break;
    case 5: line("no colon here", "header without colon"); break;
    case 6: line("nocolon", "header without colon"); break;
    case 7: line(": value", "empty header name"); break;
    case 8: line("Name : value", "space before the colon"); break;
    case 9: line("Na me: value", "space in the header name"); break;
    case 10: line("Na" + ctl() + "me: value", "control character in the header name"); break;
    case 11: { static const char* v[] = {"a(b", "a\"b", "a,b", "a/b", "a;b", "a<b", "a=b", "a@b", "a[b", "a\\b", "a{b", "\xc3\xa9", "(a)"}; line(std::string(v[r.below(13)]) + ": value", "bad character in the header name"); break; }
    case 12: line("Name: a" + std::string(1, '\0') + "b", "NUL in a header value"); break;
    case 13: line("Name: a\rb", "bare CR in a header value"); break;
    case 14: kind = "fold before any header"; s = "GET " + tok + " HTTP/1.1\r\n folded: x\r\n" + h + "\r\n"; break;
    default: kind = "line that never fits"; s = r.chance(0.5) ? "GET " + tok + std::string(20000 + r.below(60000), 'a') + " HTTP/1.1\r\n" + h + "\r\n" : "GET " + tok + " HTTP/1.1\r\nX: " + std::string(20000 + r.below(60000), 'a') + "\r\n\r\n"; break; }
    if (r.chance(0.3)) s += "GET " + tok + "/second HTTP/1.1\r\n\r\n"; std::string pre; if (r.chance(0.4)) pre = "GET /none HTTP/1.1\r\n\r\n"; vf::setCase(kind + ": " + vf::esc(pre + s, 2500)); Sink sink; Router<HttpIO> router; routes<decltype(150_ms)>(router, sink); int fds = vf::countFds();
    { Served<> sv(router); feed(sv.peer, pre + s, cuts(r, pre + s)); bool gone = vf::waitUntil([&] { sv.peer.pump(); return sv.ended.load(); }, 4); vf::check(gone, "kept-open", [&] { return "the connection is still open 4 s after " + kind; }); sv.peer.pump(); if (!pre.empty()) { std::string err; auto a = sv.peer.response(false, err, 0.01); vf::check(a && a->status == 200, "earlier-answer", [&] { return "the well-formed request before was not answered: " + err; }); } wellFormed(sv.peer, "answers", false); sv.finish(); }
    for (auto& t : sink.targets) vf::check(t.find(tok) == t.npos, "dispatched", [&] { return kind + " was dispatched: " + vf::esc(t, 200); });
    vf::check(vf::countFds() == fds, "fd-leak", [&] { return S(vf::countFds() - fds) + " descriptors left after " + kind; }); vf::eval(4); vf::note(kind.substr(0, kind.find(' ')), 1); vf::sig(s);
}
// a real server under hostile clients keeps serving healthy ones, and lets go of everything
VF_SECTION("server", 16, 200) { auto& r = rng;
    vf::setCase("server"); theFile(); int fds0 = vf::countFds(), th0 = vf::countThreads(); Sink sink; int threads = (int)r.range(1, 2); int pt = port() + (int)(index % 30);
    { HttpServer server{(std::uint16_t)pt}; auto rec = [&](Req& q) { std::lock_guard g(sink.m); ++sink.n; return q.getHeaders().size(); };
      server.addEndpoint<GET, POST>("/echo/{id}", [rec](Req& q, Res& s) -> TK { rec(q); auto id = q.getPathParam(0).template to<std::string>(); auto b = co_await q.parseBody<decltype(300_ms)>(); co_await s.setStatusAndContent(Status::CODE_200, id + ":" + b).sendRes(); })
            .addEndpoint<GET>("/range", [rec](Req& q, Res& s) -> TK { rec(q); co_await s.useRangeTransferFile(q.getRangeRequestView(), theFile()); })
            .addEndpoint<GET>("/file", [rec](Req& q, Res& s) -> TK { rec(q); co_await s.useChunkedEncodingTransferFile(theFile()); })
            .addEndpoint<GET>("/big", [rec](Req& q, Res& s) -> TK { rec(q); co_await s.setStatusAndContent(Status::CODE_200, std::string(3 << 20, 'b')).sendRes(); })
            .addEndpoint<GET>("/throw", [rec](Req& q, Res&) -> TK { rec(q); throw std::runtime_error("handler"); co_return; })
            .addEndpoint<GET>("/throwint", [rec](Req& q, Res&) -> TK { rec(q); throw 7; co_return; });
      server.asyncRun<decltype(300_ms)>((std::size_t)threads); int fd = tcpRetry(pt); if (!vf::check(fd >= 0, "no-start", "server does not accept connections")) return; ::close(fd);
      std::atomic_bool stop{false}; std::atomic_long hostile{0}, healthy{0}; std::vector<std::thread> ts; std::uint64_t seed = r.next();
      for (int k = 0; k < 6; ++k) ts.emplace_back([&, k] { vf::Rng q(vf::mix(seed + (std::uint64_t)k)); while (!stop) { Peer p(tcp(pt, q.chance(0.3) ? 2048 : 0)); if (p.fd < 0) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); continue; } ++hostile; std::string s;
            switch (q.below(8)) { case 0: break; case 1: s = "GET /big HTTP/1.1\r\n\r\n"; break; case 2: s = q.chance(0.5) ? "GET /throw HTTP/1.1\r\n\r\n" : "GET /throwint HTTP/1.1\r\n\r\n"; break; case 3: { s = "GET /big HTTP/1.1\r\n\r\n"; for (int i = 0; i < 3; ++i) s += s; break; } case 4: s = request(q); s.resize(q.below(s.size() + 1)); break; default: s = stream(q); if (s.size() > 100000) s.resize(100000); }
            if (!s.empty()) { std::size_t at = 0; while (at < s.size()) { std::size_t n = q.chance(0.5) ? s.size() - at : 1 + q.below(s.size() - at); if (!p.send(std::string_view(s).substr(at, n), 2)) break; at += n; if (q.chance(0.2)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(3000))); } }
            switch (q.below(5)) { case 0: p.closeRst(); break; case 1: p.close(); break; case 2: ::shutdown(p.fd, SHUT_WR); p.wait(0.05); p.close(); break; case 3: p.wait(0.02); p.closeRst(); break; default: { /* stall: the server has to hang up */ double e = now() + 12; while (!p.eof && now() < e) p.wait(0.1); vf::check(p.eof, "kept-open", [&] { return "a stalled connection is still open after 12 s: " + vf::esc(s, 500); }); } } } });
      for (int k = 0; k < 3; ++k) ts.emplace_back([&, k] { vf::Rng q(vf::mix(seed + 100 + (std::uint64_t)k)); while (!stop) { Peer p(tcp(pt)); if (p.fd < 0) { vf::fail("refused", "a healthy client cannot connect"); return; }
            for (int n = (int)q.range(1, 10); n-- && !stop;) { auto id = q.text(8), body = q.text(q.below(2000)); if (!p.send("POST /echo/" + id + " HTTP/1.1\r\nHost: a\r\nContent-Length: " + S((long)body.size()) + "\r\n\r\n" + body)) { vf::fail("healthy-closed", "the connection of a healthy client was closed"); return; } std::string err; auto res = p.response(false, err, 10); if (!res) { vf::fail("starved", "a healthy client got no answer: " + err); return; } if (!vf::check(res->status == 200 && res->body == id + ":" + body, "wrong-answer", [&] { return diff(res->body, id + ":" + body); })) return; ++healthy; } } });
      std::this_thread::sleep_for(std::chrono::milliseconds(vf::st().thorough ? 2500 : 1200)); stop = true; for (auto& t : ts) t.join();
      vf::note("hostile connections", (std::uint64_t)hostile); vf::note("healthy answers", (std::uint64_t)healthy); vf::eval((std::uint64_t)(hostile + healthy));
      { vf::Watch w("server-stop|stopping the server after the hostile load", 30); server.syncStop(); } }
    vf::check(vf::waitUntil([&] { return vf::countFds() <= fds0; }, 5), "fd-leak", [&] { return S(vf::countFds() - fds0) + " descriptors left after the server is gone"; });
    vf::check(vf::waitUntil([&] { return vf::countThreads() <= th0 + 1; }, 5), "thread-leak", [&] { return S(vf::countThreads() - th0) + " threads left after the server is gone"; }); vf::sig(r.next());
}
// out of descriptors: connections wait or fail, and service resumes as soon as descriptors are free again
VF_SECTION("descriptors", 4, 20) { auto& r = rng;
    vf::setCase("out of descriptors"); int pt = port() + 32 + (int)(index % 4); Sink sink; HttpServer server{(std::uint16_t)pt}; server.addEndpoint<GET>("/a", [](Req&, Res& s) -> TK { co_await s.setStatusAndContent(Status::CODE_200, "hello").sendRes(); }); server.asyncRun<decltype(2_s)>(1); int fd = tcpRetry(pt); if (!vf::check(fd >= 0, "no-start", "server does not accept connections")) return; ::close(fd); std::this_thread::sleep_for(std::chrono::milliseconds(30));
    std::vector<int> socks; for (int i = 0; i < 5; ++i) socks.push_back(::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0)); rlimit old{}; ::getrlimit(RLIMIT_NOFILE, &old); std::vector<int> fill; int top = ::dup(0); ::close(top); rlimit lim = old; lim.rlim_cur = (rlim_t)top + 40; ::setrlimit(RLIMIT_NOFILE, &lim); for (;;) { int f = ::dup(0); if (f < 0) break; fill.push_back(f); }
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons((std::uint16_t)pt); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); for (int s : socks) ::connect(s, (sockaddr*)&a, sizeof a); for (int s : socks) { const char* q = "GET /a HTTP/1.1\r\n\r\n"; (void)!::send(s, q, strlen(q), MSG_NOSIGNAL); }
    std::this_thread::sleep_for(std::chrono::milliseconds(50 + r.below(200))); for (int f : fill) ::close(f); ::setrlimit(RLIMIT_NOFILE, &old); int ok = 0;
    for (int s : socks) { Peer p(s); std::string err; auto res = p.response(false, err, 6); ok += res && res->body == "hello"; } vf::note("served after exhaustion", (std::uint64_t)ok);
    int ok2 = 0; for (int i = 0; i < 3; ++i) { Peer p(tcp(pt)); if (p.fd < 0) continue; p.send("GET /a HTTP/1.1\r\n\r\n"); std::string err; auto res = p.response(false, err, 6); ok2 += res && res->body == "hello"; } vf::check(ok2 == 3, "no-recovery", [&] { return "after descriptors were free again only " + S(ok2) + " of 3 new connections were served"; });
    { vf::Watch w("server-stop|stopping", 30); server.syncStop(); } vf::eval(8); vf::sig(r.next());
}
