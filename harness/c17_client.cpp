// C17: the HTTP client reports exactly what the server sent, sends exactly what it was given, and never invents, hangs or leaks.
#include "client.hpp"
#include <filesystem>
#include <fstream>
using namespace ct; using namespace HX::net; namespace co = HX::coroutine;
template <class T> using TK = co::Task<T>;
using FR = HX::container::FutureResult<HX::container::Try<ResponseData>>;

static char const* mname(int m) { static char const* n[] = {"GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD"}; return n[m]; }
struct Ask { int m = 0; std::string url, target, hostPort, body; std::map<std::string, std::string> headers; HttpContentType ct = HttpContentType::None; bool userClose = false; };
static HeaderHashMap hmap(Ask const& a) { HeaderHashMap h; for (auto& [k, v] : a.headers) h[k] = v; return h; }
static std::string seg(vf::Rng& r) { return r.text(1 + r.below(8), "abcdefghijklmnopqrstuvwxyz0123456789-._~%!$&'()*+,;=:@"); }
static std::string pathq(vf::Rng& r) { std::string s; for (int n = (int)r.below(4); n--;) s += "/" + seg(r); if (s.empty() || r.chance(0.2)) s += "/"; if (r.chance(0.4)) s += "?" + seg(r) + (r.chance(0.5) ? "=" + seg(r) + "/?" : ""); if (r.chance(0.02)) s += "?" + r.text(6000); return s; }
static Ask ask(vf::Rng& r, RawServer& sv, bool pathOnly, int m = -1) {
    Ask a; a.m = m >= 0 ? m : r.chance(0.35) ? 0 : (int)r.below(7); a.target = pathq(r); a.url = pathOnly ? a.target : sv.url(a.target); a.hostPort = sv.hostPort(); if (!pathOnly && r.chance(0.1)) a.url += "#frag/?x"; if (!pathOnly && r.chance(0.05)) { a.target = "/"; a.url = "http://" + sv.hostPort(); }
    if (a.m != 0 && a.m != 6 && r.chance(0.75)) { a.body = r.chance(0.15) ? r.bytes(r.below(150000)) : r.chance(0.3) ? r.bytes(1 + r.below(300)) : r.text(1 + r.below(40)); if (r.chance(0.7)) a.ct = r.chance(0.5) ? HttpContentType::Json : HttpContentType::Text; }
    for (int n = (int)r.below(5); n--;) { auto k = hname(r); bool dup = false; for (auto& [x, y] : a.headers) dup |= low(x) == low(k); if (!dup) a.headers[k] = hval(r); } if (r.chance(0.1)) a.headers["User-Agent"] = "me/" + r.text(3); if (r.chance(0.05)) a.headers["Accept"] = "text/plain"; if (r.chance(0.04)) { a.headers["Connection"] = "close"; a.userClose = true; }
    return a; }
template <class C> static TK<HX::container::Try<ResponseData>> coAsk(C& c, Ask const& a) { auto h = hmap(a);
    switch (a.m) { case 0: if (a.url.size() % 2) co_return co_await c.template coGet<decltype(900_ms)>(a.url, h); co_return co_await c.template coRequest<HttpMethod::GET, decltype(900_ms)>(a.url, h); case 1: if (a.url.size() % 2) co_return co_await c.template coPost<decltype(900_ms)>(a.url, a.body, a.ct, h); co_return co_await c.template coRequest<HttpMethod::POST, decltype(900_ms)>(a.url, h, std::string(a.body), a.ct);
    case 2: co_return co_await c.template coRequest<HttpMethod::PUT, decltype(900_ms)>(a.url, h, std::string(a.body), a.ct); case 3: co_return co_await c.template coRequest<HttpMethod::DEL, decltype(900_ms)>(a.url, h, std::string(a.body), a.ct); case 4: co_return co_await c.template coRequest<HttpMethod::PATCH, decltype(900_ms)>(a.url, h, std::string(a.body), a.ct); case 5: co_return co_await c.template coRequest<HttpMethod::OPTIONS, decltype(900_ms)>(a.url, h, std::string(a.body), a.ct); default: co_return co_await c.template coRequest<HttpMethod::HEAD, decltype(900_ms)>(a.url, h); } }
// T: timeout of the call
template <class T, class C> static FR fuAsk(C& c, Ask const& a) { auto h = hmap(a);
    switch (a.m) { case 0: if (a.url.size() % 2) return c.template get<T>(a.url, h); return c.template request<HttpMethod::GET, T>(a.url, h); case 1: if (a.url.size() % 2) return c.template post<T>(a.url, a.body, a.ct, h); return c.template request<HttpMethod::POST, T>(a.url, h, std::string(a.body), a.ct);
    case 2: return c.template request<HttpMethod::PUT, T>(a.url, h, std::string(a.body), a.ct); case 3: return c.template request<HttpMethod::DEL, T>(a.url, h, std::string(a.body), a.ct); case 4: return c.template request<HttpMethod::PATCH, T>(a.url, h, std::string(a.body), a.ct); case 5: return c.template request<HttpMethod::OPTIONS, T>(a.url, h, std::string(a.body), a.ct); default: return c.template request<HttpMethod::HEAD, T>(a.url, h); } }
static std::string judgeReq(RReq const& q, Ask const& a) { vf::eval(6 + a.headers.size());
    if (q.method != mname(a.m)) return "method " + q.method + " instead of " + mname(a.m); if (q.target != a.target) return "target " + vf::esc(q.target, 100) + " instead of " + vf::esc(a.target, 100); if (*q.get("host") != a.hostPort) return "Host " + *q.get("host") + " instead of " + a.hostPort;
    if (q.body != a.body) return "body: " + diff(q.body, a.body); for (auto& [k, v] : a.headers) { if (q.count(low(k)) != 1) return S(q.count(low(k))) + " fields named " + k; if (*q.get(low(k)) != v) return "field " + k + ": '" + vf::esc(*q.get(low(k)), 80) + "' instead of '" + vf::esc(v, 80) + "'"; }
    if (a.ct != HttpContentType::None && (q.count("content-type") != 1 || *q.get("content-type") != std::string(getContentTypeStrView(a.ct)))) return "content-type is wrong"; static const std::set<std::string> own{"host", "accept", "connection", "user-agent", "date", "content-type", "content-length"}; for (auto& [k, v] : q.headers) { bool mine = own.count(low(k)); for (auto& [x, y] : a.headers) mine |= low(x) == low(k); if (!mine) return "a field nobody asked for: " + k; } return ""; }
static std::string judgeOut(Out const& o, Rsp const& p) { vf::eval(3 + p.headers.size()); if (!o.ok) return "error: " + o.what; if (o.status != p.status) return "status " + S(o.status) + " instead of " + S(p.status); if (o.body != p.body) return "body (" + p.kind + "): " + diff(o.body, p.body); std::string why; if (!sameHeaders(o.headers, p.headers, why)) return why; return ""; }
struct Plan { Ask a; Rsp p; std::vector<std::size_t> c; int srv = 0; bool silent = false; std::atomic_int seen{0}; };
// serves the plans in order, whatever connection they come on
struct Stage { std::atomic_bool ready{false}; std::vector<std::unique_ptr<Plan>> plans; std::atomic_int next{0}; std::atomic_int conns{0};
    void serve(Peer& p, int srv) { ++conns; Feeder f(p); for (;;) { std::string err; auto q = request(p, err, 30); if (!q) { if (err != "closed") vf::fail("bad-request", err); return; } while (!ready) std::this_thread::yield(); int i = next++; if (i >= (int)plans.size()) { vf::fail("duplicate", "a request nobody made: " + q->method + " " + vf::esc(q->target, 100)); return; } auto& pl = *plans[(std::size_t)i]; ++pl.seen; if (pl.srv != srv) vf::fail("wrong-server", "request " + S(i) + " arrived at the wrong server"); auto w = judgeReq(*q, pl.a); vf::check(w.empty(), "request", [&] { return "request " + S(i) + ": " + w; });
            if (!p.in.empty()) vf::fail("extra-bytes", "bytes after the request: " + vf::esc(p.in, 100)); f.feed(pl.p.interim + pl.p.bytes, pl.c); if (pl.p.toClose || pl.silent) return; if (pl.p.close || pl.a.userClose) { double e = now() + 5; while (!p.eof && now() < e) p.wait(0.05); vf::check(p.eof, "kept-closed", "the connection was announced closed; the client keeps it open"); if (!p.in.empty()) vf::fail("reused-closed", "a request on a connection announced closed: " + vf::esc(p.in, 100)); return; } } } };
static Rsp okRsp(vf::Rng& r, bool head) { return rsp(r, head); }

VF_SECTION("ok", 350, 6000) { auto& r = rng;
    Stage st; RawServer A([&](Peer& p, int) { st.serve(p, 0); }); auto twin = r.below(4); RawServer B([&](Peer& p, int) { st.serve(p, 1); }, twin == 0 ? "127.0.0.1" : "127.0.0.2", twin == 1 ? A.pt : 0); /* other address, other port, or both */ int n = (int)r.range(1, 7); int cur = -1; std::string d; for (int i = 0; i < n; ++i) { auto pl = std::make_unique<Plan>(); pl->srv = i && r.chance(0.8) ? cur : (int)r.below(2); bool same = pl->srv == cur; cur = pl->srv; pl->a = ask(r, cur ? B : A, same && r.chance(0.4)); pl->p = okRsp(r, pl->a.m == 6); auto all = pl->p.interim + pl->p.bytes; pl->c = cuts(r, all); pl->silent = r.chance(0.08); d += std::string(mname(pl->a.m)) + " " + vf::esc(pl->a.url, 60) + " -> " + vf::esc(all, 120) + " | "; st.plans.push_back(std::move(pl)); }
    st.ready = true;
    int how = (int)r.below(3); vf::setCase(S(how) + " " + d.substr(0, 900)); int fds = vf::countFds(); { HttpClient<NoneProxy> cli; vf::Watch w("hang|the client does not come back", 60); for (int i = 0; i < n; ++i) { auto& pl = *st.plans[(std::size_t)i]; Out o = how == 0 || (how == 1 && i % 2) ? plain(fuAsk<decltype(20_s)>(cli, pl.a).get()) : plain(coAsk(cli, pl.a).runSync()); auto why = judgeOut(o, pl.p); if (!vf::check(why.empty(), "response", [&] { return "response " + S(i) + " (" + pl.p.kind + "): " + why; })) break; vf::check(pl.seen == 1, "count", [&] { return "request " + S(i) + " was received " + S(pl.seen) + " times"; }); vf::note("responses " + pl.p.kind); } }
    A.stop(); B.stop(); vf::check(vf::waitUntil([&] { return vf::countFds() <= fds - 2; }, 5), "fd-leak", [&] { return "descriptors before " + S(fds - 2) + ", after " + S(vf::countFds()); }); vf::note("connections", (std::uint64_t)st.conns); vf::sig(d);
}
// what may not be believed
VF_SECTION("bad", 500, 9000) { auto& r = rng;
    auto kind = (int)r.below(9); Rsp good = rsp(r, false, false, 30000); std::string bytes = good.interim + good.bytes, d; int end = (int)r.below(3); // 0 close, 1 reset, 2 stall
    bool either = false; auto head = bytes.find("\r\n\r\n", good.interim.size()) + 4; auto stOf = good.interim.size();
    switch (kind) { case 0: case 1: { Rsp g2; do g2 = rsp(r, false, true, 30000); while (g2.kind == "none" && false); auto all = g2.interim + g2.bytes; auto h = all.find("\r\n\r\n", g2.interim.size()) + 4; std::size_t lim = g2.toClose && end != 1 ? h : all.size(); std::size_t at = r.chance(0.5) ? r.below(lim) : lim - 1 - r.below(std::min<std::size_t>(lim, 12)); if (g2.toClose && end == 2) at = r.below(h); bytes = all.substr(0, at); if (g2.toClose && end == 1 && at >= h) either = false; d = "cut at " + S((long)at) + " of " + S((long)all.size()) + " (" + g2.kind + ")"; break; }
    case 2: { static const char* s[] = {"HTTP/1.1 2OO OK", "HTTQ/1.1 200 OK", "HTTP/1.1 20 OK", "HTTP/1.1", "", "ICY 200 OK", "200 OK", "HTTP/1.1 -20 OK", "HTTP/1.1 2000 OK", "HTTP/1.1 OK 200", "GET / HTTP/1.1", "\x80\x81\x82", "HTTP/1.1\t200\tOK", "HTTP/1.1 +20 OK", "HTTP/1.1 99999999999999999999 OK", "SSH-2.0-OpenSSH"}; auto k = r.below(16); bytes = std::string(s[k]) + bytes.substr(bytes.find("\r\n", stOf)); d = s[k]; break; }
    case 3: { static const char* s[] = {"abc", "-1", "1 2", "18446744073709551616", "99999999999999999999999", "5, 6", "0x10", "+5", "1e3", "4;", "", "5 5", "9223372036854775808999"}; auto k = r.below(13); bytes = "HTTP/1.1 200 OK\r\nContent-Length: " + std::string(s[k]) + "\r\n\r\nhello world, this is the body"; d = std::string("content-length ") + s[k]; break; }
    case 4: bytes = "HTTP/1.1 200 OK\r\nContent-Length: 5\r\nX-A: b\r\nContent-Length: 7\r\n\r\nhello world"; d = "two lengths"; break;
    case 5: { static const char* s[] = {"zz\r\nhello\r\n0\r\n\r\n", "FFFFFFFFFFFFFFFFFF\r\nhello\r\n0\r\n\r\n", "5\r\nhelloXX0\r\n\r\n", "-5\r\nhello\r\n0\r\n\r\n", "\r\nhello\r\n0\r\n\r\n", "0x5\r\nhello\r\n0\r\n\r\n", "5 5\r\nhello\r\n0\r\n\r\n", "5\r\nhell\r\n0\r\n\r\n", "5\r\nhello\r\n+0\r\n\r\n", "FFFFFFFFFFFFFFFF\r\nhello\r\n0\r\n\r\n", "5\r\nhello \r\n0\r\n\r\n"}; auto k = r.below(11); bytes = std::string("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n") + (r.chance(0.5) ? "3\r\nabc\r\n" : "") + s[k]; d = std::string("chunk ") + vf::esc(s[k]); break; }
    case 6: { auto n = r.range(20000, 200000); auto v = r.text((std::size_t)n); bytes = "HTTP/1.1 200 OK\r\nX-Big: " + v + "\r\nContent-Length: 2\r\n\r\nok"; either = true; good.status = 200; good.body = "ok"; good.headers = {{"x-big", v}, {"content-length", "2"}}; d = "huge head"; break; }
    case 7: bytes = r.bytes(1 + r.below(3000)); while (bytes.compare(0, 7, "HTTP/1.") == 0) bytes = r.bytes(10); d = "random bytes"; break;
    default: { std::string m = bytes.substr(0, head); int k = (int)r.range(1, 3); for (int i = 0; i < k; ++i) { auto at = r.below(m.size()); if (r.chance(0.5)) m[at] = (char)r.below(256); else if (r.chance(0.5)) m.erase(at, 1 + r.below(4)); else m.insert(at, r.bytes(1 + r.below(3))); if (m.empty()) m = "x"; } bytes = m + bytes.substr(head); either = true; d = "mutated " + vf::esc(m, 300); good.kind = "mutated"; break; } }
    auto cc = cuts(r, bytes); int times = (int)r.range(1, 2); bool autoRe = r.chance(0.8); vf::setCase(d + " end=" + S(end) + " times=" + S(times) + " auto=" + S(autoRe) + " bytes=" + vf::esc(bytes, 200));
    std::atomic_int attempts{0}; std::atomic_bool after{false}; Rsp second = rsp(r, false, false, 3000), third = rsp(r, false, false, 3000); Ask a; std::string why;
    int fds = vf::countFds(); { RawServer A([&](Peer& p, int) { Feeder f(p); for (;;) { std::string err; auto q = request(p, err, 30); if (!q) { if (err != "closed" && !p.eof) vf::fail("bad-request", err); return; } if (after) { f.feed(third.interim + third.bytes, {}); continue; } int k = attempts++; if (k < times) { f.feed(bytes, cc); if (end == 0) return; if (end == 1) { f.drained(1); p.closeRst(); return; } double e = now() + 8; while (!p.eof && now() < e) p.wait(0.05); return; } f.feed(second.interim + second.bytes, {}); } });
        a.m = 0; a.target = "/x"; a.url = A.url("/x"); a.hostPort = A.hostPort(); HttpClient<NoneProxy> cli; cli.setAutoReconnect(autoRe); vf::Watch w("hang|the client does not come back", 60);
        double t0 = now(); Out o = plain(fuAsk<decltype(300_ms)>(cli, a).get()); double t = now() - t0;
        if (o.ok) { bool isSecond = judgeOut(o, second).empty() && attempts == 2; if (either && good.kind == "mutated") { vf::check(o.status >= 100 && o.status <= 999, "status", [&] { return "status " + S(o.status); }); } else vf::check(isSecond || (either && judgeOut(o, good).empty()), "fabricated", [&] { return "a broken answer (" + d + ") was reported as status " + S(o.status) + " with " + S((long)o.body.size()) + " bytes '" + vf::esc(o.body, 60) + "' after " + S(attempts) + " attempts"; }); }
        else vf::check(!o.what.empty() || true, "no-what", "");
        vf::check(attempts <= (autoRe ? 2 : 1), "attempts", [&] { return "the request was sent " + S(attempts) + " times"; }); vf::check(t < 6, "late", [&] { return "the outcome took " + std::to_string(t) + " s with a timeout of 0.3 s"; }); vf::note(o.ok ? "broken answers survived by a resend" : "broken answers reported as errors");
        after = true; Out o2 = plain(fuAsk<decltype(5_s)>(cli, a).get()); if (!(either && o.ok)) { auto w2 = judgeOut(o2, third); if (!autoRe && !w2.empty() && o.ok) w2.clear(); vf::check(w2.empty(), "unusable", [&] { return "the next request, after " + d + " (first: " + (o.ok ? "ok" : o.what) + "): " + w2; }); } }
    vf::check(vf::waitUntil([&] { return vf::countFds() <= fds; }, 5), "fd-leak", [&] { return "descriptors before " + S(fds) + ", after " + S(vf::countFds()); }); vf::sig(d + bytes);
}
VF_SECTION("upload", 50, 800) { auto& r = rng;
    static const std::size_t e[] = {0, 1, 4095, 4096, 65535, 65536, 65537, 131072, 131073, 200000}; std::string data = r.bytes(r.chance(0.6) ? e[r.below(10)] : r.below(300000)); std::string f = vf::scratch() + "/c17-" + S(::getpid()) + "-" + S((long)index); { std::ofstream(f, std::ios::binary).write(data.data(), (std::streamsize)data.size()); }
    bool missing = r.chance(0.1), silent = r.chance(0.3), early = r.chance(0.1); vf::setCase("upload " + S((long)data.size()) + (missing ? " missing" : "") + (silent ? " after a silent close" : "")); std::atomic_int n{0}; Rsp p1 = rsp(r, false, false, 3000), p2 = rsp(r, false, false, 3000); HeaderHashMap h; h["X-Id"] = "u" + S((long)index);
    RawServer A([&](Peer& p, int) { Feeder f(p); for (;;) { std::string err; auto q = request(p, err, 30); if (!q) { if (err != "closed" && !(early && p.eof) && !missing) vf::fail("bad-request", err); return; } if (q->target == "/first") { f.feed(p1.bytes, {}); if (silent) return; continue; } ++n; vf::check(q->chunked && q->method == "PUT" && q->target == "/up?a=b" && q->get("x-id") && *q->get("x-id") == "u" + S((long)index) && q->count("content-type") == 1, "request", "the upload's head is wrong"); vf::check(q->body == data, "body", [&] { return diff(q->body, data); }); p.wait(0.002); vf::check(p.in.empty(), "extra-bytes", [&] { return "after the last chunk: " + vf::esc(p.in, 60); }); auto all = p2.interim + p2.bytes; f.feed(all, {}); } });
    { HttpClient<NoneProxy> cli; vf::Watch w("hang|the client does not come back", 60); if (r.chance(0.6) || silent) { auto o = plain(cli.get<decltype(20_s)>(A.url("/first")).get()); vf::check(judgeOut(o, p1).empty(), "response", [&] { return judgeOut(o, p1); }); if (silent) std::this_thread::sleep_for(std::chrono::milliseconds(3)); }
        std::string path = missing ? f + ".none" : f; Out o = r.chance(0.5) ? plain(cli.uploadChunked<HttpMethod::PUT, decltype(20_s)>(A.url("/up?a=b"), path, HttpContentType::Text, h).get()) : plain(cli.coUploadChunked<HttpMethod::PUT, decltype(20_s)>(A.url("/up?a=b"), path, HttpContentType::Text, h).runSync());
        if (missing) vf::check(!o.ok && n == 0, "missing-file", "uploading a file that is not there succeeded"); else { auto why = judgeOut(o, p2); vf::check(why.empty(), "response", [&] { return "upload: " + why; }); vf::check(n == 1, "count", [&] { return "uploaded " + S(n) + " times"; }); } Out o3 = plain(cli.get<decltype(20_s)>(A.url("/first")).get()); vf::check(judgeOut(o3, p1).empty(), "response", [&] { return "after the upload: " + judgeOut(o3, p1); }); }
    A.stop(); std::filesystem::remove(f); vf::note("uploaded bytes", data.size()); vf::sig(S((long)data.size()) + S(missing) + S(silent));
}
// echo server: the answer carries the target and body of the request
static void echo(Peer& p, std::map<std::string, int>* seen, std::mutex* m, int delayUs = 0) { for (;;) { std::string err; auto q = request(p, err, 30); if (!q) { if (err != "closed" && !p.eof) vf::fail("bad-request", err); return; } if (seen) { std::lock_guard _{*m}; ++(*seen)[q->target]; } if (delayUs) std::this_thread::sleep_for(std::chrono::microseconds(delayUs)); auto b = q->target + "|" + q->body; std::string s = "HTTP/1.1 200 OK\r\nContent-Length: " + S((long)b.size()) + "\r\n\r\n" + b; if (!p.send(s)) return; } }
namespace { template <class L> co::RootTask<> worker(L& cli, std::string url, int k, int n, std::atomic_int* done, std::uint64_t seed) { vf::Rng q(seed); for (int i = 0; i < n; ++i) { std::string t = "/w" + S(k) + "/" + S(i), b = q.bytes(1 + q.below(5000)); auto res = co_await cli.template coPost<decltype(20_s)>(url + t, b, HttpContentType::Text); auto o = plain(std::move(res)); vf::eval(1); vf::check(o.ok && o.body == t + "|" + b, "shared", [&] { return "client " + S(k) + " request " + S(i) + ": " + (o.ok ? diff(o.body, t + "|" + b) : o.what); }); ++*done; } co_await cli.coClose(); } }
// several clients share one loop
VF_SECTION("shared", 40, 500) { auto& r = rng;
    std::mutex m; std::map<std::string, int> seen; int k = (int)r.range(1, 8), n = (int)r.range(1, 12); vf::setCase("shared loop, " + S(k) + " clients, " + S(n) + " requests each"); int fds = vf::countFds(); std::atomic_int done{0};
    { RawServer A([&](Peer& p, int) { echo(p, &seen, &m); }); { auto loop = std::make_shared<co::EventLoop>(); std::vector<std::unique_ptr<HttpClient<NoneProxy>>> cs; vf::Watch w("hang|the clients do not come back", 60); for (int i = 0; i < k; ++i) cs.push_back(std::make_unique<HttpClient<NoneProxy>>(HttpClientOptions<NoneProxy>{}, loop)); for (int i = 0; i < k; ++i) worker(*cs[(std::size_t)i], "http://" + A.hostPort(), i, n, &done, r.next()).detach(); loop->run(); }
        vf::check(done == k * n, "lost", [&] { return S(done) + " of " + S(k * n) + " requests came back"; }); { std::lock_guard _{m}; for (auto& [t, c] : seen) vf::check(c == 1, "count", [&] { return t + " was received " + S(c) + " times"; }); } }
    vf::check(vf::waitUntil([&] { return vf::countFds() <= fds; }, 5), "fd-leak", [&] { return "descriptors before " + S(fds) + ", after " + S(vf::countFds()); }); vf::sig(S(k) + "/" + S(n));
}
// bytes behind a complete answer never become (part of) the next answer
VF_SECTION("surplus", 120, 2000) { auto& r = rng;
    bool head = r.chance(0.3); Rsp first; do first = rsp(r, head, false, 3000); while (first.bytes.size() > 6000 || first.toClose || first.close); std::string forged = "forged" + r.text(5), extra; switch (r.below(4)) { case 0: case 1: extra = "HTTP/1.1 200 OK\r\nContent-Length: " + S((long)forged.size()) + "\r\n\r\n" + forged; break; case 2: extra = r.bytes(1 + r.below(60)); break; default: extra = r.text(1 + r.below(300)); }
    Rsp second = rsp(r, false, false, 3000); vf::setCase((head ? "HEAD " : "GET ") + vf::esc(first.bytes, 200) + " surplus " + vf::esc(extra, 200)); std::atomic_int n{0}, conns{0}; int fds = vf::countFds();
    { RawServer A([&](Peer& p, int) { ++conns; for (;;) { std::string err; auto q = request(p, err, 30); if (!q) return; int i = n++; p.send(i == 0 ? first.bytes + extra : second.interim + second.bytes); } }); HttpClient<NoneProxy> cli; vf::Watch w("hang|the client does not come back", 60);
        Ask a; a.m = head ? 6 : 0; a.target = "/1"; a.url = A.url("/1"); Out o = plain(fuAsk<decltype(20_s)>(cli, a).get()); auto why = judgeOut(o, first); vf::check(why.empty(), "response", [&] { return "the answer before the surplus: " + why; });
        for (int i = 0; i < 2; ++i) { a.m = 0; a.target = a.url = "/2"; if (r.chance(0.5)) a.url = A.url("/2"); Out o2 = plain(r.chance(0.5) ? fuAsk<decltype(20_s)>(cli, a).get() : coAsk(cli, a).runSync()); auto why2 = judgeOut(o2, second); vf::check(why2.empty(), "surplus", [&] { return "the answer after the surplus: " + why2; }); } vf::check(n == 3, "count", [&] { return "3 requests, the server saw " + S(n); }); }
    vf::check(vf::waitUntil([&] { return vf::countFds() <= fds; }, 5), "fd-leak", [&] { return "descriptors before " + S(fds) + ", after " + S(vf::countFds()); }); vf::note("connections after surplus", (std::uint64_t)conns); vf::eval(3); vf::sig(extra + first.kind);
}
VF_SECTION("life", 120, 1500) { auto& r = rng;
    int kind = (int)r.below(6); vf::setCase("life " + S(kind)); int fds = vf::countFds(), th = vf::countThreads(); vf::Watch w("hang|life " + S(kind), 60); vf::eval(1);
    auto good = [](Out const& o, std::string const& t, std::string const& b = "") { return o.ok && o.status == 200 && o.body == t + "|" + b; };
    switch (kind) {
    case 0: { int pt; { RawServer A([](Peer&, int) {}); pt = A.pt; A.stop(); } HttpClient<NoneProxy> cli; cli.setAutoReconnect(r.chance(0.5)); double t0 = now(); for (int i = 0; i < 3; ++i) { auto o = plain(cli.get<decltype(2_s)>("http://127.0.0.1:" + S(pt) + "/x").get()); vf::check(!o.ok, "fabricated", "an answer from a port nobody listens on"); } vf::check(now() - t0 < 5, "late", "refused connections took " + std::to_string(now() - t0) + " s"); std::string bad[] = {"", "/only/path", "http://", "nonsense", "http://no.such.host.invalid/", "http://127.0.0.1:99999/", "http://127.0.0.1:x/"}; auto& u = bad[r.below(7)]; auto o = plain(cli.get<decltype(2_s)>(u).get()); vf::check(!o.ok, "fabricated", "an answer for the url '" + u + "'"); break; }
    case 1: { int stay = (int)r.range(1, 3); RawServer A([&](Peer& p, int) { for (int i = 0; i < stay; ++i) { std::string err; auto q = request(p, err, 30); if (!q) return; auto b = q->target + "|"; p.send("HTTP/1.1 200 OK\r\nContent-Length: " + S((long)b.size()) + "\r\n\r\n" + b); } if (index % 2) p.closeRst(); }); HttpClient<NoneProxy> cli; bool au = r.chance(0.5); cli.setAutoReconnect(au); bool wasBad = false; int bad = 0; for (int i = 0; i < 12; ++i) { std::string t = "/" + S(i); auto o = plain(cli.get<decltype(5_s)>(A.url(t)).get()); bool ok = good(o, t); if (au) vf::check(ok, "reconnect", [&] { return "request " + S(i) + " on a connection that serves " + S(stay) + ": " + o.what; }); else { if (!o.ok) { ++bad; vf::check(!wasBad, "stuck", "two failures in a row without automatic reconnection: the dead connection is kept"); } else vf::check(ok, "response", "wrong answer"); wasBad = !o.ok; } std::this_thread::sleep_for(std::chrono::microseconds(300)); } break; }
    case 2: case 3: { std::map<std::string, int> seen; std::mutex m; RawServer A([&](Peer& p, int) { echo(p, &seen, &m, 1500); }); std::vector<FR> fs; int n = (int)r.range(1, 25); { HttpClient<NoneProxy> cli; for (int i = 0; i < n; ++i) fs.push_back(cli.post<decltype(20_s)>(A.url("/" + S(i)), "b", HttpContentType::Text)); if (kind == 3 && r.chance(0.5)) cli.waitIdle(); else if (r.chance(0.5)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(4000))); } int okn = 0; for (int i = 0; i < n; ++i) { bool thrown = false; Out o; try { o = plain(fs[(std::size_t)i].get()); } catch (std::exception const& e) { thrown = true; o.what = e.what(); } std::string t = "/" + S(i); if (o.ok) { ++okn; vf::check(good(o, t, "b"), "response", "wrong answer for " + t); } std::lock_guard _{m}; vf::check(seen[t] <= 1, "count", [&] { return t + " was received " + S(seen[t]) + " times"; }); } vf::note("requests finished at destruction", (std::uint64_t)okn); break; }
    case 4: { std::map<std::string, int> seen; std::mutex m; RawServer A([&](Peer& p, int) { echo(p, &seen, &m); }); HttpClient<NoneProxy> cli; std::vector<std::thread> ts; int k = (int)r.range(2, 6), n = (int)r.range(2, 10); bool mix = r.chance(0.5), closer = r.chance(0.3); for (int j = 0; j < k; ++j) ts.emplace_back([&, j] { for (int i = 0; i < n; ++i) { std::string t = "/" + S(j) + "/" + S(i); Out o; if (mix && j % 2) o = plain(cli.coPost<decltype(20_s)>(A.url(t), "q", HttpContentType::Text).runSync()); else o = plain(cli.post<decltype(20_s)>(A.url(t), "q", HttpContentType::Text).get()); vf::check(good(o, t, "q"), "response", [&] { return "thread " + S(j) + ": " + (o.ok ? o.body : o.what); }); if (closer && i % 3 == 1) cli.close(); } }); for (auto& t : ts) t.join(); std::lock_guard _{m}; for (auto& [t, c] : seen) vf::check(c == 1, "count", [&] { return t + " was received " + S(c) + " times"; }); break; }
    default: { std::map<std::string, int> seen; std::mutex m; RawServer A([&](Peer& p, int) { echo(p, &seen, &m); }); HttpClient<NoneProxy> cli; vf::check(cli.needConnect(), "state", "connected before anything was asked"); auto c = cli.connect(A.url("/ignored")).get(); vf::check((bool)c, "connect", "connect failed"); vf::check(!cli.needConnect(), "state", "not connected after connect"); for (int i = 0; i < 6; ++i) { std::string t = "/p" + S(i); auto o = plain(cli.get<decltype(5_s)>(t).get()); vf::check(good(o, t), "path-only", [&] { return "request with a path only: " + o.what; }); if (i == 2 || i == 4) cli.close(); if (i == 2) vf::check(cli.needConnect(), "state", "connected after close"); } break; } }
    vf::check(vf::waitUntil([&] { return vf::countFds() <= fds && vf::countThreads() <= th; }, 5), "leak", [&] { return "descriptors " + S(fds) + " -> " + S(vf::countFds()) + ", threads " + S(th) + " -> " + S(vf::countThreads()); }); vf::sig(S(kind) + S((long)index));
}
