// C30: proxied connections: exact negotiation, unchanged bytes through the tunnel, errors from bad proxies.
#include "client.hpp"
#include <HXLibs/net/protocol/proxy/HttpProxy.hpp>
#include <HXLibs/net/protocol/proxy/Socks5Proxy.hpp>
using namespace ct; using namespace HX::net; namespace co = HX::coroutine;
using Hp = HttpProxy; using Sp = Socks5Proxy;
static std::string b64(std::string_view s) { static char const A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o; for (std::size_t i = 0; i < s.size(); i += 3) { std::uint32_t v = 0; int n = 0; for (std::size_t k = i; k < i + 3; ++k) { v <<= 8; if (k < s.size()) v |= (unsigned char)s[k], ++n; } for (int k = 0; k < 4; ++k) o += k <= n ? A[(v >> (18 - 6 * k)) & 63] : '='; } return o; }
// a target as written in the url, and what the proxy must be told
struct Target { std::string url, name, hostHeader; int port = 0; };
static Target target(vf::Rng& r, std::string const& path) { Target t; static char const* fixed[] = {"example.com", "a.b-c.test", "127.0.0.1", "10.1.2.3", "localhost", "xn--fiqs8s.cn"}; std::string host; if (r.chance(0.12)) { host = r.pick({"[::1]", "[fe80::1:2]", "[2001:db8::ff]"}); } else if (r.chance(0.5)) host = fixed[r.below(6)]; else { std::size_t n = r.chance(0.1) ? (std::size_t)r.range(60, 255) : (std::size_t)r.range(1, 20); host = r.text(n, "abcdefghijklmnopqrstuvwxyz0123456789-."); host[0] = 'h'; host.back() = 'z'; }
    bool port = r.chance(0.7); t.port = port ? (int)(r.chance(0.3) ? r.pick({1, 80, 255, 256, 443, 8080, 32768, 65535, 65280, 13}) : r.range(1, 65535)) : 80; std::string scheme = r.chance(0.15) && port ? "" : "http://"; t.hostHeader = host + (port ? ":" + S(t.port) : ""); t.url = scheme + (r.chance(0.1) && scheme.size() ? "u:p@" : "") + t.hostHeader + path; t.name = host[0] == '[' ? host.substr(1, host.size() - 2) : host; return t; }
struct Cred { bool on = false; std::string user, pass; std::string prefix() const { return on ? user + ":" + pass + "@" : ""; } };
static Cred cred(vf::Rng& r) { Cred c; if (!(c.on = r.chance(0.55))) return c; static char const al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;="; auto len = [&] { return r.chance(0.1) ? (std::size_t)255 : r.chance(0.1) ? (std::size_t)r.range(100, 254) : (std::size_t)r.range(1, 20); }; c.user = r.text(len(), al); c.pass = r.text(len(), al); return c; }
static bool need(Peer& p, std::size_t n, double sec = 20) { double e = now() + sec; while (p.in.size() < n) { if (p.eof || now() > e) return false; p.wait(0.02); } return true; }
static std::string take(Peer& p, std::size_t n) { auto s = p.in.substr(0, n); p.in.erase(0, n); return s; }
// what a stage of the negotiation answers, and how it goes wrong
struct Fault { int stage = -1; std::string bytes; int end = 0; std::string what; bool silent = false; }; // end: 0 close 1 reset 2 keep open until the client leaves
struct Log { std::mutex m; std::vector<std::string> after; void add(std::string s) { std::lock_guard _{m}; after.push_back(std::move(s)); } };
static void answer(vf::Rng& r, Peer& p, std::string const& s) { Feeder f(p); f.feed(s, r.chance(0.3) ? std::vector<std::size_t>{} : cuts(r, s)); }
// plays the fault; whatever the client still sends is recorded
static void misbehave(vf::Rng& r, Peer& p, Fault const& f, Log* log, std::size_t allowed) { if (!f.bytes.empty()) answer(r, p, f.bytes); if (f.end == 1) { double e = now() + 0.02; while (!p.eof && now() < e) p.wait(0.005); p.pump(); if (p.in.size() > allowed) log->add(p.in); p.closeRst(); return; } if (f.end == 0) ::shutdown(p.fd, SHUT_WR); double e = now() + 40; while (!p.eof && now() < e) p.wait(0.05); if (p.in.size() > allowed) log->add(p.in); }
// returns true when the tunnel is open
static bool httpNegotiate(vf::Rng& r, Peer& p, Target const& t, Cred const& c, Fault const& f, Log* log) {
    if (f.stage == 0 && f.silent) { misbehave(r, p, f, log, 5000); return false; } double e = now() + 20; std::size_t pos; while ((pos = p.in.find("\r\n\r\n")) == p.in.npos) { if (p.eof || now() > e) { if (f.stage < 0) vf::fail("negotiation", "no complete CONNECT request: " + vf::esc(p.in, 200)); return false; } p.wait(0.02); }
    std::string h = take(p, pos + 4), want = (t.name.find(':') != t.name.npos ? "[" + t.name + "]" : t.name) + ":" + S(t.port); auto l = h.find("\r\n"); vf::eval(4); vf::check(h.substr(0, l) == "CONNECT " + want + " HTTP/1.1", "target", [&] { return "request line '" + vf::esc(h.substr(0, l), 300) + "' for " + want; }); std::vector<std::string> host, auth; bool framed = false;
    for (std::size_t i = l + 2; i < h.size() - 2;) { auto j = h.find("\r\n", i); auto line = h.substr(i, j - i); i = j + 2; auto q = line.find(": "); auto k = low(line.substr(0, q)); auto v = q == line.npos ? "" : line.substr(q + 2); if (q == line.npos || !isTok(k)) vf::fail("negotiation", "bad field " + vf::esc(line)); if (k == "host") host.push_back(v); if (k == "proxy-authorization") auth.push_back(v); if (k == "transfer-encoding" || (k == "content-length" && v != "0")) framed = true; }
    vf::check(host == std::vector<std::string>{want}, "target", [&] { return "Host '" + (host.empty() ? "" : host[0]) + "' for " + want; }); vf::check(!framed, "negotiation", "a CONNECT request with a body"); vf::check(c.on ? auth == std::vector<std::string>{"Basic " + b64(c.user + ":" + c.pass)} : auth.empty(), "credentials", [&] { return "Proxy-Authorization '" + (auth.empty() ? "" : auth[0]) + "' for " + c.user + ":" + c.pass; }); p.wait(0.001); vf::check(p.in.empty(), "early", [&] { return "bytes before the proxy answered: " + vf::esc(p.in, 100); });
    if (f.stage == 0) { misbehave(r, p, f, log, 0); return false; }
    std::string s; if (r.chance(0.1)) s = "HTTP/1.1 100 Continue\r\n\r\n"; s += r.chance(0.15) ? "HTTP/1.0 " : "HTTP/1.1 "; s += r.chance(0.85) ? "200 " : "2" + S(r.range(10, 99)) + " "; s += r.pick({std::string("Connection established"), std::string("OK"), std::string(""), std::string("Tunnel  up")}); s += "\r\n"; for (int n = (int)r.below(4); n--;) s += hname(r) + ": " + hval(r) + "\r\n"; if (r.chance(0.2)) s += "Proxy-Agent: x/1\r\n"; if (r.chance(0.1)) s += "Connection: keep-alive\r\n"; s += "\r\n"; answer(r, p, s); return true; }
static std::string bound(vf::Rng& r) { std::string s; switch (r.below(5)) { case 0: s = std::string("\x04", 1) + r.bytes(16); break; case 1: { auto n = r.chance(0.3) ? 255 : r.chance(0.2) ? 0 : r.range(1, 40); s = "\x03"; s += (char)n; s += r.bytes((std::size_t)n); break; } case 2: s = std::string("\x01\0\0\0\0", 5); break; default: s = "\x01" + r.bytes(4); } return s + r.bytes(2); }
static bool socksNegotiate(vf::Rng& r, Peer& p, Target const& t, Cred const& c, Fault const& f, Log* log) {
    auto fault = [&](int stage) { if (f.stage != stage) return false; misbehave(r, p, f, log, f.silent ? 5000 : 0); return true; }; auto wait = [&](std::size_t n) { if (need(p, n)) return true; if (f.stage < 0) vf::fail("negotiation", "the client stopped: " + vf::esc(p.in, 100)); return false; }; auto quiet = [&] { p.wait(0.001); vf::check(p.in.empty(), "early", [&] { return "bytes before the proxy answered: " + vf::esc(p.in, 100); }); };
    if (f.stage == 0 && f.silent) return fault(0), false; if (!wait(2)) return false; auto n = (std::size_t)(unsigned char)p.in[1]; if (!wait(2 + n)) return false; auto g = take(p, 2 + n); vf::eval(3); int pick = c.on ? 2 : 0; vf::check(g[0] == 5 && n >= 1 && g.find((char)pick, 2) != g.npos, "negotiation", [&] { return "greeting " + vf::esc(g) + (c.on ? " with" : " without") + " credentials"; }); quiet(); if (fault(0)) return false; answer(r, p, std::string("\x05") + (char)pick);
    if (c.on) { if (f.stage == 1 && f.silent) return fault(1), false; if (!wait(2)) return false; auto un = (std::size_t)(unsigned char)p.in[1]; if (!wait(3 + un)) return false; auto pn = (std::size_t)(unsigned char)p.in[2 + un]; if (!wait(3 + un + pn)) return false; auto a = take(p, 3 + un + pn); vf::check(a[0] == 1 && a.substr(2, un) == c.user && a.substr(3 + un) == c.pass, "credentials", [&] { return "sub-negotiation " + vf::esc(a, 600) + " for " + c.user + ":" + c.pass; }); quiet(); if (fault(1)) return false; answer(r, p, std::string("\x01\0", 2)); }
    if (f.stage == 2 && f.silent) return fault(2), false; if (!wait(5)) return false; std::size_t al = p.in[3] == 1 ? 4 : p.in[3] == 4 ? 16 : p.in[3] == 3 ? 1 + (std::size_t)(unsigned char)p.in[4] : 0; if (!wait(4 + al + 2)) return false; auto q = take(p, 4 + al + 2); vf::check(q[0] == 5 && q[1] == 1 && q[2] == 0 && al, "negotiation", [&] { return "connect request " + vf::esc(q, 300); }); std::string name; if (q[3] == 3) name = q.substr(5, al - 1); else { char b[64] = {}; ::inet_ntop(q[3] == 1 ? AF_INET : AF_INET6, q.data() + 4, b, sizeof b); name = b; }
    int port = (unsigned char)q[4 + al] << 8 | (unsigned char)q[5 + al]; vf::check(name == t.name && port == t.port, "target", [&] { return "the proxy is asked for " + vf::esc(name, 300) + " port " + S(port) + " instead of " + t.name + " port " + S(t.port); }); quiet(); if (fault(2)) return false; answer(r, p, std::string("\x05\0\0", 3) + bound(r)); return true; }
template <class P> static bool negotiate(vf::Rng& r, Peer& p, Target const& t, Cred const& c, Fault const& f, Log* log) { if constexpr (std::is_same_v<P, Hp>) return httpNegotiate(r, p, t, c, f, log); else return socksNegotiate(r, p, t, c, f, log); }
template <class P> static char const* pname() { return std::is_same_v<P, Hp> ? "http" : "socks5"; }
template <class P> static std::string proxyUrl(RawServer& s, Cred const& c) { return std::string(pname<P>()) + "://" + c.prefix() + s.hostPort(); }
static std::string path(vf::Rng& r) { std::string s = "/" + r.text(r.below(10)); if (r.chance(0.3)) s += "?" + r.text(3) + "=" + r.text(4); return s; }
struct Step { std::string path, body; bool post = false; Rsp p; };
template <class P> static void good(vf::Rng& r, long) {
    auto c = cred(r); auto t = target(r, ""); auto base = t.url; int n = (int)r.range(1, 4); std::vector<Step> st; for (int i = 0; i < n; ++i) { Step s; s.path = path(r); s.post = r.chance(0.4); if (s.post) s.body = r.chance(0.2) ? r.bytes(r.below(60000)) : r.text(1 + r.below(50)); s.p = rsp(r, false, r.chance(0.3), 60000); if (s.p.toClose || s.p.close) s.p.close = true; st.push_back(std::move(s)); }
    vf::setCase(std::string(pname<P>()) + " proxy, " + base + " creds=" + c.prefix().substr(0, 80) + " requests " + S(n)); std::atomic_int next{0}, conns{0}; std::uint64_t seed = r.next(); int fds = vf::countFds(); vf::Watch w("hang|a proxied client does not come back", 60);
    { RawServer A([&](Peer& p, int k) { ++conns; vf::Rng q(seed + (std::uint64_t)k); if (!negotiate<P>(q, p, t, c, {}, nullptr)) return; for (;;) { std::string err; auto rq = request(p, err, 30); if (!rq) { if (err != "closed") vf::fail("request", err); return; } int i = next++; if (i >= n) { vf::fail("duplicate", "a request nobody made"); return; } auto& s = st[(std::size_t)i]; vf::eval(5);
            vf::check(rq->method == (s.post ? "POST" : "GET") && rq->target == s.path && rq->body == s.body, "request", [&] { return rq->method + " " + vf::esc(rq->target, 100) + " with " + S((long)rq->body.size()) + " bytes instead of " + s.path; }); vf::check(*rq->get("host") == t.hostHeader, "request", [&] { return "Host " + *rq->get("host") + " instead of " + t.hostHeader; }); vf::check(!rq->count("proxy-authorization"), "leak", "the proxy's credentials were sent to the target"); vf::check(p.in.empty(), "request", [&] { return "extra bytes " + vf::esc(p.in, 100); }); answer(q, p, s.p.interim + s.p.bytes); if (s.p.toClose) return; if (s.p.close) { double e = now() + 5; while (!p.eof && now() < e) p.wait(0.05); return; } } });
      HttpClient<P> cli{HttpClientOptions<P>{{proxyUrl<P>(A, c)}}}; for (int i = 0; i < n; ++i) { auto& s = st[(std::size_t)i]; auto url = i && r.chance(0.3) ? s.path : base + s.path; Out o = plain(s.post ? cli.template post<decltype(20_s)>(url, s.body, HttpContentType::Text).get() : cli.template get<decltype(20_s)>(url).get()); vf::eval(4); std::string why; vf::check(o.ok && o.status == s.p.status && o.body == s.p.body && sameHeaders(o.headers, s.p.headers, why), "response", [&] { return std::string("request ") + S(i) + ": " + (o.ok ? o.status != s.p.status ? "status" : o.body != s.p.body ? diff(o.body, s.p.body) : why : o.what); }); } }
    vf::check(next == n, "request", "requests were lost"); vf::check(vf::waitUntil([&] { return vf::countFds() <= fds; }, 5), "fd-leak", [&] { return "descriptors before " + S(fds) + ", after " + S(vf::countFds()); }); vf::note("tunnels opened", (std::uint64_t)conns); vf::sig(base + c.user + S((long)seed)); }
static Fault httpFault(vf::Rng& r) { Fault f; f.stage = 0; f.end = (int)r.below(2); std::string ok = "HTTP/1.1 200 OK\r\nX-A: b\r\nProxy-Agent: x\r\n\r\n"; switch (r.below(6)) { case 0: f.bytes = ok.substr(0, r.below(ok.size())); f.what = "cut at " + S((long)f.bytes.size()); break; case 1: { static char const* s[] = {"407 Proxy Authentication Required", "403 Forbidden", "502 Bad Gateway", "503 Unavailable", "301 Moved", "404 Not Found", "500 Oops", "400 Bad", "304 Not Modified"}; auto k = r.below(9); f.bytes = "HTTP/1.1 " + std::string(s[k]) + "\r\nContent-Length: 5\r\nProxy-Authenticate: Basic realm=x\r\n\r\n200 O"; f.what = s[k]; f.end = (int)r.below(3); break; } case 2: { static char const* s[] = {"HTTP/1.1 2OO OK", "ICY 200 OK", "HTTP/1.1 20 OK", "HTTP/1.1", "200 OK", "SSH-2.0-x", "HTTP/1.1 2000 OK", "\x05"}; auto k = r.below(8); f.bytes = std::string(s[k]) + "\r\n\r\n"; f.what = vf::esc(s[k]); break; } case 3: f.bytes = r.bytes(1 + r.below(3000)); while (f.bytes.compare(0, 5, "HTTP/") == 0) f.bytes = "x"; f.what = "random bytes"; break; case 4: f.silent = true; f.what = "leaves before the request"; break; default: f.what = "leaves instead of answering"; } return f; }
static Fault socksFault(vf::Rng& r, bool creds) { Fault f; f.stage = (int)r.below(3); if (f.stage == 1 && !creds) f.stage = 2; f.end = (int)r.below(2); std::string ok = f.stage == 0 ? std::string("\x05") + (char)(creds ? 2 : 0) : f.stage == 1 ? std::string("\x01\0", 2) : std::string("\x05\0\0", 3) + bound(r); std::string st = "stage " + S(f.stage) + ": ";
    switch (r.below(6)) { case 0: case 1: f.bytes = ok.substr(0, r.below(ok.size())); f.what = st + "cut at " + S((long)f.bytes.size()) + " of " + S((long)ok.size()); break; case 2: { f.bytes = ok; f.end = (int)r.below(3); int bad = (int)r.range(1, 255); if (f.stage == 0) { if (r.chance(0.5)) f.bytes[0] = (char)(bad == 5 ? 4 : bad); else f.bytes[1] = (char)(r.chance(0.4) ? 0xFF : creds && r.chance(0.5) ? 0 : creds ? (bad == 2 ? 3 : bad) : bad); } else if (f.stage == 1) f.bytes[1] = (char)bad; else if (r.chance(0.7)) f.bytes[1] = (char)bad; else if (r.chance(0.5)) f.bytes[0] = (char)(bad == 5 ? 4 : bad); else { f.bytes[3] = (char)(bad == 1 || bad == 3 || bad == 4 ? 2 : bad); } f.what = st + "refusal " + vf::esc(f.bytes.substr(0, 4)); break; } case 3: f.bytes = "HTTP/1.1 400 Bad Request\r\n\r\n"; f.what = st + "another protocol"; break; case 4: f.silent = true; f.what = st + "leaves before the request"; break; default: f.what = st + "leaves instead of answering"; } return f; }
template <class P> static Fault makeFault(vf::Rng& r, Cred const& c) { if constexpr (std::is_same_v<P, Hp>) return httpFault(r); else return socksFault(r, c.on); }
template <class P> static void bad(vf::Rng& r, long) {
    auto c = cred(r); auto t = target(r, "/secret"); auto f = makeFault<P>(r, c); bool later = r.chance(0.3); vf::setCase(std::string(pname<P>()) + " proxy: " + f.what + " end=" + S(f.end) + " bytes=" + vf::esc(f.bytes, 100) + " creds=" + S(c.on) + (later ? " on reconnect" : "")); Log log; std::uint64_t seed = r.next(); std::atomic_bool heal{later}; std::atomic_int conns{0}; int fds = vf::countFds(); vf::Watch w("hang|a client behind a broken proxy does not come back", 60); std::atomic_int served{0};
    { RawServer A([&](Peer& p, int k) { ++conns; vf::Rng q(seed + (std::uint64_t)k); bool well = heal; if (!negotiate<P>(q, p, t, c, well ? Fault{} : f, &log)) return; std::string err; auto rq = request(p, err, 20); if (!rq) { if (err != "closed") vf::fail("request", err); return; } vf::check(heal || well, "sent", "a request was sent although the proxy refused"); ++served; p.send("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok"); if (well && heal && later) p.wait(0.001); double e = now() + 20; if (!later) while (!p.eof && now() < e) p.wait(0.02); });
      HttpClient<P> cli{HttpClientOptions<P>{{proxyUrl<P>(A, c)}}}; if (later) { Out o = plain(cli.template get<decltype(20_s)>(t.url).get()); vf::check(o.ok && o.body == "ok", "response", "the first request: " + o.what); heal = false; } int before = served; double t0 = now(); Out o = plain(cli.template get<decltype(5_s)>(t.url).get()); double took = now() - t0; vf::eval(4); vf::check(!o.ok, "believed", [&] { return "a response of status " + S(o.status) + " although the proxy refused"; }); vf::check(served == before, "sent", "a request was sent although the proxy refused"); vf::check(took < 25, "late", [&] { return "the error took " + std::to_string(took) + " s"; });
      heal = true; Out o2 = plain(cli.template get<decltype(20_s)>(t.url).get()); vf::check(o2.ok && o2.body == "ok", "unusable", [&] { return "the next request, with a proxy that works again: " + o2.what; }); }
    for (auto& s : log.after) vf::fail("sent", "after the refusal the client sent " + vf::esc(s, 200)); vf::check(vf::waitUntil([&] { return vf::countFds() <= fds; }, 5), "fd-leak", [&] { return "descriptors before " + S(fds) + ", after " + S(vf::countFds()); }); vf::note("broken proxies"); vf::sig(f.what + f.bytes + S((long)seed)); }
VF_SECTION("http", 250, 6000) { good<Hp>(rng, index); }
VF_SECTION("socks5", 300, 6000) { good<Sp>(rng, index); }
VF_SECTION("http-bad", 250, 5000) { bad<Hp>(rng, index); }
VF_SECTION("socks5-bad", 400, 8000) { bad<Sp>(rng, index); }
// a proxy that stops answering while keeping the connection open: an error within bounds
template <class P> static void stall(vf::Rng& r) { auto c = cred(r); auto t = target(r, "/secret"); auto f = makeFault<P>(r, c); f.end = 2; if (f.what.find("refusal") != f.what.npos || f.what.find("protocol") != f.what.npos || (std::is_same_v<P, Hp> && f.what.find("cut") == f.what.npos)) { f.bytes.clear(); f.silent = false; } vf::setCase(std::string(pname<P>()) + " proxy stalls: " + f.what); Log log; std::uint64_t seed = r.next(); vf::Watch w("hang|a client behind a stalled proxy does not come back", 100);
    { RawServer A([&](Peer& p, int k) { vf::Rng q(seed + (std::uint64_t)k); if (negotiate<P>(q, p, t, c, f, &log)) vf::fail("sent", "tunnel"); }); HttpClient<P> cli{HttpClientOptions<P>{{proxyUrl<P>(A, c)}}}; double t0 = now(); Out o = plain(cli.template get<decltype(5_s)>(t.url).get()); vf::eval(2); vf::check(!o.ok, "believed", "a response through a stalled proxy"); vf::check(now() - t0 < 60, "late", "the error took " + std::to_string(now() - t0) + " s"); } for (auto& s : log.after) vf::fail("sent", "to a stalled proxy the client sent " + vf::esc(s, 200)); vf::sig(S((long)seed)); }
VF_SECTION("stall", 3, 12) { auto& r = rng; std::vector<std::thread> ts; for (int i = 0; i < 6; ++i) ts.emplace_back([s = r.next(), i] { vf::Rng q(s); if (i % 2) stall<Hp>(q); else stall<Sp>(q); }); for (auto& t : ts) t.join(); }
// names the protocol cannot carry
VF_SECTION("too-long", 60, 600) { auto& r = rng; Cred c; std::string host = "example.com"; int k = (int)r.below(3); auto n = (std::size_t)r.range(256, 700); c.on = k > 0; c.user = k == 1 ? r.text(n) : "u"; c.pass = k == 2 ? r.text(n) : "p"; if (k == 0) host = r.text(n); std::atomic_int got{0}; vf::setCase("socks5, part " + S(k) + " of " + S((long)n)); vf::Watch w("hang|too long", 60);
    { RawServer A([&](Peer& p, int) { if (!need(p, 3, 5)) return; take(p, 3); p.send(std::string("\x05") + (char)(c.on ? 2 : 0)); if (k == 0 || c.on) { double e = now() + 3; while (!p.eof && now() < e) { p.wait(0.02); } if (!p.in.empty()) ++got; } }); HttpClient<Sp> cli{HttpClientOptions<Sp>{{proxyUrl<Sp>(A, c)}}}; Out o = plain(cli.get<decltype(5_s)>("http://" + host + "/").get()); vf::eval(2); vf::check(!o.ok, "believed", "ok"); } vf::check(got == 0, "target", "a name that does not fit was sent cut off"); vf::sig(S((long)n) + S(k)); }
