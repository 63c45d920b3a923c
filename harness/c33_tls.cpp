// C33: TLS carries the same bytes, verified and encrypted; bad peers end their own connection only.
#include "tls.hpp"
#include <filesystem>
#include <fstream>
#include <HXLibs/net/protocol/proxy/HttpProxy.hpp>
#include <HXLibs/coroutine/awaiter/WhenAll.hpp>
#include <HXLibs/net/protocol/proxy/Socks5Proxy.hpp>
using namespace tl; using TK = HX::coroutine::Task<>;
using Req = HttpRequest<HttpsIO>; using Res = HttpResponse<HttpsIO>;
#ifdef VF_MTLS
static constexpr bool mtls = true;
#else
static constexpr bool mtls = false;
#endif
struct World { std::string dir; Cert ca, other, srv, self, wrong, old, cli, stranger; SSL_CTX *asClient, *asServer, *noCert, *badCert; SSL_CTX* server(Cert const& c) { auto x = SSL_CTX_new(TLS_server_method()); if (SSL_CTX_use_certificate_file(x, c.certFile.c_str(), SSL_FILETYPE_PEM) != 1 || SSL_CTX_use_PrivateKey_file(x, c.keyFile.c_str(), SSL_FILETYPE_PEM) != 1) std::abort(); SSL_CTX_set_session_id_context(x, (unsigned char const*)"t", 1); if (mtls) { SSL_CTX_load_verify_locations(x, ca.certFile.c_str(), nullptr); SSL_CTX_set_verify(x, SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT, nullptr); } return x; }
    SSL_CTX* client(Cert const* c) { auto x = SSL_CTX_new(TLS_client_method()); SSL_CTX_load_verify_locations(x, ca.certFile.c_str(), nullptr); SSL_CTX_set_verify(x, SSL_VERIFY_PEER, nullptr); if (c) { SSL_CTX_use_certificate_file(x, c->certFile.c_str(), SSL_FILETYPE_PEM); SSL_CTX_use_PrivateKey_file(x, c->keyFile.c_str(), SSL_FILETYPE_PEM); } return x; }
    std::string file, data;
    World() { dir = vf::scratch() + "/c33-" + S(::getpid()); std::filesystem::create_directories(dir); std::string san = "IP:127.0.0.1,DNS:localhost,IP:127.0.0.2"; ca = make(dir, "ca", nullptr, ""); other = make(dir, "otherca", nullptr, ""); srv = make(dir, "srv", &ca, san); self = make(dir, "selfsigned", nullptr, san); wrong = make(dir, "wronghost", &ca, "DNS:elsewhere.example,IP:127.0.0.9"); old = make(dir, "expired", &ca, san, -7200, -3600); cli = make(dir, "client", &ca, ""); stranger = make(dir, "stranger", &other, "");
        ::setenv("SSL_CERT_FILE", ca.certFile.c_str(), 1); ::setenv("SSL_CERT_DIR", dir.c_str(), 1); SslContext::get().init<SslContext::SslType::Server>({mtls ? SslVerifyOption::ServerPeer : SslVerifyOption::None, srv.certFile, srv.keyFile}); { HttpsServer early{(std::uint16_t)port()}; early.asyncRun<decltype(1_s)>(1); early.syncStop(); } /* must not settle how clients verify */ HttpsClient<NoneProxy>::initSsl(mtls ? SslConfig{SslVerifyOption::ClientPeer, cli.certFile, cli.keyFile} : SslConfig{SslVerifyOption::ClientPeer});
        asServer = server(srv); asClient = client(mtls ? &cli : nullptr); noCert = client(nullptr); badCert = client(&stranger); vf::Rng q(99); data = q.bytes(300000); file = dir + "/file.bin"; std::ofstream(file, std::ios::binary) << data; }
    ~World() { for (auto c : {&ca, &other, &srv, &self, &wrong, &old, &cli, &stranger}) drop(*c); for (auto x : {asServer, asClient, noCert, badCert}) SSL_CTX_free(x); std::filesystem::remove_all(dir); } };
static World& w() { static World x; return x; }
static std::string pat(std::size_t n, std::size_t seed) { std::string s(n, 0); std::uint64_t v = seed * 7919 + 1; for (auto& c : s) { v = v * 6364136223846793005ull + 1442695040888963407ull; c = (char)(v >> 56); } return s; }
template <class R> static void routes(R& router) {
    router.template addEndpoint<GET, POST, PUT>("/echo/{id}", [](Req& q, Res& s) -> TK { auto b = co_await q.parseBody(); co_await s.setStatusAndContent(Status::CODE_200, std::string(q.getReqType()) + " " + std::string(q.getReqPath()) + "\n" + b).sendRes(); });
    router.template addEndpoint<GET>("/n/{n}/{k}", [](Req& q, Res& s) -> TK { auto n = q.getPathParam(0).template to<std::size_t>(), k = q.getPathParam(1).template to<std::size_t>(); co_await s.setStatusAndContent(Status::CODE_200, pat(n, k)).sendRes(); });
    router.template addEndpoint<GET>("/file", [](Req&, Res& s) -> TK { co_await s.useChunkedEncodingTransferFile(w().file); });
    router.template addEndpoint<GET>("/range", [](Req& q, Res& s) -> TK { co_await s.useRangeTransferFile(q.getRangeRequestView(), w().file); });
    router.template addEndpoint<PUT, POST>("/up/{id}", [](Req& q, Res& s) -> TK { auto id = q.getPathParam(0).template to<std::string>(); auto f = w().dir + "/up-" + id; co_await q.saveToFile(f); std::ifstream in(f, std::ios::binary); std::string b((std::istreambuf_iterator<char>(in)), {}); std::filesystem::remove(f); co_await s.setStatusAndContent(Status::CODE_200, S((long)b.size()) + ":" + S((long long)(vf::hashStr(b) >> 1))).sendRes(); });
    router.template addEndpoint<GET>("/sse/{n}", [](Req& q, Res& s) -> TK { auto n = q.getPathParam(0).template to<int>(); auto st = co_await s.makeSseStream(); for (int i = 0; i < n; ++i) { SseEvent e; e.event = "e" + S(i); e.data = "d" + S(i) + "\n" + std::string((std::size_t)(i * 37 % 500), 'x'); co_await st.push(e); } });
    router.template addEndpoint<GET>("/ws", [](Req& q, Res& s) -> TK { auto ws = co_await WebSocketFactory<HttpsIO>(q, s).accept(); try { for (;;) { auto p = co_await ws.template recv<true, decltype(20_s)>(OpCode::Text, OpCode::Binary); co_await ws.send(p.opCode, p.content); } } catch (std::exception const&) {} });
}
struct Srv { int pt; std::unique_ptr<HttpsServer> s; explicit Srv(long index, int threads = 1, bool patient = true) { w(); pt = port() + (int)(index % 30); s = std::make_unique<HttpsServer>((std::uint16_t)pt); routes(*s); if (patient) s->asyncRun<decltype(60_s)>((std::size_t)threads); else s->asyncRun<decltype(10_s)>((std::size_t)threads); int fd = tcpRetry(pt); if (fd < 0) vf::fail("no-start", "the server does not listen"); ::close(fd); } ~Srv() { vf::Watch x("stop|the TLS server does not stop", 40); s.reset(); } };
static Opt opt(vf::Rng& r, bool server) { Opt o; o.server = server; o.version = r.chance(0.6) ? 0 : r.chance(0.6) ? TLS1_2_VERSION : TLS1_3_VERSION; o.seed = r.next(); switch (r.below(5)) { case 0: o.seg = 0; break; case 1: o.seg = 3; break; case 2: o.seg = 40; break; case 3: o.seg = 1500; break; default: o.seg = 20000; } o.keyUpdates = r.chance(0.4); if (!server) o.sni = r.chance(0.5) ? "localhost" : ""; return o; }
static std::size_t big(vf::Rng& r) { static const std::size_t e[] = {16383, 16384, 16385, 32768, 65536, 131072, 133120, 133121, 150000, 200000, 300000, 1000000}; return r.chance(0.35) ? e[r.below(12)] : r.chance(0.3) ? r.below(400000) : r.below(3000); }
struct Want { std::string rq, kind; int status = 200; std::string body; };
static Want want(vf::Rng& r, std::string const& tok) { Want x; std::string tail = "Host: a\r\n"; switch (r.below(6)) { case 0: case 1: { auto b = r.chance(0.4) ? r.bytes(big(r)) : r.text(r.below(200)); std::string p = "/echo/" + tok; bool ck = r.chance(0.4); x.rq = "POST " + p + " HTTP/1.1\r\n" + tail + (ck ? "Transfer-Encoding: chunked\r\n\r\n" + chunked(r, b) : "Content-Length: " + S((long)b.size()) + "\r\n\r\n" + b); x.body = "POST " + p + "\n" + b; x.kind = "echo"; break; } case 2: case 3: { auto n = big(r), k = r.below(1000); x.rq = "GET /n/" + S((long)n) + "/" + S((long)k) + " HTTP/1.1\r\n" + tail + "\r\n"; x.body = pat(n, k); x.kind = "body"; break; } case 4: x.rq = "GET /file HTTP/1.1\r\n" + tail + "\r\n"; x.body = w().data; x.kind = "file"; break; default: { auto a = r.below(299000), n = 1 + r.below(299999 - a); x.rq = "GET /range HTTP/1.1\r\n" + tail + "Range: bytes=" + S((long)a) + "-" + S((long)(a + n - 1)) + "\r\n\r\n"; x.status = 206; x.body = w().data.substr(a, n); x.kind = "range"; } } return x; }
static bool exchange(vf::Rng& r, Bridge& b, int n, std::string const& tok, bool pipeline, char const* who) { std::vector<Want> ws; std::size_t total = 0; for (int i = 0; i < n && total < 1500000; ++i) { ws.push_back(want(r, tok + S(i))); total += ws.back().rq.size() + ws.back().body.size(); } if (pipeline) { std::string all; for (auto& x : ws) all += x.rq; if (!b.plain.send(all)) { vf::fail("cut", std::string(who) + ": the connection ended under the requests: " + b.err); return false; } } for (auto& x : ws) { if (!pipeline && !b.plain.send(x.rq)) { vf::fail("cut", std::string(who) + ": the connection ended: " + b.err); return false; } std::string err; auto p = b.plain.response(false, err, 25); vf::eval(2); if (!p) { vf::fail("no-answer", std::string(who) + ", " + x.kind + ": " + err + " (" + b.err + ")"); return false; } if (p->status != x.status || p->body != x.body) { vf::fail("answer", std::string(who) + ", " + x.kind + ": status " + S(p->status) + ", " + diff(p->body, x.body)); return false; } vf::note(std::string("answers ") + x.kind); } return true; }
static bool wsTalk(vf::Rng& r, Bridge& b, int n) { auto key = randomKey(r); std::string err; b.plain.send(hello(r, key)); if (!welcomed(b.plain, key, err)) { vf::fail("ws", "handshake: " + err + " " + b.err); return false; } std::vector<Msg> ms; std::string all; for (int i = 0; i < n; ++i) { ms.push_back(message(r)); if (ms.back().body.size() > 150000) ms.back() = {2, r.bytes(150000)}; all += encode(r, ms.back(), true, 0.3); } std::thread t([&] { b.plain.send(all, 30); }); t.join(); Collector k{.fromClient = false}; double e = now() + 30; while (k.pull(b.plain) && k.msgs.size() < ms.size() && !b.plain.eof && now() < e) b.plain.wait(0.05); vf::eval(ms.size() + 1); vf::check(k.err.empty(), "ws", k.err); vf::check(k.msgs == ms, "ws", [&] { return "echoed " + show(k.msgs) + " instead of " + show(ms) + " (" + b.err + ")"; }); b.plain.send(frame(true, 8, "\x03\xe8", maskKey(r))); e = now() + 10; while (k.pull(b.plain) && k.closes.empty() && !b.plain.eof && now() < e) b.plain.wait(0.05); vf::check(k.closes.size() == 1, "ws", "no close frame came back"); vf::note("ws messages", ms.size()); return true; }
static bool hidden(std::string const& seen, std::string const& mark) { return seen.find(mark) == seen.npos; }

VF_SECTION("server", 90, 2000) { auto& r = rng;
    int fds, threads = (int)r.range(1, 2); w(); std::thread([] {}).join(); fds = vf::countFds(); { Srv s(index, threads); int n = (int)r.range(1, 4); vf::setCase(S(n) + " connections"); vf::Watch x("hang|a TLS connection does not end", 120); std::vector<std::thread> ts; std::uint64_t seed = r.next(); for (int i = 0; i < n; ++i) ts.emplace_back([&, i] { vf::Rng q(seed + (std::uint64_t)i); auto o = opt(q, false); std::string tok = "secret" + S((long)index) + "t" + S(i); Bridge b(tcp(s.pt), w().asClient, o); bool ok; if (q.chance(0.3)) ok = wsTalk(q, b, (int)q.range(1, 8)); else ok = exchange(q, b, (int)q.range(1, 6), tok, q.chance(0.5), "server"); if (ok) { vf::check(b.err.empty(), "tls", [&] { return "the peer reports " + b.err; }); b.plain.close(); vf::check(b.left(20), "linger", "the server keeps a connection the peer closed"); } b.finish(); if (ok && b.o.bye) vf::check(b.clean, "no-close-notify", "the server ends without close_notify"); vf::check(hidden(b.seen, tok), "clear", "plain text on the wire"); vf::note(o.version == TLS1_2_VERSION ? "TLS 1.2 connections" : "TLS 1.3 connections"); }); for (auto& t : ts) t.join(); }
    vf::check(vf::waitUntil([&] { return vf::countFds() <= fds; }, 8), "fd-leak", [&] { return "descriptors before " + S(fds) + ", after " + S(vf::countFds()); }); vf::sig(S((long)r.next())); }
// one bad connection, healthy ones on the same thread before, during and after
VF_SECTION("server-bad", 130, 2500) { auto& r = rng;
    int fds; w(); std::thread([] {}).join(); fds = vf::countFds(); int kind = (int)r.below(mtls ? 9 : 7); std::string d = "kind " + S(kind); { Srv s(index, 1, false); vf::Watch x("hang|a TLS server does not get over a bad peer", 120); vf::Rng hq(r.next()); Bridge healthy(tcp(s.pt), w().asClient, opt(r, false)); healthy.o.version = 0; exchange(hq, healthy, 1, "h", false, "healthy before");
      for (int round = (int)r.range(1, 3); round--;) { auto o = opt(r, false); o.keyUpdates = false; if (kind == 3) o.seg = 0; std::string first; auto ctx = w().asClient; switch (kind) {
          case 0: o.raw = r.bytes(1 + r.below(20000)); o.raw[0] = r.chance(0.5) ? '\x16' : o.raw[0]; d = "garbage " + vf::esc(o.raw, 20); break; case 1: o.raw = "GET /echo/x HTTP/1.1\r\nHost: a\r\n\r\n"; d = "plain HTTP"; break; case 2: o.cutAt = (long)r.below(700); o.cutHow = (int)r.below(2); d = "cut in the handshake at " + S(o.cutAt); break; case 3: o.cutAt = (long)r.range(300, 4000); o.cutHow = (int)r.below(2); d = "cut after " + S(o.cutAt); break; case 4: o.flipAt = (long)r.below(r.chance(0.5) ? 600 : 3000); d = "bit flip at " + S(o.flipAt); break; case 5: o.bye = false; d = "no close_notify"; break; case 6: { std::string h("\x16\x03\x01", 3); auto n = r.below(70000); h += (char)(n >> 8); h += (char)n; o.raw = h + r.bytes(r.below(400)); d = "absurd record"; break; } case 7: ctx = w().noCert; d = "no certificate"; break; default: ctx = w().badCert; d = "a stranger's certificate"; }
        o.cutHow = std::min(o.cutHow, 1); vf::setCase(d + " end=" + S(o.cutHow) + " seg=" + S(o.seg) + " version=" + S(o.version)); { Bridge b(tcp(s.pt), ctx, o); std::string err; if (o.raw.empty()) { b.plain.send("GET /echo/bad HTTP/1.1\r\nHost: a\r\n\r\nGET /n/100000/1 HTTP/1.1\r\nHost: a\r\n\r\n"); auto p = b.plain.response(false, err, kind == 5 ? 10 : 3); if (p) { vf::check(kind != 7 && kind != 8, "unverified", "a peer without a valid certificate got an answer"); vf::check(p->body == "GET /echo/bad\n", "answer", "a damaged connection answered something else"); } if (r.chance(0.3)) b.plain.wait(0.002); if (kind != 4 || r.chance(0.5)) ::shutdown(b.plain.fd, SHUT_WR); } else { b.plain.wait(0.3); ::shutdown(b.plain.fd, SHUT_WR); }
          if (o.cutHow == 0) { if (kind == 4) b.plain.close(); } double t0 = now(); bool left = b.left(1.5); while (!left && now() - t0 < 40) { exchange(hq, healthy, 1, "k", false, "healthy meanwhile"); left = b.left(1.5); } vf::check(left, "linger", [&] { return "40 s later the server keeps the bad connection (" + d + ")"; }); vf::eval(2); (void)t0; }
        exchange(hq, healthy, 1, "h", false, "healthy during"); }
      exchange(hq, healthy, (int)r.range(1, 2), "h", true, "healthy after"); Bridge fresh(tcp(s.pt), w().asClient, opt(r, false)); exchange(hq, fresh, 1, "f", false, "fresh after"); healthy.finish(); fresh.finish(); vf::note("bad peers: " + d.substr(0, d.find_first_of("0123456789"))); }
    vf::check(vf::waitUntil([&] { return vf::countFds() <= fds; }, 8), "fd-leak", [&] { return "descriptors before " + S(fds) + ", after " + S(vf::countFds()); }); vf::sig(d + S((long)r.next())); }
// session resumption, many short connections
VF_SECTION("resume", 40, 600) { auto& r = rng; Srv s(index, 1); vf::Watch x("hang|resumption", 60); SSL_SESSION* ses = nullptr; int n = (int)r.range(2, 6), resumed = 0; int ver = r.chance(0.5) ? TLS1_2_VERSION : TLS1_3_VERSION; vf::setCase("resume, version " + S(ver)); for (int i = 0; i < n; ++i) { auto o = opt(r, false); o.version = ver; o.resume = ses; Bridge b(tcp(s.pt), w().asClient, o); exchange(r, b, 1, "r", false, ses ? "resuming" : "first"); b.finish(); vf::check(b.err.empty(), "tls", [&] { return b.err; }); resumed += b.resumed; if (ses) SSL_SESSION_free(ses); ses = b.got; b.got = nullptr; } if (ses) SSL_SESSION_free(ses); vf::note("resumed sessions", (std::uint64_t)resumed); vf::sig(S((long)r.next())); }
// the client against an independent TLS server
struct TlsServer { RawServer raw; TlsServer(std::function<void(Peer&, Bridge&, int)> f, std::function<std::pair<SSL_CTX*, Opt>(int)> mk, std::string host = "127.0.0.1") : raw([f, mk](Peer& p, int k) { auto [ctx, o] = mk(k); int fd = p.fd; p.fd = -1; Bridge b(fd, ctx, o); f(b.plain, b, k); b.finish(); }, std::move(host)) {} std::string url(std::string const& path, bool name, std::string const& scheme = "https") const { return scheme + "://" + (name ? "localhost:" + S(raw.pt) : raw.hostPort()) + path; } };
struct Call { bool post = false; std::string path, body; Rsp p; };
VF_SECTION("client", 130, 2500) { auto& r = rng;
    w(); std::thread([] {}).join(); int fds = vf::countFds(); bool name = r.chance(0.4); int n = (int)r.range(1, 5); std::vector<Call> cs; for (int i = 0; i < n; ++i) { Call c; c.post = r.chance(0.4); c.path = "/" + r.text(5); if (c.post) c.body = r.chance(0.4) ? r.bytes(big(r)) : r.text(1 + r.below(40)); c.p = rsp(r, false, r.chance(0.4), 300000); cs.push_back(std::move(c)); } std::atomic_int next{0}, conns{0}; std::uint64_t seed = r.next(); vf::setCase(S(n) + " requests"); vf::Watch x("hang|the https client does not come back", 90);
    { TlsServer A([&](Peer& p, Bridge& b, int) { ++conns; for (;;) { std::string err; auto q = request(p, err, 30); if (!q) { if (err != "closed") vf::fail("request", err + " " + b.err); else vf::check(b.err.empty() , "tls", [&] { return b.err; }); break; } int i = next++; if (i >= n) { vf::fail("duplicate", "a request nobody made"); return; } auto& c = cs[(std::size_t)i]; vf::eval(4); vf::check(q->method == (c.post ? "POST" : "GET") && q->target == c.path && q->body == c.body, "request", [&] { return q->method + " " + q->target + ": " + diff(q->body, c.body); }); vf::check(name ? b.sni == "localhost" : b.sni.empty(), "sni", [&] { return "server name '" + b.sni + "'"; }); p.send(c.p.interim + c.p.bytes); if (c.p.toClose) break; if (c.p.close) { double e = now() + 8; while (!p.eof && now() < e) p.wait(0.05); break; } } vf::check(hidden(b.seen, cs[0].path + " HTTP"), "clear", "plain text on the wire"); }, [&](int k) { vf::Rng q(seed + (std::uint64_t)k); return std::pair{w().asServer, opt(q, true)}; });
      HttpsClient<NoneProxy> cli; for (int i = 0; i < n; ++i) { auto& c = cs[(std::size_t)i]; auto u = i && r.chance(0.3) ? c.path : A.url(c.path, name); Out o = plain(c.post ? cli.post<decltype(20_s)>(u, c.body, HttpContentType::Text).get() : cli.get<decltype(20_s)>(u).get()); std::string why; vf::eval(3); vf::check(o.ok && o.status == c.p.status && o.body == c.p.body && sameHeaders(o.headers, c.p.headers, why), "response", [&] { return "request " + S(i) + " (" + c.p.kind + "): " + (o.ok ? o.status != c.p.status ? "status" : o.body != c.p.body ? diff(o.body, c.p.body) : why : o.what); }); } }
    vf::check(next == n, "request", [&] { return S(next) + " of " + S(n) + " requests arrived"; }); vf::check(vf::waitUntil([&] { return vf::countFds() <= fds; }, 5), "fd-leak", [&] { return "descriptors before " + S(fds) + ", after " + S(vf::countFds()); }); vf::note("client connections", (std::uint64_t)conns); vf::sig(S((long)seed)); }
// servers that must not be believed
VF_SECTION("client-bad", 130, 2500) { auto& r = rng;
    w(); std::thread([] {}).join(); int fds = vf::countFds(); int kind = (int)r.below(10); bool name = r.chance(0.4); std::string d; Rsp good = rsp(r, false, true, 50000), heal = rsp(r, false, false, 3000); std::atomic_bool healed{false}; std::atomic_int reqs{0}; std::uint64_t seed = r.next(); SSL_CTX* ctx = w().asServer; SSL_CTX* made = nullptr; Opt bad = opt(r, true); bad.keyUpdates = false; auto cert = [&](Cert& c, char const* s) { made = ctx = w().server(c); d = s; };
    switch (kind) { case 0: cert(w().self, "self-signed"); break; case 1: cert(w().wrong, "another host's certificate"); break; case 2: cert(w().old, "expired"); break; case 3: bad.raw = r.bytes(1 + r.below(5000)); d = "garbage"; break; case 4: bad.raw = "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok"; d = "plain HTTP"; break; case 5: bad.cutAt = (long)r.below(900); bad.cutHow = (int)r.below(3); d = "cut in the handshake at " + S(bad.cutAt); break; case 6: bad.flipAt = (long)r.below(1200); d = "bit flip at " + S(bad.flipAt); break; case 7: bad.cutAt = (long)(1100 + r.below(good.bytes.size())); bad.cutHow = (int)r.below(3); d = "cut after " + S(bad.cutAt); break; case 8: { good = rsp(r, false, true, 50000); while (!good.toClose) good = rsp(r, false, true, 50000); bad.bye = false; d = "body to the end, no close_notify"; break; } default: { std::string h("\x16\x03\x03", 3); auto n = r.below(70000); h += (char)(n >> 8); h += (char)n; bad.raw = h + r.bytes(r.below(300)); d = "absurd record"; } }
    vf::setCase(d + " how=" + S(bad.cutHow) + " version=" + S(bad.version) + " kind=" + good.kind); vf::Watch x("hang|the https client does not come back", 90); { TlsServer A([&](Peer& p, Bridge&, int) { if (healed) { std::string err; for (;;) { auto q = request(p, err, 20); if (!q) return; p.send(heal.interim + heal.bytes); } } if (!bad.raw.empty()) { double e = now() + 15; ::shutdown(p.fd, SHUT_WR); while (!p.eof && now() < e) p.wait(0.05); return; } std::string err; auto q = request(p, err, 20); if (!q) return; ++reqs; p.send(good.interim + good.bytes); if (good.toClose) return; if (request(p, err, 15)) { p.send(heal.interim + heal.bytes); double e = now() + 15; while (!p.eof && now() < e) p.wait(0.05); } }, [&](int k) { vf::Rng q(seed + (std::uint64_t)k); return healed ? std::pair{w().asServer, opt(q, true)} : std::pair{ctx, bad}; });
      HttpsClient<NoneProxy> cli; cli.setAutoReconnect(false); double t0 = now(); Out o = plain(cli.get<decltype(1_s)>(A.url("/secret", name)).get()); double took = now() - t0; vf::eval(4); std::string why; bool same = o.ok && o.status == good.status && o.body == good.body; bool harmless = (kind == 5 || kind == 6 || kind == 7); vf::check(!o.ok || (harmless && same), "believed", [&] { return "status " + S(o.status) + " with " + S((long)o.body.size()) + " bytes from a server that must not be believed: " + d; }); if (kind < 3) vf::check(reqs == 0, "sent", "a request was sent to an unverified server"); vf::check(took < 30, "late", [&] { return "the error took " + std::to_string(took) + " s: " + d; }); healed = true; Out o2 = plain(cli.get<decltype(20_s)>(A.url("/x", name)).get()); vf::check(o2.ok ? o2.body == heal.body : o.ok /* a cut right after a complete answer, without reconnection */, "unusable", [&] { return "the next request, after " + d + ": " + (o2.ok ? diff(o2.body, heal.body) : o2.what); }); }
    if (made) SSL_CTX_free(made); vf::check(vf::waitUntil([&] { return vf::countFds() <= fds; }, 5), "fd-leak", [&] { return "descriptors before " + S(fds) + ", after " + S(vf::countFds()); }); vf::note("bad servers: " + d.substr(0, d.find_first_of("0123456789"))); vf::sig(d + S((long)seed)); }
// both ends of the library: uploads, events, websockets, many clients
VF_SECTION("both", 40, 700) { auto& r = rng;
    w(); std::thread([] {}).join(); int fds = vf::countFds(); int n = (int)r.range(1, 5), threads = (int)r.range(1, 3); std::uint64_t seed = r.next(); vf::setCase(S(n) + " clients, " + S(threads) + " threads"); { Srv s(index, threads); vf::Watch x("hang|library to library over TLS", 120); std::vector<std::thread> ts; for (int i = 0; i < n; ++i) ts.emplace_back([&, i] { vf::Rng q(seed + (std::uint64_t)i); HttpsClient<NoneProxy> cli; auto base = "https://" + std::string(q.chance(0.5) ? "localhost" : "127.0.0.1") + ":" + S(s.pt), ws = "wss" + base.substr(5); for (int k = (int)q.range(1, 5); k--;) { vf::eval(2); switch (q.below(5)) {
        case 0: { auto m = big(q); auto o = plain(cli.get<decltype(20_s)>(base + "/n/" + S((long)m) + "/7").get()); vf::check(o.ok && o.body == pat(m, 7), "response", [&] { return o.ok ? diff(o.body, pat(m, 7)) : o.what; }); break; }
        case 1: { auto b = q.bytes(big(q)); auto o = plain(cli.post<decltype(20_s)>(base + "/echo/z", b, HttpContentType::Text).get()); vf::check(o.ok && o.body == "POST /echo/z\n" + b, "response", [&] { return o.ok ? diff(o.body, "POST /echo/z\n" + b) : o.what; }); break; }
        case 2: { auto b = q.bytes(big(q)); auto f = w().dir + "/cl-" + S((long)q.next()); std::ofstream(f, std::ios::binary) << b; auto o = plain(cli.uploadChunked<HttpMethod::PUT, decltype(20_s)>(base + "/up/" + S((long)(q.next() >> 8)), f, HttpContentType::Text).get()); vf::check(o.ok && o.body == S((long)b.size()) + ":" + S((long long)(vf::hashStr(b) >> 1)), "upload", [&] { return "uploaded " + S((long)b.size()) + " bytes: " + (o.ok ? o.body : o.what); }); std::filesystem::remove(f); break; }
        case 3: { int m = (int)q.below(20); std::vector<std::string> got; auto fn = [&](SseEvent e) -> TK { got.push_back(e.event + ":" + e.data); co_return; }; (void)cli.coSseLoop<HttpMethod::GET, decltype(20_s)>(base + "/sse/" + S(m), fn).runSync(); bool ok = (int)got.size() == m; for (int z = 0; ok && z < m; ++z) ok = got[(std::size_t)z].rfind("e" + S(z) + ":d" + S(z) + "\n", 0) == 0; vf::check(ok, "sse", [&] { return S((long)got.size()) + " events instead of " + S(m) + (got.empty() ? "" : ", first " + vf::esc(got[0])); }); break; }
        default: { std::vector<Msg> ms, back; for (int z = (int)q.range(1, 6); z--;) ms.push_back(message(q)); auto t = cli.wsLoop<decltype(20_s)>(ws + "/ws", [&](WebSocketClient<HttpsIO> c) -> TK { for (auto& m : ms) { co_await c.send((OpCode)m.op, m.body); auto p = co_await c.recv<true, decltype(20_s)>(OpCode::Text, OpCode::Binary); back.push_back({(int)p.opCode, p.content}); } co_await c.close(); }).get(); vf::check(bool(t) && back == ms, "ws", [&] { return (t ? "" : t.what() + ": ") + show(back) + " instead of " + show(ms); }); } } } }); for (auto& t : ts) t.join(); }
    vf::check(vf::waitUntil([&] { return vf::countFds() <= fds; }, 8), "fd-leak", [&] { return "descriptors before " + S(fds) + ", after " + S(vf::countFds()); }); vf::sig(S((long)seed)); }
// TLS through a proxy's tunnel, also after the proxy failed
template <class P> static void tunnel(vf::Rng& r) { w(); int fds = vf::countFds(); Rsp p1 = rsp(r, false, false, 60000); int fails = (int)r.below(3); std::uint64_t seed = r.next(); std::atomic_int n{0}; vf::setCase("tunnel, " + S(fails) + " failures"); vf::Watch x("hang|https through a proxy", 60); { RawServer A([&](Peer& p, int k) { auto need = [&](std::size_t m) { double e = now() + 10; while (p.in.size() < m && !p.eof && now() < e) p.wait(0.02); return p.in.size() >= m; }; if constexpr (std::is_same_v<P, HttpProxy>) { while (p.in.find("\r\n\r\n") == p.in.npos && !p.eof) p.wait(0.02); if (k < fails) { p.send("HTTP/1.1 503 No\r\n\r\n"); return; } p.in.clear(); p.send("HTTP/1.1 200 OK\r\n\r\n"); } else { if (!need(3)) return; p.in.erase(0, 3); p.send(std::string("\5\0", 2)); if (!need(5) || !need(7 + (std::size_t)(unsigned char)p.in[4])) return; p.in.clear(); if (k < fails) { p.send(std::string("\5\1\0\1\0\0\0\0\0\0", 10)); return; } p.send(std::string("\5\0\0\1\0\0\0\0\0\0", 10)); } vf::Rng q(seed); int fd = p.fd; p.fd = -1; Bridge b(fd, w().asServer, opt(q, true)); std::string err; auto rq = request(b.plain, err, 10); if (rq) { ++n; vf::check(rq->target == "/t" && b.sni == "localhost", "request", "target " + rq->target + " sni " + b.sni); b.plain.send(p1.interim + p1.bytes); double e = now() + 10; while (!b.plain.eof && now() < e) b.plain.wait(0.05); } b.finish(); });
      HttpsClient<P> cli{HttpClientOptions<P>{{(std::is_same_v<P, HttpProxy> ? "http://" : "socks5://") + A.hostPort()}}}; Out o; for (int i = 0; i <= fails && !o.ok; ++i) o = plain(cli.template get<decltype(20_s)>("https://localhost:4433/t").get()); vf::eval(2); vf::check(o.ok && o.body == p1.body, "response", [&] { return o.ok ? diff(o.body, p1.body) : o.what; }); } vf::check(vf::waitUntil([&] { return vf::countFds() <= fds; }, 5), "fd-leak", "descriptors"); vf::sig(S((long)seed)); }
VF_SECTION("tunnel", 60, 800) { if (index % 2) tunnel<HttpProxy>(rng); else tunnel<Socks5Proxy>(rng); }
// the TLS connection object itself, as server or client of another implementation: all its ways to send and to receive, in turns or both at once
struct Hd { std::uint32_t x; std::uint16_t y; char z[2]; };
static TK put(HttpsIO& io, std::string const& all, vf::Rng q, HX::coroutine::EventLoop& l) { using namespace HX::utils; std::size_t at = 0; while (at < all.size()) { std::size_t k = std::min(all.size() - at, q.chance(0.2) ? 70000 : 1 + q.below(4000)); std::span<char const> d{all.data() + at, k}; switch (q.below(3)) { case 0: co_await io.fullySend(d); break; case 1: co_await io.fullySend({all.data() + at, all.size() - at}, k); break; default: co_await io.template sendLinkTimeout<decltype(20_s)>(d); } at += k; if (q.chance(0.2)) co_await l.makeTimer().sleepFor(std::chrono::microseconds(q.below(300))); } }
static TK get(HttpsIO& io, std::string const& all, vf::Rng q) { using namespace HX::utils; std::size_t at = 0; while (at < all.size()) { std::size_t left = all.size() - at, k = q.chance(0.2) ? left : 1 + std::min<std::size_t>(left - 1, q.below(5000)); int how = (int)q.below(5); std::string buf(k + 4, '\x5a'); std::span<char> d{buf.data(), k}; int got = -1;
    switch (how) { case 0: co_await io.fullyRecv(d); got = (int)k; break; case 1: got = co_await io.recv(d); break; case 2: got = co_await io.recv({buf.data(), buf.size()}, k); break; case 3: { auto x = co_await io.template recvLinkTimeout<decltype(20_s)>(d); vf::check(x.index() == 0, "io-timeout", "20 s passed?"); got = HX::container::get<0, HX::exception::ExceptionMode::Nothrow>(x); break; } default: if (left < sizeof(Hd)) continue; { Hd h = co_await io.template recvStruct<Hd>(); k = sizeof h; got = (int)k; buf.assign((char const*)&h, k); buf += "\x5a\x5a\x5a\x5a"; } }
    vf::eval(); if (!vf::check(got > 0 && got <= (int)k, "io-count", [&] { return "receiving " + S((long)k) + " of " + S((long)left) + " bytes gave " + S(got) + " (way " + S(how) + ")"; })) co_return; if (!vf::check(all.compare(at, (std::size_t)got, buf, 0, (std::size_t)got) == 0, "io-bytes", [&] { return "the " + S(got) + " bytes at " + S((long)at) + " are others (way " + S(how) + ")"; })) co_return; if (how != 1) vf::check(buf.compare(k, 4, "\x5a\x5a\x5a\x5a") == 0, "io-overrun", "written behind the buffer"); at += (std::size_t)got; } }
VF_SECTION("io", 150, 3000) { auto& r = rng; using namespace HX::utils;
    w(); std::thread([] {}).join(); int fds = vf::countFds(); bool asServer = r.chance(0.5), duplex = r.chance(0.5); std::string x = r.bytes(r.chance(0.3) ? r.below(200000) : r.below(6000)), y = r.bytes(r.chance(0.3) ? r.below(200000) : r.below(6000)); int end = (int)r.below(3); vf::Watch wt("hang|a TLS connection object", 60);
    { auto [a, b] = pairFds(); auto o = opt(r, !asServer); if (o.version != TLS1_2_VERSION && o.keyUpdates && !duplex) o.keyUpdates = r.chance(0.5); if (duplex) o.keyUpdates = false; o.bye = end != 2; vf::setCase(std::string(asServer ? "server" : "client") + (duplex ? ", both ways at once, " : ", in turns, ") + S((long)x.size()) + " in, " + S((long)y.size()) + " out, pieces of " + S(o.seg) + ", end " + S(end)); Bridge br(b, asServer ? w().asClient : w().asServer, o); std::atomic_bool peerOk{false}, wentOn{false}, over{false}; std::string got;
      std::thread peer([&] { if (!br.plain.send(x, 30)) return; double e = now() + 30; while (br.plain.in.size() < y.size() && !br.plain.eof && now() < e) br.plain.wait(0.02); peerOk = br.plain.in == y; got = S((long)br.plain.in.size()); wentOn = true; if (end) { double e2 = now() + 20; while (!over && now() < e2) std::this_thread::sleep_for(std::chrono::milliseconds(1)); } });
      { HX::coroutine::EventLoop l; HttpsIO io{a, l}; std::string err; bool upOk = false; std::uint64_t s1 = r.next(); char c[4];
        auto task = [&]() -> TK { try { io.initSslBio(asServer ? SslContext::SslType::Server : SslContext::SslType::Client, asServer ? std::string_view{} : std::string_view{"localhost"}); co_await io.template initSsl<decltype(20_s)>(asServer); upOk = true; if (duplex) co_await HX::coroutine::whenAll(put(io, y, vf::Rng(s1), l), get(io, x, vf::Rng(vf::mix(s1)))); else { co_await get(io, x, vf::Rng(vf::mix(s1))); co_await put(io, y, vf::Rng(s1), l); } } catch (std::exception const& ex) { err = ex.what(); } catch (...) { err = "something else"; } };
        auto t = task(); l.start(t); l.run(); vf::check(err.empty(), "io", [&] { return std::string(upOk ? "failed after the handshake: " : "handshake: ") + err + " " + br.err; });
        auto t2 = [&]() -> TK { if (end && err.empty()) { double e2 = now() + 20; while (!wentOn && now() < e2) co_await l.makeTimer().sleepFor(std::chrono::milliseconds(1)); over = true; ::shutdown(br.plain.fd, SHUT_WR); int n = -2; bool threw = false; try { n = co_await io.recv(std::span<char>{c, 4}); } catch (...) { threw = true; } if (end == 1) vf::check(!threw && n == 0, "io-end", [&] { return "the peer's orderly end was reported as " + (threw ? std::string("an error") : S(n)); }); else vf::check(threw || n < 0, "io-end", [&] { return "a connection cut off was reported as " + S(n); }); } co_await io.close(); }; auto tt = t2(); l.start(tt); l.run(); }
      over = true; peer.join(); vf::check(peerOk.load(), "io-sent", [&] { return got + " of " + S((long)y.size()) + " bytes arrived unchanged " + br.err; }); br.left(10); br.finish(); vf::check(br.err.empty() || end == 2, "tls", [&] { return br.err; }); if (end == 0) vf::check(br.clean.load(), "io-close", "closing did not announce the end to the peer"); }
    vf::check(vf::waitUntil([&] { return vf::countFds() <= fds; }, 5), "fd-leak", "descriptors"); vf::note("TLS connection objects"); vf::sig(S((long)x.size()) + "/" + S((long)y.size()) + S(duplex) + S(asServer)); }
