// C28: a server starts, serves, times idle clients out, stops, and leaves nothing behind.
#include "http.hpp"
using namespace ht;
using namespace HX::net;
using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>; using TK = HX::coroutine::Task<>;

static std::atomic_long ids{0}; static std::atomic<HttpServer*> stopMe{nullptr};
static const std::string& big() { static std::string s(4 << 20, 'b'); return s; }
template <class R> static void routes(R& router) {
    router.template addEndpoint<GET, POST>("/echo/{id}", [](Req& q, Res& s) -> TK { auto id = q.getPathParam(0).template to<std::string>(); auto b = co_await q.template parseBody<decltype(1_s)>(); co_await s.setStatusAndContent(Status::CODE_200, id + b).sendRes(); });
    router.template addEndpoint<GET>("/slow/{ms}", [](Req& q, Res& s) -> TK { auto ms = q.getPathParam(0).template to<int>(); co_await static_cast<HX::coroutine::EventLoop&>(q.getIO()).makeTimer().sleepFor(std::chrono::milliseconds(ms)); co_await s.setStatusAndContent(Status::CODE_200, "slow").sendRes(); });
    router.template addEndpoint<GET>("/big", [](Req&, Res& s) -> TK { co_await s.setStatusAndContent(Status::CODE_200, big()).sendRes(); });
    router.template addEndpoint<GET>("/stop", [](Req&, Res& s) -> TK { if (auto* p = stopMe.load()) p->asyncStop(); co_await s.setStatusAndContent(Status::CODE_200, "bye").sendRes(); });
}
static std::string get(std::string p) { return "GET " + p + " HTTP/1.1\r\n\r\n"; }
static bool echo(Peer& p, std::string* why = nullptr) { std::string id = "e" + S(++ids), err; if (!p.send(get("/echo/" + id))) { if (why) *why = "cannot send"; return false; } auto x = p.response(false, err, 20); if (why) *why = err; return x && x->status == 200 && x->body == id; }
static std::string fdList() { std::string s; for (int i = 0; i < 200; ++i) { char b[200]; auto n = ::readlink(("/proc/self/fd/" + S(i)).c_str(), b, sizeof b); if (n > 0) s += S(i) + "=" + std::string(b, (std::size_t)n) + " "; } return s; }
static bool canBind(int pt) { int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), on = 1; ::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons((std::uint16_t)pt); bool ok = ::bind(fd, (sockaddr*)&a, sizeof a) == 0 && ::listen(fd, 1) == 0; ::close(fd); return ok; }
static void released(int pt, int fds, int th, char const* what) {
    vf::check(vf::waitUntil([&] { return vf::countThreads() <= th; }, 10), "thread-leak", [&] { return std::string(what) + ": " + S(vf::countThreads() - th) + " threads left running"; }); vf::check(vf::waitUntil([&] { return vf::countFds() <= fds; }, 5), "fd-leak", [&] { return std::string(what) + ": " + S(vf::countFds() - fds) + " descriptors left open: " + fdList(); });
    vf::check(vf::waitUntil([&] { return canBind(pt); }, 5), "port", [&] { return std::string(what) + ": the port cannot be bound again"; }); vf::check(tcp(pt) < 0, "port", [&] { return std::string(what) + ": somebody still accepts connections"; }); }
// a server with clients in every state is stopped at a random moment
VF_SECTION("cycle", 60, 1000) { auto& r = rng;
    big(); int pt = port() + (int)(index % 30), threads = (int)r.range(1, 6), how = (int)r.below(5); int fds = 0, th = 0; { std::thread([] {}).join(); vf::setCase("warm"); } fds = vf::countFds(); th = vf::countThreads(); std::string plan = S(threads) + " threads, stop by " + S(how) + ", clients"; double stopTook = 0;
    { auto server = std::make_unique<HttpServer>((std::uint16_t)pt); routes(*server); auto* sv = server.get(); std::thread runner; if (how == 4) runner = std::thread([&] { server->syncRun<decltype(400_ms)>((std::size_t)threads); }); else server->asyncRun<decltype(400_ms)>((std::size_t)threads);
      std::vector<Peer> ps; std::vector<int> kind; int n = (int)r.below(8); bool immediately = how != 4 && r.chance(0.15); int first = immediately ? -1 : how == 4 ? tcpRetry(pt) : tcp(pt); if (!immediately && how != 4) vf::check(first >= 0, "refused", [&] { return plan + ": asyncRun() came back but a connection was refused"; }); Peer probe(first); if (!immediately) { std::string why; vf::check(probe.fd >= 0 && echo(probe, &why), "no-start", [&] { return plan + ": the server does not answer: " + why; }); } if (immediately) n = 0;
      for (int i = 0; i < n; ++i) { ps.emplace_back(tcpRetry(pt)); int k = (int)r.below(7); kind.push_back(k); plan += " " + S(k); auto& p = ps.back(); if (k == 1) p.send("GET /ec"); if (k == 2) p.send("POST /echo/a HTTP/1.1\r\nContent-Length: 50\r\n\r\nhalf"); if (k == 3) { std::string why; vf::check(echo(p, &why), "not-served", [&] { return plan + ": " + why; }); } if (k == 4) p.send(get("/slow/" + S((long)r.below(300)))); if (k == 5) for (int j = 3; j--;) p.send(get("/big")); if (k == 6) { if (r.chance(0.5)) p.closeRst(); else p.close(); } }
      vf::setCase(plan); std::atomic_bool end{false}; std::vector<std::thread> busy; std::atomic_long wrong{0}, good{0}; int nb = immediately ? 0 : (int)r.below(3); for (int i = 0; i < nb; ++i) busy.emplace_back([&, persistent = r.chance(0.5)] { while (!end) { Peer p(tcp(pt)); if (p.fd < 0) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); continue; } for (int j = 0; (j < 20 || persistent) && !end; ++j) { std::string id = "e" + S(++ids), err; if (!p.send(get("/echo/" + id), 5)) break; auto x = p.response(false, err, 5); if (!x) break; if (x->status != 200 || x->body != id) ++wrong; else ++good; } } });
      if (r.chance(0.7)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(40000))); double t0 = now();
      { vf::Watch w("stop|the server does not stop: " + plan, 25); switch (how) { case 0: server->syncStop(); break; case 1: server->asyncStop(); break; case 2: break; case 3: if (!immediately) { stopMe = sv; Peer p(tcpRetry(pt)); std::string err; p.send(get("/stop")); vf::check(p.response(false, err, 15).has_value(), "stop-handler", [&] { return plan + ": the request that stopped the server got no answer: " + err; }); } else server->syncStop(); break; default: server->syncStop(); runner.join(); } server.reset(); } stopMe = nullptr;
      stopTook = now() - t0; end = true; for (auto& t : busy) t.join(); vf::check(wrong == 0, "mixed-up", [&] { return S(wrong) + " wrong answers"; }); ps.clear(); probe.close(); vf::note("answers to busy clients", (std::uint64_t)good.load()); }
    released(pt, fds, th, plan.c_str()); vf::note("stop took ms", (std::uint64_t)(stopTook * 1000)); vf::eval(5); vf::sig(plan);
}
VF_BOUND(100)
// idle connections are dropped after the timeout and not before; active ones are not dropped
VF_SECTION("idle", 12, 120) { auto& r = rng;
    int pt = port() + 31 + (int)(index % 4); vf::setCase("idle"); HttpServer server{(std::uint16_t)pt}; routes(server); server.asyncRun<decltype(800_ms)>((std::size_t)r.range(1, 3)); { Peer p(tcpRetry(pt)); if (!vf::check(p.fd >= 0 && echo(p), "no-start", "server does not answer")) return; }
    std::uint64_t seed = r.next(); std::vector<std::thread> ts; for (int k = 0; k < 14; ++k) ts.emplace_back([&, k] { vf::Rng q(vf::mix(seed + (std::uint64_t)k)); Peer p(tcp(pt)); if (p.fd < 0) { vf::fail("no-start", "cannot connect"); return; }
        if (k < 8) { double t = now(); static const char* what[] = {"a silent connection", "half a head", "after an answer", "half a body"}; int w = k % 4; if (w == 1) p.send("GET /echo/x HT"); if (w == 2) echo(p); if (w == 3) p.send("POST /echo/a HTTP/1.1\r\nContent-Length: 50\r\n\r\nhalf"); if (w != 2) t = now(); double last = w == 2 ? t : t; while (!p.eof && now() - t < 20) p.wait(0.05); double took = now() - last; vf::check(p.eof, "idle-kept", [&] { return std::string(what[w]) + " is still open after " + S((long)(took * 1000)) + " ms"; }); vf::check(took > 0.75 || !p.eof, "dropped-early", [&] { return std::string(what[w]) + " was dropped after " + S((long)(took * 1000)) + " ms"; }); vf::note(std::string("ms ") + what[w], (std::uint64_t)(took * 1000)); }
        else { double gap = 0, last = now(); auto send = [&](std::string_view s) { bool ok = p.send(s); double n = now(); gap = std::max(gap, n - last); last = n; return ok; }; bool ok = true; std::string why; double t = now(); int n = 0; while (ok && now() - t < 2.4) { std::string id = "a" + S(++ids), m = get("/echo/" + id); if (k % 2) { std::size_t cut = 1 + q.below(m.size() - 2); ok = send(m.substr(0, cut)); std::this_thread::sleep_for(std::chrono::milliseconds(q.range(100, 400))); ok = ok && send(m.substr(cut)); } else ok = send(m); auto x = ok ? p.response(false, why, 20) : std::nullopt; ok = x && x->body == id; ++n; std::this_thread::sleep_for(std::chrono::milliseconds(q.range(50, 400))); } vf::check(ok || gap > 0.6, "active-dropped", [&] { return "a client that was never silent for more than " + S((long)(gap * 1000)) + " ms was dropped: " + why; }); vf::note("requests of active clients", (std::uint64_t)n); if (gap > 0.6) vf::note("client itself too slow"); }
        vf::eval(); });
    for (auto& t : ts) t.join(); vf::Watch w("stop|the server does not stop", 25); server.syncStop(); vf::sig(seed);
}
// starting on a port somebody else owns ends cleanly; two servers side by side; the same port again and again
VF_SECTION("ports", 20, 300) { auto& r = rng;
    int pt = port() + 36 + (int)(index % 2) * 2; vf::setCase("ports"); std::thread([] {}).join(); int fds = vf::countFds(), th = vf::countThreads();
    if (index % 2) { int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons((std::uint16_t)pt); int on = 1; ::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); if (::bind(fd, (sockaddr*)&a, sizeof a) || ::listen(fd, 16)) { ::close(fd); vf::note("port not free"); return; } { HttpServer s{(std::uint16_t)pt}; routes(s); s.asyncRun<decltype(400_ms)>((std::size_t)r.range(1, 3)); std::this_thread::sleep_for(std::chrono::milliseconds(r.below(60))); std::thread acc([&] { for (;;) { int c = ::accept(fd, nullptr, nullptr); if (c < 0) break; ::close(c); } }); { vf::Watch w("stop|a server whose port is taken does not stop", 25); if (r.chance(0.5)) s.syncStop(); else s.asyncStop(); } vf::waitUntil([&] { return vf::countThreads() <= th + 1; }, 20); ::shutdown(fd, SHUT_RDWR); acc.join(); } ::close(fd); }
    else { for (int k = 0; k < 3; ++k) { HttpServer a{(std::uint16_t)pt}, b{(std::uint16_t)(pt + 1)}; routes(a); routes(b); a.asyncRun<decltype(400_ms)>(2); b.asyncRun<decltype(400_ms)>(1); Peer p(tcpRetry(pt)), q(tcpRetry(pt + 1)); vf::check(echo(p) && echo(q), "not-served", "two servers: no answer"); if (r.chance(0.5)) p.close(); vf::Watch w("stop|two servers do not stop", 25); a.syncStop(); std::string why; Peer q2(tcpRetry(pt + 1)); vf::check(echo(q2, &why), "disturbed", [&] { return "stopping one server disturbed the other: " + why; }); b.syncStop(); } }
    released(pt, fds, th, "ports"); vf::eval(2); vf::sig(vf::mix((std::uint64_t)index));
}
