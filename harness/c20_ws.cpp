// C20: WebSocket messages arrive intact, once and in order in both directions.
#include "ws.hpp"
using namespace wst;
using TK = HX::coroutine::Task<>;
struct Doc { int a = 0; std::string s; std::vector<int> v; bool operator==(Doc const&) const = default; };
static std::string jsonOf(Doc const& d) { std::string o; HX::reflection::toJson(d, o); return o; }
// one step of the program the library side runs
struct Step { bool in; int how; Msg m; Doc doc; };
struct Ctx { std::vector<Step> steps; std::vector<Msg> got; std::string err, end; std::atomic_bool done{false}; bool closes = false; };
template <class WS> static TK program(WS& ws, Ctx& c) { std::string body; bool failed = false;
    try { for (auto& s : c.steps) { if (s.in) { switch (s.how) {
                case 0: c.got.push_back({s.m.op, s.m.op == 1 ? co_await ws.recvText() : co_await ws.recvBytes()}); break;
                case 1: { auto p = co_await ws.template recv<true, decltype(10_s)>(OpCode::Binary, OpCode::Text); c.got.push_back({(int)p.opCode, p.content}); break; }
                case 2: { auto p = co_await ws.template recv<false, decltype(10_s)>((OpCode)s.m.op); c.got.push_back({(int)p.opCode, p.content}); break; }
                case 3: { auto p = co_await ws.recv(OpCode::Text, OpCode::Binary); c.got.push_back({(int)p.opCode, p.content}); break; }
                case 4: { Doc d; co_await ws.recvJson(d); if (!(d == s.doc)) c.err = "recvJson differs"; c.got.push_back(s.m); break; }
                default: { auto d = co_await ws.template recvJson<Doc>(); if (!(d == s.doc)) c.err = "recvJson differs"; c.got.push_back(s.m); } }
        } else { switch (s.how) {
                case 0: if (s.m.op == 1) co_await ws.sendText(s.m.body); else co_await ws.sendBytes(s.m.body); break;
                case 1: co_await ws.send((OpCode)s.m.op, s.m.body); break;
                case 2: if constexpr (requires { ws.sendPacketView(makePacketView(OpCode::Text, "")); } && std::is_same_v<WS, WebSocketServer<HttpIO>>) { auto v = makePacketView((OpCode)s.m.op, s.m.body); co_await ws.sendPacketView(v); } else co_await ws.send((OpCode)s.m.op, s.m.body); break;
                default: co_await ws.sendJson(s.doc); } } }
        if (c.closes) { co_await ws.close(); c.end = "closed"; }
        else { auto p = co_await ws.template recv<true, decltype(15_s)>(OpCode::Text, OpCode::Binary); c.err = "one message too many: " + show(Msg{(int)p.opCode, p.content}); } }
    catch (std::exception const& e) { c.end = e.what(); failed = true; }
    (void)failed; c.done = true; co_return; }
static std::vector<Step> steps(vf::Rng& r, std::size_t max) { std::vector<Step> v; std::size_t total = 0; for (int n = (int)r.range(1, (long)max); n-- && total < 600000;) { Step s; s.in = r.chance(0.5); s.m = message(r); s.how = (int)r.below(s.in ? 4 : 3); if (r.chance(0.1)) { s.doc.a = (int)r.next(); s.doc.s = r.text(r.below(300)); for (int k = (int)r.below(20); k--;) s.doc.v.push_back((int)r.below(1000)); s.m = {1, jsonOf(s.doc)}; s.how = s.in ? (r.chance(0.5) ? 4 : 5) : 3; } total += s.m.body.size(); v.push_back(std::move(s)); } return v; }
static void judge(Ctx& c, Collector& k, std::string const& desc, bool closed) {
    std::vector<Msg> in, out; for (auto& s : c.steps) (s.in ? in : out).push_back(s.m); vf::eval(in.size() + out.size() + 1);
    vf::check(k.err.empty(), "frame", [&] { return k.err + " (" + desc + ")"; });
    for (std::size_t i = 0; i < std::max(c.got.size(), in.size()); ++i) { if (i >= in.size()) { vf::fail("extra", "the library delivered " + S((long)c.got.size()) + " messages, " + S((long)in.size()) + " were sent: " + desc); break; } if (i >= c.got.size()) { vf::fail("received", "message " + S((long)i) + " " + show(in[i]) + " was not received (" + c.end + "): " + desc); break; } if (!(c.got[i] == in[i])) { vf::fail("received", "message " + S((long)i) + ": got " + show(c.got[i]) + " expected " + show(in[i]) + ": " + diff(c.got[i].body, in[i].body) + ": " + desc); break; } }
    for (std::size_t i = 0; i < std::max(k.msgs.size(), out.size()); ++i) { if (i >= out.size()) { vf::fail("extra-sent", "the library sent " + S((long)k.msgs.size()) + " messages instead of " + S((long)out.size()) + ": " + desc); break; } if (i >= k.msgs.size()) { vf::fail("sent", "message " + S((long)i) + " " + show(out[i]) + " did not arrive at the peer (" + c.end + "): " + desc); break; } if (!(k.msgs[i] == out[i])) { vf::fail("sent", "message " + S((long)i) + ": peer got " + show(k.msgs[i]) + " expected " + show(out[i]) + ": " + diff(k.msgs[i].body, out[i].body) + ": " + desc); break; } }
    vf::check(c.err.empty(), "extra", [&] { return c.err + ": " + desc; }); if (closed) vf::check(k.closes.size() == 1, "close", [&] { return S((long)k.closes.size()) + " close frames were sent (" + c.end + "): " + desc; }); }
static std::string describe(std::vector<Step> const& v) { std::string o; for (auto& s : v) o += (s.in ? "<" : ">") + show(s.m) + "/" + S(s.how) + " "; return o; }
// plays the peer: feeds the messages, collects the library's, closes
static void play(vf::Rng& r, Peer& p, Ctx& c, Collector& k, std::string head, std::function<bool()> shook, bool toServer, bool tcpLike, std::string const& desc) {
    std::string data; for (auto& s : c.steps) if (s.in) data += encode(r, s.m, toServer, 0.4); std::string code; if (r.chance(0.8)) { code = "\x03\xe8"; if (r.chance(0.5)) code += "bye"; } std::optional<std::uint32_t> mk; if (toServer) mk = maskKey(r); auto closeF = frame(true, 8, code, mk); bool early = !c.closes; if (early) data += closeF;
    auto give = [&](std::string_view d) { auto cs = cuts(r, d); if (tcpLike) { Feeder f(p); return f.feed(d, cs); } return feed(p, d, cs); };
    if (shook) { bool glued = r.chance(0.5); if (glued) data = head + data; else if (!give(head)) { vf::fail("refused", "the connection ended in the handshake: " + desc); return; } if (glued) give(data); if (!shook()) return; if (!glued) give(data); } else give(head + data);
    double e = now() + 30; while (k.pull(p) && k.closes.empty() && !p.eof && now() < e) p.wait(0.05);
    if (c.closes && !k.closes.empty()) p.send(closeF);
    while (k.pull(p) && !p.eof && now() < e) p.wait(0.05); k.pull(p); if (!p.eof && k.err.empty()) vf::fail("open", "the connection stays open after the closing handshake (" + S((long)k.closes.size()) + " close frames seen, library: " + c.end + "): " + desc);
    if (k.err.empty() && !p.in.empty()) k.err = "a cut frame at the end"; if (!c.closes && k.closes.size() == 1) vf::check(k.closes[0].substr(0, 2) == code.substr(0, 2), "close", [&] { return "close code echoed as " + vf::esc(k.closes[0]) + " for " + vf::esc(code) + ": " + desc; }); }

VF_SECTION("server", 500, 8000) { auto& r = rng;
    Ctx c; c.steps = steps(r, 12); c.closes = r.chance(0.2); auto desc = "server: " + describe(c.steps) + (c.closes ? "close()" : ""); vf::setCase(desc); vf::Watch w("wedged|" + desc, 50); auto key = randomKey(r); Collector k{false};
    Router<HttpIO> router; router.template addEndpoint<GET>("/ws", [&c](HttpRequest<HttpIO>& req, HttpResponse<HttpIO>& res) -> TK { auto ws = co_await WebSocketFactory{req, res}.accept(); co_await program(ws, c); });
    { Served<decltype(20_s)> s(router); play(r, s.peer, c, k, hello(r, key), [&] { std::string err; if (welcomed(s.peer, key, err)) return true; vf::fail("handshake", err + ": " + desc); return false; }, true, false, desc); s.finish(); }
    judge(c, k, desc, true); vf::sig(desc); vf::note("messages", c.steps.size()); }
VF_BOUND(60)
static std::mutex keysM; static std::set<std::string> keys;
VF_SECTION("client", 400, 6000) { auto& r = rng;
    Ctx c; c.steps = steps(r, 10); c.closes = r.chance(0.3); auto desc = "client: " + describe(c.steps) + (c.closes ? "close()" : ""); vf::setCase(desc); vf::Watch w("wedged|" + desc, 50); Collector k{true}; vf::Rng r2 = r; r.next(); std::string target = r.chance(0.5) ? "/ws" : "/" + r.text(4) + "?q=" + r.text(3);
    { std::string hp; RawServer srv([&](Peer& p, int n) { if (n) { vf::fail("again", "the client connected again: " + desc); return; } std::string err, key; auto q = request(p, err); if (!q) { vf::fail("handshake", "bad handshake request: " + err); return; } if (!asked(*q, hp, target, key, err)) { vf::fail("handshake", "handshake request: " + err); return; } { std::lock_guard _{keysM}; vf::check(keys.insert(key).second, "key-reused", "the key " + key + " was used twice"); } play(r2, p, c, k, welcome(r2, key), {}, false, true, desc); }); hp = srv.hostPort();
      HX::net::HttpClient cli{}; auto t = cli.template wsLoop<decltype(15_s)>(srv.url(target, "ws"), [&c](WSClient ws) -> TK { co_await program(ws, c); }).get(); vf::check(bool(t), "handshake", [&] { return "the client failed: " + t.what() + ": " + desc; }); srv.stop(); }
    judge(c, k, desc, true); if (k.masks.size() >= 4) { std::set<std::uint32_t> u(k.masks.begin(), k.masks.end()); vf::check(u.size() > 1, "mask", [&] { return S((long)k.masks.size()) + " frames share one masking key"; }); } vf::sig(desc); vf::note("messages", c.steps.size()); }
VF_BOUND(60)
VF_SECTION("refuse", 400, 6000) { auto& r = rng;
    auto key = randomKey(r); static const char* hs[] = {"upgrade", "connection", "sec-websocket-key", "origin"}; bool server = r.chance(0.5); vf::eval();
    if (server) { std::string drop; std::map<std::string, std::string> put; int how = (int)r.below(8); if (how < 4) drop = hs[how]; else if (how == 4) put["upgrade"] = r.pick({std::string("h2c"), std::string("websocketx"), std::string("web socket"), std::string("")}); else if (how == 5) put["connection"] = r.pick({std::string("keep-alive"), std::string("Upgraded"), std::string("not-upgrade"), std::string("")}); bool good = how > 5; auto text = hello(r, key, "/ws", drop, put); auto desc = "server handshake: " + vf::esc(text, 500); vf::setCase(desc); vf::Watch w("wedged|" + desc, 40); std::atomic_bool in{false};
        Router<HttpIO> router; router.template addEndpoint<GET>("/ws", [&](HttpRequest<HttpIO>& req, HttpResponse<HttpIO>& res) -> TK { auto ws = co_await WebSocketFactory{req, res}.accept(); in = true; co_await ws.sendText("hi"); });
        Served<decltype(5_s)> s(router); std::string err; feed(s.peer, text, cuts(r, text)); if (good) { bool ok = welcomed(s.peer, key, err); vf::check(ok, "handshake", [&] { return err + ": " + desc; }); if (ok) { auto f = next(s.peer, err); vf::check(f && f->op == 1 && f->body == "hi" && !f->masked, "sent", desc); } } else { auto x = s.peer.response(false, err); vf::check(x && x->status >= 400 && x->status < 500, "accepted", [&] { return "a bad handshake got " + (x ? "status " + S(x->status) : err) + ": " + desc; }); vf::check(!in, "accepted", "the endpoint went on: " + desc); }
        double e = now() + 10; while (!s.peer.eof && now() < e) s.peer.wait(0.05); vf::check(s.peer.eof, "open", "the connection stays open: " + desc); s.finish(); vf::sig(desc); return; }
    int how = (int)r.below(10); std::string desc = "client handshake variant " + S(how); vf::setCase(desc); vf::Watch w("wedged|" + desc, 40); vf::Rng r2 = r; r.next(); std::atomic_bool in{false}, sent{false};
    { RawServer srv([&](Peer& p, int) { std::string err; auto q = request(p, err); if (!q) return; auto kp = q->get("sec-websocket-key"); std::string key = kp ? *kp : ""; std::string a = acceptOf(key), o; std::map<std::string, std::string> put; std::string drop;
            switch (how) { case 0: a[r2.below(27)] ^= 1; put["sec-websocket-accept"] = a; break; case 1: put["sec-websocket-accept"] = acceptOf(randomKey(r2)); break; case 2: put["sec-websocket-accept"] = key; break; case 3: { auto b = low(a); if (b == a) b[0] = '!'; put["sec-websocket-accept"] = b; break; } case 4: drop = r2.chance(0.5) ? "sec-websocket-accept" : r2.chance(0.5) ? "upgrade" : "connection"; break; case 5: put["upgrade"] = r2.pick({std::string("h2c"), std::string("websockets")}); break; case 6: put["connection"] = r2.pick({std::string("keep-alive"), std::string("close")}); break; case 7: return; default: break; }
            o = welcome(r2, key, drop, put); if (how == 8) { static const char* st[] = {"200 OK", "403 Forbidden", "500 Oops", "302 Found", "100 Continue\r\n\r\nHTTP/1.1 404 Not Found"}; o = "HTTP/1.1 " + std::string(st[r2.below(5)]) + o.substr(o.find("\r\n")); } o += frame(true, 1, "hi", {}); Feeder f(p); f.feed(o, cuts(r2, o)); double e = now() + 8; while (!p.eof && now() < e) { p.wait(0.05); if (!p.in.empty()) { sent = sent || how == 8 ? sent.load() : true; } } });
      if (how == 9) srv.stop(); HX::net::HttpClient cli{}; std::string what; bool got; if (r2.chance(0.5)) { auto t = cli.template wsLoop<decltype(4_s)>(srv.url("/ws", "ws"), [&](WSClient ws) -> TK { in = true; co_await ws.recvText(); }).get(); got = (bool)t; what = got ? "" : t.what(); } else { auto t = cli.template wsLoop<decltype(4_s)>(srv.url("/ws", "ws"), [&](WSClient ws) -> HX::coroutine::Task<int> { in = true; co_await ws.recvText(); co_return 7; }).get(); got = (bool)t; what = got ? "" : t.what(); } vf::check(!got && !in, "accepted", [&] { return "the client took the handshake for good: " + desc; }); static const std::string empty = HX::container::Try<int>{}.what(); vf::check(!what.empty() && what != empty, "error", [&] { return "the client fails without saying why (" + what + "): " + desc; }); cli.close(); if (how != 9) srv.stop(); } vf::sig(desc + S((long)r2.next())); }
VF_BOUND(60)
