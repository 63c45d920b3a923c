// C21: WebSocket control frames and protocol violations are handled safely.
#include "ws.hpp"
using namespace wst;
using TK = HX::coroutine::Task<>;
struct Lib { std::mutex m; std::vector<Msg> got; std::string end; std::atomic_bool in{false}, done{false}; std::size_t closeAfter = ~0ul; bool closeAgain = false, retry = false; std::string after; };
// receives until an error; optionally closes itself after some messages; optionally tries to go on after the error
template <class T, class WS> static TK receiver(WS& ws, Lib& l) { l.in = true;
    try { for (std::size_t n = 0;; ++n) { if (n == l.closeAfter) { co_await ws.close(); std::lock_guard _{l.m}; l.end = "closed"; break; } auto p = co_await ws.template recv<true, T>(OpCode::Text, OpCode::Binary); std::lock_guard _{l.m}; l.got.push_back({(int)p.opCode, std::move(p.content)}); } }
    catch (std::exception const& e) { std::lock_guard _{l.m}; l.end = std::string("!") + e.what(); }
    if (l.retry) { for (int i = 0; i < 3; ++i) try { auto p = co_await ws.template recv<true, T>(OpCode::Text, OpCode::Binary); std::lock_guard _{l.m}; l.after += show(Msg{(int)p.opCode, p.content}) + vf::esc(p.content, 30); } catch (std::exception const&) {} }
    if (l.closeAgain) { try { co_await ws.close(); } catch (std::exception const&) {} }
    l.done = true; }
// runs `peer` against the library in either role
template <class T = decltype(10_s)> static void run(vf::Rng& r, bool server, Lib& l, std::string const& desc, std::function<void(Peer&, std::string const& head, std::function<bool(std::string_view, std::vector<std::size_t> const&)>)> peer) {
    if (server) { auto key = randomKey(r); Router<HttpIO> router; router.template addEndpoint<GET>("/ws", [&l](HttpRequest<HttpIO>& req, HttpResponse<HttpIO>& res) -> TK { auto ws = co_await WebSocketFactory{req, res}.accept(); co_await receiver<T>(ws, l); });
        Served<decltype(20_s)> s(router); auto h = hello(r, key); s.peer.send(h); std::string err; if (!welcomed(s.peer, key, err)) { vf::fail("handshake", err + ": " + desc); return; } peer(s.peer, "", [&](std::string_view d, std::vector<std::size_t> const& c) { return feed(s.peer, d, c); }); s.join(20); }
    else { RawServer srv([&](Peer& p, int n) { if (n) return; std::string err, key; auto q = request(p, err); if (!q) { vf::fail("handshake", err); return; } auto kp = q->get("sec-websocket-key"); if (kp) key = *kp; Feeder f(p); p.send(welcome(r, key)); peer(p, "", [&](std::string_view d, std::vector<std::size_t> const& c) { return f.feed(d, c); }); });
        HX::net::HttpClient cli{}; auto fut = cli.template wsLoop<decltype(10_s)>(srv.url("/ws", "ws"), [&l](WSClient ws) -> TK { co_await receiver<T>(ws, l); }); auto t = fut.get(); vf::check(bool(t), "handshake", [&] { return "the client failed: " + t.what() + ": " + desc; }); cli.close(); srv.stop(); } }
static bool prefix(std::vector<Msg> const& a, std::vector<Msg> const& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }
static std::string cmp(std::vector<Msg> const& got, std::vector<Msg> const& want) { std::size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; return "delivered " + show(got) + "expected " + show(want) + (i < got.size() && i < want.size() ? "(message " + S((long)i) + ": " + diff(got[i].body, want[i].body) + ")" : ""); }

// pings, pongs and fragments in any order; the messages arrive whole, every ping is answered
VF_SECTION("control", 600, 9000) { auto& r = rng;
    bool server = r.chance(0.5); Lib l; std::vector<Msg> want; std::vector<std::string> pings; std::string data, script; auto mk = [&]() -> std::optional<std::uint32_t> { if (server) return maskKey(r); return {}; };
    auto ctl = [&](std::string& o) { for (int n = (int)r.below(3); n--;) { static const std::size_t e[] = {0, 1, 2, 124, 125}; auto b = r.bytes(r.chance(0.6) ? e[r.below(5)] : r.below(126)); if (r.chance(0.7)) { pings.push_back(b); o += frame(true, 9, b, mk()); script += "ping" + S((long)b.size()) + " "; } else { o += frame(true, 10, b, mk()); script += "pong" + S((long)b.size()) + " "; } } };
    for (int n = (int)r.range(1, 8); n--;) { ctl(data); auto m = message(r); if (m.body.size() > 80000) m.body.resize(1000); if (m.op == 1 && !utf8(m.body)) m.op = 2; script += show(m) + " "; data += encode(r, m, server, 0.8, ctl); want.push_back(m); } ctl(data);
    bool self = r.chance(0.35); l.closeAgain = r.chance(0.3); std::string code = r.chance(0.8) ? std::string("\x03\xe9") + r.text(r.below(20), "abc ") : ""; std::size_t upTo = want.size(); if (self) { l.closeAfter = upTo = r.below(want.size() + 1); script += "close() after " + S((long)upTo); } else script += "close" + S((long)code.size());
    auto desc = std::string(server ? "server: " : "client: ") + script; vf::setCase(desc); vf::Watch w("wedged|" + desc, 50); Collector k{!server}; bool eof = false; auto closeF = frame(true, 8, code, mk()); if (!self) data += closeF; vf::Rng r2 = r; auto cs = cuts(r, data); r.next();
    run(r2, server, l, desc, [&](Peer& p, std::string const&, auto give) { give(data, cs); double e = now() + 25; while (k.pull(p) && k.closes.empty() && !p.eof && now() < e) p.wait(0.05); if (self && !k.closes.empty()) p.send(closeF); while (k.pull(p) && !p.eof && now() < e) p.wait(0.05); k.pull(p); eof = p.eof; p.close(); });
    want.resize(upTo); vf::eval(want.size() + pings.size() + 3); std::lock_guard _{l.m};
    vf::check(l.got == want, "messages", [&] { return cmp(l.got, want) + " [" + l.end + "]: " + desc; }); vf::check(k.err.empty(), "frame", [&] { return k.err + ": " + desc; });
    bool ok = k.pongs.size() <= pings.size() && std::equal(k.pongs.begin(), k.pongs.end(), pings.begin()) && (self || k.pongs.size() == pings.size()); vf::check(ok, "pong", [&] { std::size_t i = 0; while (i < k.pongs.size() && i < pings.size() && k.pongs[i] == pings[i]) ++i; return S((long)k.pongs.size()) + " pongs for " + S((long)pings.size()) + " pings, first difference at " + S((long)i) + " [" + l.end + "]: " + desc; });
    vf::check(k.closes.size() == 1, "close", [&] { return S((long)k.closes.size()) + " close frames [" + l.end + "]: " + desc; }); if (!self && k.closes.size() == 1) vf::check(k.closes[0].substr(0, 2) == code.substr(0, 2), "close", [&] { return "close " + vf::esc(code) + " answered by " + vf::esc(k.closes[0]) + ": " + desc; });
    vf::check(self ? l.end == "closed" : l.end[0] == '!', "end", [&] { return "the receiver ended with '" + l.end + "': " + desc; }); vf::check(k.msgs.empty(), "sent", [&] { return "the library sent messages nobody wrote: " + desc; }); vf::check(eof, "open", [&] { return "the connection stays open after the closing handshake: " + desc; }); vf::sig(desc); vf::note("pings", pings.size()); }
VF_BOUND(60)

// a correct stream damaged in one way or another, judged by the reference decoder
VF_SECTION("damage", 1500, 30000) { auto& r = rng;
    bool server = r.chance(0.5); Lib l; l.retry = r.chance(0.3); l.closeAgain = r.chance(0.2); std::string data, how; auto mk = [&]() -> std::optional<std::uint32_t> { if (server) return maskKey(r); return {}; }; auto ctl = [&](std::string& o) { if (r.chance(0.3)) o += frame(true, r.chance(0.5) ? 9 : 10, r.bytes(r.below(126)), mk()); };
    std::vector<std::size_t> bounds{0}; for (int n = (int)r.below(6); n--;) { ctl(data); Msg m{r.chance(0.5) ? 1 : 2, ""}; m.body = text(r, r.chance(0.2) ? r.below(70000) : r.chance(0.3) ? 120 + r.below(12) : r.below(60)); data += encode(r, m, server, 0.6, ctl); bounds.push_back(data.size()); } std::size_t at = r.pick(bounds); bool rst = false;
    auto bad = [&](std::string s) { if (r.chance(0.5)) data.insert(at, s); else data = data.substr(0, at) + s; };
    switch (r.below(14)) {
    case 0: bad(frame(r.chance(0.5), (int)r.below(16), r.bytes(r.below(20)), mk(), 1 + (int)r.below(7))); how = "reserved bits"; break;
    case 1: bad(frame(true, r.pick({3, 4, 5, 6, 7, 11, 12, 13, 14, 15}), r.bytes(r.below(20)), mk())); how = "reserved opcode"; break;
    case 2: bad(frame(false, 8 + (int)r.below(3), r.bytes(r.below(20)), mk())); how = "fragmented control"; break;
    case 3: bad(frame(true, 8 + (int)r.below(3), r.bytes(126 + r.below(400)), mk())); how = "long control"; break;
    case 4: { std::optional<std::uint32_t> m; if (!server) m = maskKey(r); bad(frame(true, r.pick({0, 1, 2, 8, 9, 10}), r.bytes(r.below(60)), m)); how = "wrong masking"; break; }
    case 5: bad(frame(r.chance(0.5), 0, r.bytes(r.below(20)), mk())); how = "continuation of nothing"; break;
    case 6: bad(frame(false, 1, r.bytes(r.below(20)), mk()) + (r.chance(0.5) ? frame(true, 9, "x", mk()) : "") + frame(r.chance(0.5), 1 + (int)r.below(2), r.bytes(r.below(20)), mk())); how = "message inside a message"; break;
    case 7: { std::string f; f += (char)(0x80 | (1 + r.below(2))); f += (char)((server ? 0x80 : 0) | 127); static const std::uint64_t ls[] = {~0ull, 1ull << 63, (1ull << 63) - 1, 1ull << 62, 1ull << 40, 1ull << 33, 3ull << 30, 1ull << 31}; auto n = ls[r.below(8)]; for (int i = 8; i--;) f += (char)(n >> (8 * i)); if (server) f += r.bytes(4); f += r.bytes(r.below(40000)); data = data.substr(0, at) + f; how = "announces " + S((long long)n) + " bytes"; break; }
    case 8: case 9: if (!data.empty()) data.resize(r.below(data.size())); rst = r.chance(0.3); how = "cut short"; break;
    case 10: case 11: for (int k = (int)r.range(1, 4); k-- && !data.empty();) { auto i = r.chance(0.6) ? std::min(r.pick(bounds) + r.below(4), data.size() - 1) : r.below(data.size()); data[i] = (char)(r.chance(0.5) ? data[i] ^ (1 << r.below(8)) : (int)r.below(256)); } how = "flipped bytes"; break;
    case 12: data = r.bytes(r.below(400)); how = "garbage"; break;
    default: if (data.size() > 2) { auto i = r.below(data.size()), n = r.below(std::min<std::size_t>(data.size() - i, 20)) + 1; if (r.chance(0.5)) data.erase(i, n); else data.insert(i, data.substr(i, n)); } how = "shifted bytes"; }
    auto ref = decode(data, server); auto desc = std::string(server ? "server: " : "client: ") + how + (rst ? ", reset" : "") + ", reference: " + show(ref.msgs) + "then " + (ref.closed ? "close" : ref.bad) + ": " + vf::esc(data, 160); vf::setCase(desc); vf::Watch w("wedged|" + desc, 50); Collector k{!server}; bool eof = false; vf::Rng r2 = r; auto cs = cuts(r, data); r.next();
    run(r2, server, l, desc, [&](Peer& p, std::string const&, auto give) { bool all = give(data, cs); if (rst && all) { p.drained(); if (r2.chance(0.5)) { p.closeRst(); return; } } ::shutdown(p.fd, SHUT_WR); double e = now() + 20; while (k.pull(p) && !p.eof && now() < e) p.wait(0.05); k.pull(p); eof = p.eof; p.close(); });
    vf::eval(4); std::lock_guard _{l.m}; bool okMsgs = rst ? prefix(l.got, ref.msgs) : ref.soft ? prefix(l.got, ref.msgs) && l.got.size() >= ref.softMsgs : l.got == ref.msgs; vf::check(okMsgs, prefix(l.got, ref.msgs) ? "lost" : "invented", [&] { return cmp(l.got, ref.msgs) + " [" + l.end + "]: " + desc; });
    vf::check(l.done && !l.end.empty() && l.end[0] == '!', "no-error", [&] { return "the receiver did not get an error [" + l.end + "]: " + desc; }); vf::check(rst || l.after.empty(), "after-error", [&] { return "delivered after the error: " + l.after + ": " + desc; }); // a receiver that leaves bytes unread resets the connection, which may swallow its last frames
    bool clean = ref.closed ? ref.rest == 0 : ref.bad == "eof" || ref.bad == "cut"; if (!rst) { vf::check(eof, "open", [&] { return "the connection stays open: " + desc; }); bool ok = k.pongs.size() <= ref.pings.size() && std::equal(k.pongs.begin(), k.pongs.end(), ref.pings.begin()) && (ref.soft || !clean || k.pongs.size() == ref.pings.size()); vf::check(ok, "pong", [&] { return S((long)k.pongs.size()) + " pongs for " + S((long)ref.pings.size()) + " pings [" + l.end + "]: " + desc; }); if (ref.closed && clean && !ref.soft) vf::check(k.closes.size() == 1, "close", [&] { return S((long)k.closes.size()) + " close frames: " + desc; }); vf::check(k.closes.size() < 2 , "close", [&] { return S((long)k.closes.size()) + " close frames: " + desc; }); vf::check(k.err.empty(), "frame", [&] { return k.err + ": " + desc; }); }
    vf::sig(desc); vf::note(how.substr(0, 12)); }
VF_BOUND(60)

// silence: inside a frame it ends the connection, between frames it is bridged by pings
template <class WS> static TK idler(WS& ws, Lib& l, int how) { l.in = true; try { for (;;) { if (how == 0) { auto p = co_await ws.template recv<false, decltype(150_ms)>(OpCode::Text, OpCode::Binary); std::lock_guard _{l.m}; l.got.push_back({(int)p.opCode, std::move(p.content)}); } else { auto p = co_await ws.template recv<false, decltype(150_ms)>(OpCode::Text); std::lock_guard _{l.m}; l.got.push_back({(int)p.opCode, std::move(p.content)}); } } } catch (std::exception const& e) { std::lock_guard _{l.m}; l.end = std::string("!") + e.what(); } l.done = true; }
VF_SECTION("silence", 64, 640) { auto& r = rng;
    bool server = r.chance(0.5); bool stall = r.chance(0.5); Lib l; Collector k{!server}; vf::eval(3); auto mk = [&]() -> std::optional<std::uint32_t> { if (server) return maskKey(r); return {}; }; vf::Rng r2 = r; r.next();
    if (stall) { auto m = message(r); if (m.body.size() < 2) m.body = "hello"; auto first = r.chance(0.5) ? frame(true, 2, "ok", mk()) : ""; auto f = frame(true, m.op, m.body, mk()); auto n = 1 + r.below(r.chance(0.5) ? std::min<std::size_t>(f.size() - 1, 12) : f.size() - 1); f.resize(n); auto desc = std::string(server ? "server: " : "client: ") + "stalls after " + S((long)n) + " bytes of " + show(m); vf::setCase(desc); vf::Watch w("wedged|" + desc, 40); bool eof = false; double took = 0;
        run<decltype(400_ms)>(r2, server, l, desc, [&](Peer& p, std::string const&, auto) { p.send(first + f); double t = now(); while (k.pull(p) && !p.eof && now() < t + 15) p.wait(0.05); took = now() - t; eof = p.eof; p.close(); }); std::lock_guard _{l.m};
        vf::check(eof && took < 12, "stall", [&] { return "a peer that stalls inside a frame is waited for (" + S((long)(took * 1000)) + " ms, timeout 400 ms) [" + l.end + "]: " + desc; }); vf::check(l.got.size() == !first.empty() && !l.end.empty() && l.end[0] == '!', "no-error", [&] { return cmp(l.got, {}) + " [" + l.end + "]: " + desc; }); vf::sig(desc); return; }
    // the peer speaks only after the library has pinged; what it says first is chosen at random
    std::vector<Msg> want; int how = r.chance(0.5) ? 0 : 1; std::string script; std::vector<std::vector<std::pair<int, std::string>>> rounds; for (int n = (int)r.range(1, 4); n--;) { std::vector<std::pair<int, std::string>> v; for (int q = (int)r.range(1, 4); q--;) { int op = r.chance(0.4) ? 10 : r.chance(0.2) ? 9 : how == 0 && r.chance(0.5) ? 2 : 1; v.emplace_back(op, op > 2 ? r.bytes(r.below(20)) : text(r, r.below(100))); if (op < 3) want.push_back({op, v.back().second}); script += "op" + S(op) + " "; } script += "| "; rounds.push_back(v); }
    auto desc = std::string(server ? "server: " : "client: ") + "after each keep-alive ping: " + script; vf::setCase(desc); vf::Watch w("wedged|" + desc, 40); bool eof = false; std::string err; std::size_t pingsIn = 0; auto key = randomKey(r);
    auto peer = [&](Peer& p) { for (auto& v : rounds) { auto had = k.pings.size(); double e = now() + 10; while (k.pull(p) && k.pings.size() == had && !p.eof && now() < e) p.wait(0.05); if (k.pings.size() == had) { err = "no keep-alive ping"; break; } for (auto& [op, b] : v) { std::optional<std::uint32_t> m; if (server) m = maskKey(r2); p.send(frame(true, op, op == 10 ? k.pings.back() : b, m)); if (op == 9) ++pingsIn; } } std::optional<std::uint32_t> m; if (server) m = maskKey(r2); p.send(frame(true, 8, "\x03\xe8", m)); double e = now() + 10; while (k.pull(p) && !p.eof && now() < e) p.wait(0.05); eof = p.eof; p.close(); };
    if (server) { Router<HttpIO> router; router.template addEndpoint<GET>("/ws", [&](HttpRequest<HttpIO>& req, HttpResponse<HttpIO>& res) -> TK { auto ws = co_await WebSocketFactory{req, res}.accept(); co_await idler(ws, l, how); }); Served<decltype(20_s)> s(router); s.peer.send(hello(r2, key)); std::string e2; if (!welcomed(s.peer, key, e2)) { vf::fail("handshake", e2); return; } peer(s.peer); s.join(20); }
    else { RawServer srv([&](Peer& p, int n) { if (n) return; std::string e2; auto q = request(p, e2); if (!q) return; p.send(welcome(r2, *q->get("sec-websocket-key"))); peer(p); }); HX::net::HttpClient cli{}; auto t = cli.template wsLoop<decltype(10_s)>(srv.url("/ws", "ws"), [&](WSClient ws) -> TK { co_await idler(ws, l, how); }).get(); cli.close(); srv.stop(); }
    std::lock_guard _{l.m}; vf::check(err.empty(), "keep-alive", [&] { return err + " [" + l.end + "]: " + desc; }); vf::check(l.got == want, "messages", [&] { return cmp(l.got, want) + " [" + l.end + "]: " + desc; }); vf::check(eof && k.closes.size() == 1 && k.pongs.size() == pingsIn && k.err.empty(), "close", [&] { return S((long)k.closes.size()) + " close frames, " + S((long)k.pongs.size()) + "/" + S((long)pingsIn) + " pongs, " + k.err + " [" + l.end + "]: " + desc; }); vf::sig(desc); }
VF_BOUND(60)

// a peer that has gone without a word: unanswered pings, an unanswered close, a read with its own timeout
template <class WS> static TK lonely(WS& ws, Lib& l, int mode) { l.in = true; try { if (mode == 2) { (void)co_await ws.template recv<true, decltype(300_ms)>(OpCode::Text); } else if (mode == 3) co_await ws.close(); else for (;;) (void)co_await ws.template recv<false, decltype(150_ms)>(OpCode::Text, OpCode::Binary); } catch (std::exception const& e) { std::lock_guard _{l.m}; l.end = std::string("!") + e.what(); } l.done = true; }
VF_SECTION("vanished", 8, 48) { auto& r = rng;
    bool server = index & 1; int mode = (int)(index >> 1) & 3; bool chatty = mode == 3 && r.chance(0.5); int pongs = mode == 1 ? (int)r.range(1, 3) : 0; Lib l; Collector k{!server}; vf::eval(2); vf::Rng r2 = r; r.next(); auto key = randomKey(r);
    auto desc = std::string(server ? "server: " : "client: ") + (mode == 2 ? "reads with a timeout of its own" : mode == 3 ? chatty ? "closes, the peer goes on sending" : "closes, the peer is silent" : "pings, the peer answers " + S(pongs) + " of them"); vf::setCase(desc); vf::Watch w("wedged|" + desc, 70); double took = 0; std::string err;
    auto peer = [&](Peer& p) { auto mk = [&]() -> std::optional<std::uint32_t> { if (server) return maskKey(r2); return {}; }; double t = now();
        for (int i = 0; i < pongs; ++i) { double e = now() + 10; while (k.pull(p) && k.pings.size() <= (std::size_t)i && !p.eof && now() < e) p.wait(0.02); if (k.pings.size() <= (std::size_t)i) { err = "no keep-alive ping"; break; } t = now(); p.send(frame(true, 10, k.pings.back(), mk())); }
        double next = now(); while (k.pull(p) && !p.eof && now() < t + 40) { if (chatty && now() > next) { p.send(frame(true, 1, "still here", mk())); next = now() + 0.4; } p.wait(0.05); } took = now() - t; if (!p.eof) err = "the connection was never ended"; p.close(); };
    if (server) { Router<HttpIO> router; router.template addEndpoint<GET>("/ws", [&](HttpRequest<HttpIO>& req, HttpResponse<HttpIO>& res) -> TK { auto ws = co_await WebSocketFactory{req, res}.accept(); co_await lonely(ws, l, mode); }); Served<decltype(20_s)> s(router); s.peer.send(hello(r2, key)); std::string e2; if (!welcomed(s.peer, key, e2)) { vf::fail("handshake", e2); return; } peer(s.peer); s.join(20); }
    else { RawServer srv([&](Peer& p, int n) { if (n) return; std::string e2; auto q = request(p, e2); if (!q) return; p.send(welcome(r2, *q->get("sec-websocket-key"))); peer(p); }); HX::net::HttpClient cli{}; auto t = cli.template wsLoop<decltype(10_s)>(srv.url("/ws", "ws"), [&](WSClient ws) -> TK { co_await lonely(ws, l, mode); }).get(); cli.close(); srv.stop(); }
    std::lock_guard _{l.m}; double least = mode == 2 ? 0.25 : mode == 3 ? 0 : 5, most = mode == 2 ? 12 : 32; vf::check(err.empty() && l.done && took < most, "vanished", [&] { return err + " after " + S((long)(took * 1000)) + " ms [" + l.end + "]: " + desc; }); vf::check(took >= least, "given-up-early", [&] { return "after " + S((long)(took * 1000)) + " ms [" + l.end + "]: " + desc; });
    if (mode < 2) vf::check(k.pings.size() == (std::size_t)pongs + 1 && !l.end.empty(), "pings", [&] { return S((long)k.pings.size()) + " pings [" + l.end + "]: " + desc; }); if (mode == 2) vf::check(k.pings.empty() && !l.end.empty(), "pings", [&] { return S((long)k.pings.size()) + " pings [" + l.end + "]: " + desc; }); if (mode == 3) vf::check(k.closes.size() == 1 && l.end.empty(), "close", [&] { return S((long)k.closes.size()) + " close frames [" + l.end + "]: " + desc; }); vf::sig(desc); }
VF_BOUND(80)
