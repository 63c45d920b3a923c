// C19: server-sent events arrive complete, in order and unaltered, however the bytes are cut.
#include "client.hpp"
using namespace ct; using namespace HX::net; namespace co = HX::coroutine; using TK = co::Task<>;
using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>;
struct Ev { std::string data, event; std::optional<std::string> id; std::optional<long> retry; bool operator==(Ev const&) const = default; std::string str() const { return "data='" + vf::esc(data, 80) + "' event='" + vf::esc(event, 40) + "' id=" + (id ? "'" + vf::esc(*id, 40) + "'" : "-") + " retry=" + (retry ? S(*retry) : "-"); } };
static Ev from(SseEvent const& e) { Ev v{e.data, e.event, e.id, {}}; if (e.retry) v.retry = (long)e.retry->count(); return v; }
static SseEvent to(Ev const& e) { SseEvent s; s.data = e.data; s.event = e.event; s.id = e.id; if (e.retry) s.retry = std::chrono::milliseconds(*e.retry); return s; }
// a line of text: no line ends; may start with spaces and colons and hold any other byte
static std::string line(vf::Rng& r, std::size_t max) { std::string s; std::size_t n = r.below(max + 1); if (r.chance(0.15)) s += std::string(1 + r.below(3), ' '); if (r.chance(0.1)) s += ':'; for (std::size_t i = 0; i < n; ++i) { char c = r.chance(0.85) ? (char)r.range(32, 126) : (char)r.below(256); if (c == '\r' || c == '\n') c = 'x'; s += c; } if (r.chance(0.1)) s += ' '; if (r.chance(0.05)) s = "data: " + s; return s; }
static Ev gen(vf::Rng& r, int i, bool mustData) { Ev e; int lines = r.chance(0.6) ? 1 : (int)r.range(2, 6); for (int k = 0; k < lines; ++k) { if (k) e.data += '\n'; if (!r.chance(0.2)) e.data += line(r, r.chance(0.04) ? 20000 : r.chance(0.5) ? 10 : 60); } if (r.chance(0.1)) e.data.clear(); if (r.chance(0.1)) e.data += "\n"; if (r.chance(0.05)) e.data = "\n" + e.data; if (r.chance(0.4)) { e.event = line(r, 12); if (e.event.empty()) e.event = "e" + S(i); } if (r.chance(0.4)) { e.id = r.chance(0.15) ? "" : line(r, 8); for (auto& c : *e.id) if (!c) c = 'n'; } if (r.chance(0.3)) e.retry = r.chance(0.5) ? r.range(0, 5000) : r.range(0, 1000000000);
    if (!mustData && e.data.empty() && e.event.empty() && !e.id && !e.retry) e.data = "d" + S(i); return e; }
// an independent reading of a byte stream (WHATWG); events whose block has no data line are left out
static std::vector<Ev> parse(std::string s) { std::string t; for (std::size_t i = 0; i < s.size(); ++i) { if (s[i] == '\r') { t += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') ++i; } else t += s[i]; } std::vector<Ev> out; Ev e; bool has = false; std::size_t at = 0; for (;;) { auto p = t.find('\n', at); if (p == t.npos) break; auto l = t.substr(at, p - at); at = p + 1; if (l.empty()) { if (has) out.push_back(e); e = {}; has = false; continue; } auto c = l.find(':'); if (c == 0) continue; auto k = l.substr(0, c); std::string v = c == l.npos ? "" : l.substr(c + 1); if (!v.empty() && v[0] == ' ') v.erase(0, 1); if (k == "data") { if (has) e.data += '\n'; has = true; e.data += v; } else if (k == "event") e.event = v; else if (k == "id") e.id = v; else if (k == "retry" && !v.empty() && v.size() < 18 && v.find_first_not_of("0123456789") == v.npos) e.retry = std::stol(v); } return out; }
static void compare(std::vector<Ev> const& got, std::vector<Ev> const& want, char const* where) { vf::eval(want.size()); for (std::size_t i = 0; i < want.size() && i < got.size(); ++i) if (!vf::check(got[i] == want[i], "altered", [&] { return std::string(where) + ": event " + S((long)i) + " of " + S((long)want.size()) + ": got " + got[i].str() + ", sent " + want[i].str(); })) return; vf::check(got.size() == want.size(), got.size() < want.size() ? "lost" : "extra", [&] { return std::string(where) + ": " + S((long)got.size()) + " events arrived, " + S((long)want.size()) + " were sent" + (got.size() < want.size() ? "; first missing: " + want[got.size()].str() : "; first extra: " + got[want.size()].str()); }); }

// raw server, library client
VF_SECTION("consume", 250, 5000) { auto& r = rng;
    int n = (int)r.below(15); std::string s; std::vector<Ev> want; int nlKind = (int)r.below(4); auto nl = [&] { int k = nlKind == 3 ? (int)r.below(3) : nlKind; if (k == 0 && !s.empty() && s.back() == 13) k = 1; return std::string(k == 0 ? "\n" : k == 1 ? "\r\n" : "\r"); }; auto noise = [&] { if (r.chance(0.25)) s += ":" + line(r, 20) + nl(); if (r.chance(0.1)) s += "unknown: " + line(r, 10) + nl(); if (r.chance(0.05)) s += "datax: 1" + nl(); if (r.chance(0.05)) s += " data: 2" + nl(); };
    for (int i = 0; i < n; ++i) { auto e = gen(r, i, true); std::vector<std::string> ls; std::vector<std::string> dl; { std::size_t at = 0; for (;;) { auto p = e.data.find('\n', at); auto l = e.data.substr(at, p == std::string::npos ? p : p - at); dl.push_back(l.empty() && r.chance(0.3) ? (r.chance(0.5) ? "data" : "data:") : "data:" + std::string(l.starts_with(' ') || r.chance(0.6) ? " " : "") + l); if (p == std::string::npos) break; at = p + 1; } } if (!e.event.empty()) ls.push_back("event: " + e.event); if (e.id) ls.push_back("id: " + *e.id); if (e.retry) ls.push_back((r.chance(0.5) ? "retry:" : "retry: ") + S(*e.retry)); if (r.chance(0.1) && !e.retry) ls.push_back(r.chance(0.5) ? "retry: abc" : "retry:"); r.shuffle(ls); auto cut = r.below(ls.size() + 1); for (std::size_t k = 0; k < cut; ++k) { s += ls[k] + nl(); noise(); } for (auto& d : dl) { s += d + nl(); noise(); } for (std::size_t k = cut; k < ls.size(); ++k) s += ls[k] + nl(); s += nl(); if (r.chance(0.1)) s += nl(); if (r.chance(0.1)) { s += ": alive" + nl() + nl(); } want.push_back(e); }
    if (r.chance(0.2)) s += "data: unfinished" + (r.chance(0.5) ? nl() : "");
    { auto chk = parse(s); if (chk != want) { vf::fail("harness", "generator and reference parser disagree: " + vf::esc(s, 500)); return; } }
    int fr = (int)r.below(3); std::string ct[] = {"text/event-stream", "text/event-stream; charset=utf-8", "text/event-stream"}; std::string head = "HTTP/1.1 200 OK\r\n" + recase(r, "Content-Type") + ": " + ct[r.below(3)] + "\r\nCache-Control: no-cache\r\n"; if (fr == 1) head += "Transfer-Encoding: chunked\r\n\r\n" + chunked(r, s); else if (fr == 2) head += "Content-Length: " + S((long)s.size()) + "\r\n\r\n" + s; else head += "\r\n" + s; auto cs = cuts(r, head); bool post = r.chance(0.3); bool first = r.chance(0.3); vf::setCase("framing " + S(fr) + " newline " + S(nlKind) + " " + vf::esc(head, 700)); std::vector<Ev> got;
    { RawServer A([&](Peer& p, int) { Feeder f(p); for (;;) { std::string err; auto q = request(p, err, 20); if (!q) return; if (q->target == "/first") { f.feed("HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx", {}); continue; } vf::check(q->method == (post ? "POST" : "GET") && q->get("accept") && q->get("accept")->find("text/event-stream") != std::string::npos && q->body == (post ? "ask" : ""), "request", "the request for the stream is wrong"); f.feed(head, cs); f.drained(2); return; } });
        HttpClient<NoneProxy> cli; vf::Watch w("hang|the stream does not end", 60); if (first) { auto o = plain(cli.get<decltype(10_s)>(A.url("/first")).get()); vf::check(o.ok, "first", o.what); } auto fn = [&](SseEvent e) -> TK { got.push_back(from(e)); co_return; };
        if (post) (void)cli.coSseLoop<HttpMethod::POST, decltype(10_s)>(A.url("/s"), fn, {}, std::string("ask"), HttpContentType::Text).runSync(); else (void)cli.coSseLoop<HttpMethod::GET, decltype(10_s)>(A.url("/s"), fn).runSync(); }
    compare(got, want, "consumer"); vf::note("events consumed", got.size()); vf::note(std::string("streams ") + (fr == 0 ? "to the end" : fr == 1 ? "chunked" : "with a length")); vf::sig(head);
}
struct Show { std::vector<Ev> evs; std::vector<int> gap; }; static std::mutex showM; static std::map<std::string, std::shared_ptr<Show>> shows;
template <class R> static void routes(R& router) { router.template addEndpoint<GET, POST>("/sse/{id}", [](Req& q, Res& s) -> TK { std::string id = q.getPathParam(0).template to<std::string>(); std::shared_ptr<Show> sh; { std::lock_guard _{showM}; sh = shows[id]; } auto st = co_await s.makeSseStream(); for (std::size_t i = 0; i < sh->evs.size(); ++i) { if (sh->gap[i] & 1) co_await st.ping(); if (sh->gap[i] & 2) co_await static_cast<co::EventLoop&>(q.getIO()).makeTimer().sleepFor(std::chrono::microseconds(200)); auto e = to(sh->evs[i]); co_await st.push(e); } }); }
static std::shared_ptr<Show> show(vf::Rng& r, std::string id, bool mustData, int max = 20) { auto sh = std::make_shared<Show>(); int n = (int)r.below((std::uint64_t)max + 1); for (int i = 0; i < n; ++i) { auto e = gen(r, i, mustData); if (mustData && e.data.empty() && e.event.empty()) e.event = "named"; sh->evs.push_back(e); sh->gap.push_back((int)(r.chance(0.2) | (r.chance(0.2) << 1))); } std::lock_guard _{showM}; shows[id] = sh; return sh; }
// library server, independent consumer
VF_SECTION("produce", 400, 8000) { auto& r = rng;
    static Router<HttpIO>& router = *[] { auto* x = new Router<HttpIO>; routes(*x); return x; }(); std::string id = "p" + S((long)index); auto sh = show(r, id, true); vf::setCase("produce " + S((long)sh->evs.size()) + " events" + (sh->evs.empty() ? "" : ", first " + sh->evs[0].str())); Served<> sv(router, r.chance(0.3) ? 2048 : 0); auto rq = "GET /sse/" + id + " HTTP/1.1\r\nHost: a\r\nAccept: text/event-stream\r\n\r\n"; feed(sv.peer, rq, cuts(r, rq));
    std::string err; auto res = sv.peer.response(false, err, 15); if (!res) { vf::fail("no-answer", err); return; } auto* c = res->get("content-type"); vf::check(res->status == 200 && c && c->rfind("text/event-stream", 0) == 0 && !res->chunked && !res->framed, "head", "the head of the stream is wrong"); double e = now() + 20; while (!sv.peer.eof && now() < e) sv.peer.wait(0.05); if (!vf::check(sv.peer.eof, "endless", "the handler returned, the stream stays open")) return; compare(parse(sv.peer.in), sh->evs, "independent consumer"); { std::lock_guard _{showM}; shows.erase(id); } sv.finish(); vf::note("events produced", sh->evs.size()); vf::sig(sv.peer.in);
}
// library server and library client over TCP, several at once
VF_SECTION("both", 12, 150) { auto& r = rng;
    int pt = port() + (int)(index % 30), threads = (int)r.range(1, 3), k = (int)r.range(1, 10); vf::setCase("both, " + S(k) + " clients"); HttpServer server{(std::uint16_t)pt}; routes(server); server.asyncRun<decltype(5_s)>((std::size_t)threads); int fd = tcpRetry(pt); if (!vf::check(fd >= 0, "refused", "cannot connect")) return; ::close(fd); std::vector<std::thread> ts; std::uint64_t seed = r.next(); std::atomic_long total{0};
    { vf::Watch w("hang|the streams do not end", 90); for (int i = 0; i < k; ++i) ts.emplace_back([&, i] { vf::Rng q(vf::mix(seed + (std::uint64_t)i)); HttpClient<NoneProxy> cli; for (int x = 0; x < 4; ++x) { std::string id = "b" + S((long)index) + "-" + S(i) + "-" + S(x); auto sh = show(q, id, false, 40); std::vector<Ev> got; bool stop = q.chance(0.2); std::size_t at = sh->evs.empty() ? 0 : q.below(sh->evs.size()); auto fn = [&](SseEvent e) -> TK { got.push_back(from(e)); if (stop && got.size() == at + 1) throw std::runtime_error("enough"); co_return; }; auto t = cli.coSseLoop<HttpMethod::GET, decltype(10_s)>("http://127.0.0.1:" + S(pt) + "/sse/" + id, fn).runSync(); auto want = sh->evs; if (stop && !want.empty()) { want.resize(at + 1); vf::check(!t && std::string(t.what()).find("enough") != std::string::npos, "stop", [&] { return "the consumer's exception was not passed on: " + (t ? std::string("no error") : t.what()); }); } compare(got, want, "library client"); total += (long)got.size(); std::lock_guard _{showM}; shows.erase(id); } }); for (auto& t : ts) t.join(); }
    { vf::Watch w("server-stop|stopping", 30); server.syncStop(); } vf::note("events both ways", (std::uint64_t)total); vf::sig(seed);
}
// streams that are not: an error, in time, and no invented event
VF_SECTION("bad", 60, 800) { auto& r = rng;
    int kind = (int)r.below(6); std::string s; std::vector<Ev> want; bool stall = false; switch (kind) { case 0: s = "HTTP/1.1 404 Not Found\r\nContent-Type: text/event-stream\r\nContent-Length: 9\r\n\r\ndata: x\n\n"; break; case 1: s = "HTTP/1.1 200 OK\r\nContent-Type: text/html\r\nContent-Length: 9\r\n\r\ndata: x\n\n"; break; case 2: s = "HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\n\r\ndata: a\n\ndata: b\n"; want = {{"a", "", {}, {}}}; stall = true; break; case 3: s = "HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\n\r\ndata: a\n\ndata: b"; want = {{"a", "", {}, {}}}; break; case 4: s = "HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\nTransfer-Encoding: chunked\r\n\r\n9\r\ndata: a\n\n\r\nzz\r\ndata: b\n\n\r\n"; want = {{"a", "", {}, {}}}; break; default: s = r.bytes(200); break; }
    auto cs = cuts(r, s); vf::setCase("bad " + S(kind)); int fds = vf::countFds(); std::vector<Ev> got; double t = 0; { RawServer A([&](Peer& p, int) { Feeder f(p); std::string err; auto q = request(p, err, 20); if (!q) return; if (q->target == "/after") { f.feed("HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nafter", {}); f.drained(1); return; } f.feed(s, cs); if (stall) { double e = now() + 8; while (!p.eof && p.in.empty() && now() < e) p.wait(0.05); vf::check(p.in.empty(), "reused", [&] { return "a request on the connection of a broken stream: " + vf::esc(p.in, 80); }); if (!p.in.empty()) f.feed("data: late\n\n", {}); } else f.drained(1); });
        HttpClient<NoneProxy> cli; vf::Watch w("hang|the stream does not end", 60); double t0 = now(); auto fn = [&](SseEvent e) -> TK { got.push_back(from(e)); co_return; }; auto o = cli.coSseLoop<HttpMethod::GET, decltype(400_ms)>(A.url("/s"), fn).runSync(); t = now() - t0; vf::check(!o, "no-error", "a broken stream ended without an error"); if (r.chance(0.7)) { auto x = plain(cli.get<decltype(5_s)>(A.url("/after")).get()); vf::check(x.ok && x.status == 200 && x.body == "after", "after", [&] { return "the request after a broken stream: " + (x.ok ? S(x.status) + " " + vf::esc(x.body, 60) : x.what); }); } }
    vf::eval(2); if (kind == 4 && got.empty()) want.clear(); compare(got, want, "broken stream"); vf::check(t < 6, "late", [&] { return "took " + std::to_string(t) + " s"; }); vf::check(vf::waitUntil([&] { return vf::countFds() <= fds; }, 5), "fd-leak", "descriptors left"); vf::sig(s + S((long)cs.size()));
}
