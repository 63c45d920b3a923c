// C10: request bodies arrive intact and end exactly where they should.
#include "http.hpp"
#include <filesystem>
#include <fstream>
using namespace ht;
using namespace HX::net;
using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>;

struct Seen { std::string tag, how, body, err; bool ok = false, twiceThrew = true; };
struct Sink { std::mutex m; std::vector<Seen> v; std::size_t size() { std::lock_guard g(m); return v.size(); } void add(Seen s) { std::lock_guard g(m); v.push_back(std::move(s)); } Seen at(std::size_t i) { std::lock_guard g(m); return v[i]; } };
static std::string fileOf(std::string_view tag) { return vf::scratch() + "/body-" + S(::getpid()) + "-" + std::string(tag); }
static std::string slurp(std::string const& p) { std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), {}); }

template <class T> static HX::coroutine::Task<> handle(Sink& sink, Req& req, Res& res, std::string how, bool caught) {
    Seen s; s.tag = std::string(req.getHeaders().find(std::string_view("x-tag")) != req.getHeaders().end() ? req.getHeaders().find(std::string_view("x-tag"))->second : "?"); s.how = how; std::exception_ptr e;
    try {
        if (how == "parse" || how == "twice") s.body = co_await req.parseBody<T>(); else if (how == "save" || how == "savetwice") co_await req.saveToFile<T>(fileOf(s.tag));
        s.ok = true;
        if (how == "twice") { s.twiceThrew = false; try { co_await req.parseBody<T>(); } catch (std::exception const&) { s.twiceThrew = true; } }
        if (how == "savetwice") { s.twiceThrew = false; try { co_await req.saveToFile<T>(fileOf(s.tag)); } catch (std::exception const&) { s.twiceThrew = true; } }
        if (how.starts_with("save")) s.body = slurp(fileOf(s.tag));
    } catch (std::exception const& x) { s.err = x.what(); e = std::current_exception(); }
    auto const reply = (s.ok ? "ok " : "no ") + s.tag + " " + S((long)s.body.size()); sink.add(std::move(s));
    if (e && !caught) std::rethrow_exception(e);
    co_await res.setStatusAndContent(e ? Status::CODE_400 : Status::CODE_200, reply).sendRes();
}
template <class T> static void routes(Router<HttpIO>& router, Sink& sink, bool caught) {
    for (std::string how : {"parse", "twice", "save", "savetwice", "none"}) router.addEndpoint<GET, POST, PUT, HttpMethod::PATCH, DEL>("/" + how, [how, &sink, caught](Req& q, Res& s) -> HX::coroutine::Task<> { co_await handle<T>(sink, q, s, how, caught); });
    router.setErrorEndpointFunc([&sink](Req& q, Res& s) -> HX::coroutine::Task<> { Seen x; x.tag = "?? " + std::string(q.getReqType()) + " " + std::string(q.getReqPath()); x.how = "404"; sink.add(std::move(x)); co_await s.setStatusAndContent(Status::CODE_404, "nf").sendRes(); });
}
static int nextTag = 0;
struct Rq { std::string tag, how, method, body, bytes; std::size_t bodyAt = 0; };
static std::size_t someSize(vf::Rng& r) { switch (r.below(8)) { case 0: return 0; case 1: return r.below(4); case 2: return r.below(200); case 3: return 16384 + r.below(9) - 4; case 4: return 32768 + r.below(9) - 4; case 5: return r.below(20000); case 6: return r.below(300000); default: return r.below(2000); } }
static std::string content(vf::Rng& r, std::size_t n) { switch (r.below(4)) { case 0: return r.bytes(n); case 1: return r.text(n, "\r\n0123456789abcdef;: "); case 2: { std::string s; while (s.size() < n) s += "GET /evil HTTP/1.1\r\nHost: a\r\n\r\n"; s.resize(n); return s; } default: return r.text(n); } }
static std::string hex(vf::Rng& r, std::size_t n) { char b[32]; std::snprintf(b, sizeof b, r.chance(0.5) ? "%zx" : "%zX", n); std::string s = b; if (r.chance(0.1)) s = std::string(1 + r.below(6), '0') + s; return s; }
static std::string chunked(vf::Rng& r, std::string_view body) { std::string o; std::size_t at = 0; auto ext = [&] { return r.chance(0.15) ? std::string(r.chance(0.3) ? " " : "") + ";" + r.text(1 + r.below(8)) + (r.chance(0.5) ? "=" + r.text(r.below(20), "abc\"0;=. ") : "") : ""; }; int style = (int)r.below(4);
    while (at < body.size()) { std::size_t n = style == 0 ? body.size() : style == 1 ? 1 + r.below(16) : style == 2 ? 16380 + r.below(10) : 1 + r.below(9000); if (style == 1 && body.size() > 5000) n = 1 + r.below(body.size() / 100); n = std::min(n, body.size() - at); o += hex(r, n) + ext() + "\r\n"; o += body.substr(at, n); o += "\r\n"; at += n; }
    o += (r.chance(0.15) ? std::string(1 + r.below(5), '0') : "0") + ext() + "\r\n"; if (r.chance(0.15)) for (int n = (int)r.range(1, 3); n--;) o += "X-Trailer" + S(n) + ": " + r.text(r.below(30)) + "\r\n"; return o + "\r\n"; }
static Rq gen(vf::Rng& r, std::size_t maxSize = 1 << 30) {
    Rq q; q.tag = S(++nextTag); static const char* hows[] = {"parse", "twice", "save", "savetwice", "none"}; q.how = r.chance(0.5) ? "parse" : hows[r.below(5)]; static const char* ms[] = {"POST", "PUT", "PATCH", "DELETE", "GET"}; q.method = ms[r.below(5)]; q.body = content(r, std::min(someSize(r), maxSize));
    q.bytes = q.method + " /" + q.how + " HTTP/1.1\r\nx-tag: " + q.tag + "\r\n"; if (r.chance(0.5)) q.bytes += "Host: h\r\n";
    int framing = q.body.empty() && r.chance(0.3) ? 0 : r.chance(0.5) ? 1 : 2;
    if (framing == 1) q.bytes += recase(r, "Content-Length") + ":" + (r.chance(0.8) ? " " : "") + (r.chance(0.1) ? "000" : "") + S((long)q.body.size()) + (r.chance(0.1) ? " " : "") + "\r\n"; if (framing == 2) q.bytes += recase(r, "Transfer-Encoding") + ": " + (r.chance(0.2) ? recase(r, "chunked") : "chunked") + "\r\n"; if (r.chance(0.3)) q.bytes += "Content-Type: text/plain\r\n";
    q.bytes += "\r\n"; q.bodyAt = q.bytes.size(); q.bytes += framing == 2 ? chunked(r, q.body) : q.body; return q;
}
static void judge(Seen const& s, Rq const& q) {
    if (!vf::check(s.tag == q.tag && s.how == q.how, "wrong-request", [&] { return "handler '" + s.how + "' ran with tag " + s.tag + " (" + s.err + ") where request " + q.tag + " '" + q.how + "' was sent"; })) return;
    vf::check(s.ok, "body-error", [&] { return "reading a well-formed body (" + q.how + ", " + S((long)q.body.size()) + " bytes) failed: " + s.err; });
    if (s.ok && q.how != "none") vf::check(s.body == q.body, "body", [&] { return q.how + ": " + diff(s.body, q.body); }); vf::check(s.twiceThrew, "twice", "reading the body a second time did not fail");
    if (q.how.starts_with("save")) { vf::check(slurp(fileOf(q.tag)) == q.body, "file-after", "the saved file changed after the request"); std::filesystem::remove(fileOf(q.tag)); } vf::eval(4);
}

VF_SECTION("bodies", 5000, 30000) { auto& r = rng;
    std::vector<Rq> qs; for (int n = (int)r.range(1, 4); n--;) qs.push_back(gen(r)); std::string all; for (auto& q : qs) all += q.bytes; int how = (int)r.below(3); vf::setCase(S(how) + " " + vf::esc(all, 3000));
    Sink sink; Router<HttpIO> router; routes<decltype(5_s)>(router, sink, r.chance(0.5)); int fds = vf::countFds();
    { Served<> sv(router, r.chance(0.1) ? 4096 : 0); auto answer = [&](Rq const& q) { std::string err; auto res = sv.peer.response(false, err); if (!res) { vf::fail("no-answer", "request " + q.tag + " (" + q.how + ", " + S((long)q.body.size()) + " byte body): " + err); return false; } vf::check(res->status == 200, "status", [&] { return S(res->status) + " " + vf::esc(res->body); }); return true; };
      if (how == 0) { for (auto& q : qs) { if (!feed(sv.peer, q.bytes, cuts(r, q.bytes))) { vf::fail("closed", "closed while sending request " + q.tag); return; } if (!answer(q)) return; } }
      else { if (!feed(sv.peer, all, how == 2 ? std::vector<std::size_t>{} : cuts(r, all))) { vf::fail("closed", "closed while sending pipelined requests"); return; } for (auto& q : qs) if (!answer(q)) return; }
      sv.finish(); }
    vf::check(vf::countFds() == fds, "fd-leak", [&] { return S(vf::countFds() - fds) + " descriptors left after the connection"; });
    if (!vf::check(sink.size() == qs.size(), "dispatch-count", [&] { return S((long)sink.size()) + " dispatches for " + S((long)qs.size()) + " requests"; })) return;
    for (std::size_t i = 0; i < qs.size(); ++i) judge(sink.at(i), qs[i]); vf::sig(all);
}
// every two-piece cut of a short chunked / length body followed by another request
VF_SECTION("every-cut", 24, 400) { auto& r = rng;
    std::vector<Rq> qs{gen(r, 150), gen(r, 40)}; std::string all = qs[0].bytes + qs[1].bytes; vf::setCase(vf::esc(all, 3000)); Sink sink; Router<HttpIO> router; routes<decltype(5_s)>(router, sink, false); Served<> sv(router); std::size_t step = std::max<std::size_t>(1, all.size() / 600); long n = 0;
    for (std::size_t c = 1; c < all.size(); c += step) { std::size_t base = sink.size(); if (!feed(sv.peer, all, {c})) { vf::fail("closed", "closed after a cut at " + S((long)c)); return; }
        for (int i = 0; i < 2; ++i) { std::string err; if (!sv.peer.response(false, err)) { vf::fail("no-answer", "cut at " + S((long)c) + " of " + S((long)all.size()) + ": " + err); return; } } if (!vf::check(sink.size() == base + 2, "dispatch-count", "not two dispatches")) return; judge(sink.at(base), qs[0]); judge(sink.at(base + 1), qs[1]); ++n; }
    vf::note("cut positions", n); vf::sig(all); sv.finish();
}

// what a malformed or incomplete body looks like
struct Bad { std::string kind, head, body; bool cut = false; std::string after; };
static Bad bad(vf::Rng& r, Rq const& base) {
    Bad b; auto H = "POST /" + base.how + " HTTP/1.1\r\nx-tag: " + base.tag + "\r\n"; auto& body = base.body; auto n = S((long)body.size()); std::string evil = "GET /evil HTTP/1.1\r\nx-tag: evil\r\n\r\n"; b.after = evil;
    std::string TE = "Transfer-Encoding: chunked\r\n";
    switch (r.below(13)) {
    case 0: { static const char* v[] = {"abc", "-1", "+5", "5,6", "5 5", "0x5", "1e3", "", "5;", "99999999999999999999999", "18446744073709551615", "18446744073709551621", "٣"}; b.kind = v[r.below(13)]; b.head = H + "Content-Length: " + b.kind + "\r\n"; b.kind = "content-length '" + b.kind + "'"; b.body = body.substr(0, 100); break; }
    case 1: b.kind = "two different content-lengths"; b.head = H + "Content-Length: " + n + "\r\nContent-Length: " + S((long)body.size() + 1 + (long)r.below(10)) + "\r\n"; b.body = body; break;
    case 2: b.kind = "content-length and chunked"; b.head = H + (r.chance(0.5) ? "Content-Length: " + S((long)r.below(50)) + "\r\n" + TE : TE + "Content-Length: " + n + "\r\n"); b.body = chunked(r, body); break;
    case 3: { static const char* v[] = {"gzip", "chunked, gzip", "identity", "chunkedx", "xchunked", "chunked, chunked"}; b.kind = v[r.below(6)]; b.head = H + "Transfer-Encoding: " + b.kind + "\r\n"; b.kind = "transfer-encoding " + b.kind; b.body = chunked(r, body); break; }
    case 4: case 5: { static const char* v[] = {"xyz", "", "-5", "+5", "0x5", "5 5", "5.", "FFFFFFFFFFFFFFFF1", "ffffffffffffffff", "fffffffffffffffe", "8000000000000000", "g", " ;a", "5,", "\t5"}; b.kind = v[r.below(15)]; b.head = H + TE; b.body = (r.chance(0.5) ? hex(r, 5) + "\r\nhello\r\n" : "") + b.kind + "\r\nhello\r\n0\r\n\r\n"; b.kind = "chunk size '" + vf::esc(b.kind) + "'"; break; }
    case 6: { b.kind = "chunk data not followed by CRLF"; b.head = H + TE; static const char* v[] = {"xx", "\nx", "\rx", "\n\r", "0\r"}; std::size_t k = body.empty() ? 0 : 1 + r.below(body.size()); b.body = hex(r, k ? k : 1) + "\r\n" + (k ? body.substr(0, k) : "z") + v[r.below(5)] + "0\r\n\r\n"; break; }
    case 7: b.kind = "chunk longer than its size"; b.head = H + TE; b.body = "3\r\nabcdef\r\n0\r\n\r\n"; break;
    case 8: b.kind = "chunk shorter than its size"; b.head = H + TE; b.body = "9\r\nabcdef\r\n0\r\n\r\n"; break; // swallows part of what follows
    default: { bool c = r.chance(0.5); b.cut = true; b.head = H + (c ? TE : "Content-Length: " + n + "\r\n"); std::string full = c ? chunked(r, body) : body; if (full.empty()) { full = "x"; b.head = H + "Content-Length: 1\r\n"; } std::size_t k = c && r.chance(0.4) ? full.size() - 1 - r.below(std::min<std::size_t>(full.size(), 8)) : r.below(full.size()); b.kind = std::string("truncated ") + (c ? "chunked" : "length") + " body: " + S((long)k) + " of " + S((long)full.size()); b.body = full.substr(0, k); b.after = ""; break; } }
    b.head += "\r\n"; return b;
}
VF_SECTION("malformed", 5000, 30000) { auto& r = rng;
    Rq q = gen(r, 60000); Bad b = bad(r, q); int end = b.cut ? (r.chance(0.9) ? 1 : 2) : (int)r.below(2); /* 0 stay, 1 shut down our side, 2 stall */ bool caught = r.chance(0.5), two = r.chance(0.4); Rq pre = gen(r, 300); std::string bytes = b.head + b.body + b.after; vf::setCase(b.kind + " how=" + q.how + " end=" + S(end) + " " + vf::esc(bytes, 2500));
    Sink sink; Router<HttpIO> router; if (end == 2) routes<decltype(100_ms)>(router, sink, caught); else routes<decltype(5_s)>(router, sink, caught); int fds = vf::countFds(); std::size_t base = 0;
    { Served<decltype(500_ms)> sv(router); if (two) { std::string err; if (!feed(sv.peer, pre.bytes, cuts(r, pre.bytes)) || !sv.peer.response(false, err)) { vf::fail("no-answer", "well-formed request before: " + err); return; } base = 1; }
      feed(sv.peer, bytes, cuts(r, bytes)); if (end == 1) ::shutdown(sv.peer.fd, SHUT_WR);
      bool gone = vf::waitUntil([&] { sv.peer.pump(); return sv.ended.load(); }, 12); vf::check(gone, "kept-open", [&] { return "the connection is still open 12 s after " + b.kind; }); sv.finish(); }
    vf::check(vf::countFds() == fds, "fd-leak", [&] { return S(vf::countFds() - fds) + " descriptors left after " + b.kind; });
    std::filesystem::remove(fileOf(q.tag)); if (two) std::filesystem::remove(fileOf(pre.tag));
    for (std::size_t i = base; i < sink.size(); ++i) { auto s = sink.at(i);
        if (i == base) { vf::check(s.tag == q.tag, "wrong-request", [&] { return "dispatched with tag " + s.tag; }); if (q.how != "none") vf::check(!s.ok, "accepted", [&] { return b.kind + " was delivered as a complete body of " + S((long)s.body.size()) + " bytes: " + vf::esc(s.body, 200); }); }
        else vf::fail("smuggled", "after " + b.kind + " the bytes behind were dispatched as a request: " + s.tag + " " + s.how); }
    vf::eval(3); vf::note(b.kind.substr(0, b.kind.find_first_of(":'"))); vf::sig(bytes);
}
