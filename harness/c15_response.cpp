// C15: whatever a handler sets, the client receives one well-formed message with exactly that.
#include "http.hpp"
#include <filesystem>
#include <fstream>
using namespace ht;
using namespace HX::net;
using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>; using TK = HX::coroutine::Task<>;

static const int codes[] = {200, 200, 200, 201, 202, 203, 204, 205, 206, 207, 226, 300, 301, 302, 303, 304, 305, 307, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 500, 501, 502, 503, 504, 505};
enum Mode { Send, Chain, ChunkFile, RangeFile, Twice };
struct Spec { int mode = Send, status = 200; std::string reason, body, file, content; bool head = false, hasType = false; HttpContentType type = NONE; std::vector<std::pair<std::string, std::string>> headers; std::string req, id; };
static std::mutex gm; static std::map<std::string, Spec> specs;
template <class R> static void routes(R& router) {
    router.template addEndpoint<GET, POST, HEAD>("/r/{id}", [](Req& q, Res& s) -> TK {
        auto id = q.getPathParam(0).template to<std::string>(); Spec sp; { std::lock_guard g(gm); sp = specs[id]; } co_await q.parseBody();
        if (sp.mode == Chain) { s.setStatusAndContent((Status)sp.status, sp.body); for (auto& [k, v] : sp.headers) s.addHeader(k, v); co_await s.sendRes(); co_return; }
        for (auto& [k, v] : sp.headers) s.addHeader(k, std::string_view(v));
        if (sp.mode == ChunkFile) { co_await s.useChunkedEncodingTransferFile(sp.file); co_return; }
        if (sp.mode == RangeFile) { co_await s.useRangeTransferFile(q.getRangeRequestView(), sp.file); co_return; }
        if (sp.mode == Twice) { s.setResLine(Status::CODE_500, "draft").setBody("something else entirely"); } // the last setting counts
        if (sp.reason.empty()) s.setResLine((Status)sp.status); else s.setResLine((Status)sp.status, sp.reason);
        if (sp.hasType) s.setContentType(sp.type); if (sp.body.size() % 2) s.setBody(std::string_view(sp.body)); else s.setBody(sp.body); co_await s.sendRes(); });
}
static std::size_t size(vf::Rng& r, bool big) { switch (r.below(10)) { case 0: return 0; case 1: return 1; case 2: return 4096 + (std::size_t)r.range(-2, 2); case 3: return 8192 + (std::size_t)r.range(-2, 2); case 4: return 16384 + (std::size_t)r.range(-1, 1); case 5: return 65536 + (std::size_t)r.range(-1, 1); case 6: return (std::size_t)r.below(20000); case 7: return big ? 131072 * (std::size_t)r.range(1, 4) + (std::size_t)r.range(-2, 2) : r.below(3000); case 8: return big ? (std::size_t)r.range(200000, 1100000) : r.below(200); default: return r.below(300); } }
static std::string content(vf::Rng& r, std::size_t n) { switch (r.below(4)) { case 0: return r.bytes(n); case 1: { std::string s; while (s.size() < n) s += r.pick({"\r\n", "0\r\n\r\n", "HTTP/1.1 200 OK\r\n", "5\r\n", "\r\n\r\n", "Content-Length: 0", "a", "\0"}); s.resize(n); return s; } case 2: return r.text(n); default: { std::string s(n, 0); for (std::size_t i = 0; i < n; ++i) s[i] = (char)(i * 131 / 7); return s; } } }
static std::atomic_long ids{0};
static const std::pair<const char*, const char*> exts[] = {{".html", "text/html"}, {".txt", "text/plain"}, {".css", "text/css"}, {".png", "image/png"}, {".jpg", "image/jpeg"}, {".gif", "image/gif"}, {".HTML", "text/html"}, {"", nullptr}, {".zzq", nullptr}, {".pdf", "application/pdf"}};
static Spec gen(vf::Rng& r, bool big) {
    Spec s; s.id = "i" + S(++ids); s.mode = (int)r.below(5); if (s.mode == Chain && r.chance(0.5)) s.mode = Send; s.head = r.chance(0.12); bool file = s.mode == ChunkFile || s.mode == RangeFile; std::set<std::string> used;
    for (int n = (int)r.below(r.chance(0.1) ? 40 : 5); n--;) { auto k = hname(r); if (!used.insert(low(k)).second || low(k) == "server" || low(k) == "connection") continue; std::string v = hval(r, r.chance(0.05) ? 3000 : 40); s.headers.emplace_back(k, v); }
    if (r.chance(0.1)) s.headers.emplace_back("Server", "mine"); if (r.chance(0.1)) s.headers.emplace_back("Set-Cookie", "a=b; Path=/; HttpOnly");
    if (file) { auto& e = exts[r.below(std::size(exts))]; s.content = content(r, size(r, big)); s.file = vf::scratch() + "/c15-" + S(::getpid()) + "-" + s.id + e.first; std::ofstream(s.file, std::ios::binary) << s.content; s.body = s.content; if (e.second) s.reason = e.second; }
    else { s.status = codes[r.below(std::size(codes))]; if (s.mode != Chain && r.chance(0.3)) s.reason = r.pick({"OK", "Not At All", "x", "Some Longer Reason (with) punctuation!"}); bool none = s.status == 204 || s.status == 304 || s.status == 205; if (!none) s.body = content(r, size(r, big)); else if (s.status != 205 && s.mode != Chain && r.chance(0.5)) s.body = content(r, size(r, false)); /* must not be sent */ s.hasType = s.mode == Chain || r.chance(0.5); using CTy = HttpContentType; s.type = s.mode == Chain ? TEXT : r.pick({CTy::Html, CTy::Json, CTy::Text, CTy::FormUrlEncode, CTy::OctetStream, CTy::Xml, CTy::None}); }
    std::string b = r.chance(0.2) && !s.head ? r.text(r.below(100)) : ""; s.req = std::string(s.head ? "HEAD" : b.empty() ? "GET" : "POST") + " /r/" + s.id + " HTTP/1.1\r\nHost: a\r\n" + (b.empty() ? "" : "Content-Length: " + S((long)b.size()) + "\r\n") + "\r\n" + b; std::lock_guard g(gm); specs[s.id] = s; return s;
}
static std::string show(Spec const& s) { std::string h; for (auto& [k, v] : s.headers) h += k + ": " + v + "; "; return "mode " + S(s.mode) + (s.head ? " HEAD" : "") + " status " + S(s.status) + " '" + s.reason + "' body " + S((long)s.body.size()) + " file " + s.file.substr(s.file.rfind('/') + 1) + " headers " + h; }
static void judge(Spec const& s, Resp const& x) {
    bool file = s.mode == ChunkFile || s.mode == RangeFile; vf::check(x.status == (file ? 200 : s.status), "status", [&] { return show(s) + ": status " + S(x.status); }); if (!file && !s.reason.empty()) vf::check(x.reason == s.reason, "reason", [&] { return show(s) + ": reason '" + vf::esc(x.reason) + "'"; }); if (!file && s.reason.empty()) vf::check(!x.reason.empty(), "reason", [&] { return show(s) + ": no reason phrase"; });
    std::map<std::string, std::vector<std::string>> h; for (auto& [k, v] : x.headers) h[low(k)].push_back(v); std::string want = S((long)s.body.size());
    for (auto& [k, v] : s.headers) { auto it = h.find(low(k)); if (vf::check(it != h.end() && it->second.size() == 1 && it->second[0] == v, "header", [&] { return show(s) + ": " + k + " arrived as " + (it == h.end() ? "nothing" : vf::esc(it->second[0], 200)); })) h.erase(it); }
    if (s.hasType && !file) { auto* t = x.get("content-type"); using CTy = HttpContentType; const char* ty = s.type == CTy::Html ? "text/html" : s.type == CTy::Text ? "text/plain" : s.type == CTy::Json ? "application/json" : s.type == CTy::Xml ? "/xml" : s.type == CTy::FormUrlEncode ? "application/x-www-form-urlencoded" : s.type == CTy::OctetStream ? "application/octet-stream" : "text/"; vf::check((t && t->find(ty) != t->npos) || s.type == CTy::None, "content-type", [&] { return show(s) + ": content-type " + (t ? *t : "missing"); }); }
    if (file && !s.reason.empty()) { auto* t = x.get("content-type"); vf::check(t && low(*t).find(s.reason) != t->npos, "content-type", [&] { return show(s) + ": content-type " + (t ? *t : "missing"); }); }
    for (auto k : {"content-length", "transfer-encoding", "connection", "server", "content-type", "date", "accept-ranges", "keep-alive"}) h.erase(k); vf::check(h.empty(), "extra-header", [&] { return show(s) + ": nobody set " + h.begin()->first; });
    if (s.head) { auto* cl = x.get("content-length"); if (cl) vf::check(*cl == want, "head-length", [&] { return show(s) + ": content-length " + *cl; }); vf::check(x.body.empty(), "head-body", [&] { return show(s) + ": body"; }); }
    else { static const std::string none; vf::check(x.framed || s.status == 204 || s.status == 304, "framing", [&] { return show(s) + ": neither length nor chunks"; }); auto& sent = s.status == 204 || s.status == 304 ? none : s.body; vf::check(x.body == sent, "body", [&] { return show(s) + ": " + diff(x.body, sent); }); }
    vf::eval(3 + s.headers.size()); vf::sig(vf::hashStr(s.body, vf::hashStr(show(s).substr(0, 20) + S((long)s.headers.size()))));
}
// reads with pauses and in pieces
struct Slow { vf::Rng r; explicit Slow(std::uint64_t s) : r(s) {} };
VF_SECTION("content", 4000, 60000) { auto& r = rng;
    Router<HttpIO> router; routes(router); std::vector<Spec> sp; int n = (int)r.range(1, 6); std::string all, d; for (int i = 0; i < n; ++i) { sp.push_back(gen(r, i == 0)); all += sp.back().req; d += show(sp.back()) + " | "; } vf::setCase(vf::esc(d, 3500));
    Served<> sv(router, r.chance(0.25) ? 2304 : 0); bool pipe = r.chance(0.5), pause = r.chance(0.15); if (pipe) sv.peer.send(all);
    for (int i = 0; i < n; ++i) { if (!pipe) sv.peer.send(sp[(std::size_t)i].req); if (pause) std::this_thread::sleep_for(std::chrono::milliseconds(r.below(8))); std::string err; auto x = sv.peer.response(sp[(std::size_t)i].head, err); if (!x) { vf::fail("no-answer", show(sp[(std::size_t)i]) + ": " + err); break; } judge(sp[(std::size_t)i], *x); }
    sv.peer.wait(0.002); vf::check(sv.peer.in.empty(), "extra-bytes", [&] { return "bytes behind the last response: " + vf::esc(sv.peer.in, 100); }); vf::check(!sv.peer.eof, "closed", "the connection was closed"); sv.finish(); std::lock_guard g(gm); for (auto& s : sp) { specs.erase(s.id); if (!s.file.empty()) ::unlink(s.file.c_str()); }
}
// over TCP with tiny windows, several clients at once
VF_SECTION("tcp", 8, 80) { auto& r = rng;
    vf::setCase("tcp"); int pt = port() + (int)(index % 30); HttpServer server{(std::uint16_t)pt}; routes(server); server.asyncRun<decltype(10_s)>((std::size_t)r.range(1, 3)); int fd = tcpRetry(pt); if (!vf::check(fd >= 0, "no-start", "server does not accept connections")) return; ::close(fd); std::uint64_t seed = r.next(); std::vector<std::thread> ts; std::vector<std::string> files;
    for (int k = 0; k < 8; ++k) ts.emplace_back([&, k] { vf::Rng q(vf::mix(seed + (std::uint64_t)k)); int f = tcp(pt, k % 2 ? 2048 : 0); if (f < 0) f = tcpRetry(pt); Peer p(f); for (int i = 0; i < 12; ++i) { auto s = gen(q, i % 4 == 0); p.send(s.req); if (q.chance(0.3)) std::this_thread::sleep_for(std::chrono::milliseconds(q.below(30))); std::string err; auto x = p.response(s.head, err, 30); if (!x) { vf::fail("no-answer", show(s) + ": " + err); return; } judge(s, *x); std::lock_guard g(gm); specs.erase(s.id); if (!s.file.empty()) files.push_back(s.file); } });
    for (auto& t : ts) t.join(); vf::Watch w("server-stop|stopping", 30); server.syncStop(); for (auto& f : files) ::unlink(f.c_str());
}
// the file disappears, shrinks or grows; the client leaves in the middle: nothing false is delivered and nothing leaks
VF_SECTION("disturbed", 800, 10000) { auto& r = rng;
    Router<HttpIO> router; routes(router); Spec s; do { auto t = gen(r, true); std::lock_guard g(gm); if (!t.file.empty() && (t.mode != ChunkFile && t.mode != RangeFile)) ::unlink(t.file.c_str()); specs.erase(t.id); s = t; } while ((s.mode != ChunkFile && s.mode != RangeFile) || s.head); s.content = content(r, (std::size_t)r.range(300000, 900000)); s.body = s.content; std::ofstream(s.file, std::ios::binary) << s.content; { std::lock_guard g(gm); specs[s.id] = s; }
    int what = (int)r.below(4); vf::setCase("disturbance " + S(what) + " " + vf::esc(show(s), 3000)); int fds = vf::countFds();
    { Served<> sv(router, 4096); if (what == 0) ::unlink(s.file.c_str()); sv.peer.send(s.req + "GET /nothing HTTP/1.1\r\n\r\n"); std::size_t to = r.below(200000); double e = now() + 5; if (what) while (sv.peer.in.size() < 100 && now() < e && !sv.peer.eof) { char b[64]; auto k = ::recv(sv.peer.fd, b, sizeof b, MSG_DONTWAIT); if (k > 0) sv.peer.in.append(b, (std::size_t)k); else if (k == 0) sv.peer.eof = true; }
      if (what == 1) (void)!::truncate(s.file.c_str(), (off_t)to); if (what == 2) { std::ofstream(s.file, std::ios::binary | std::ios::app) << content(r, (std::size_t)r.range(1, 300000)); }
      if (what == 3) { if (r.chance(0.5)) sv.peer.closeRst(); sv.finish(); }
      else { std::string err; auto x = sv.peer.response(false, err); if (what == 0) { vf::check(!x || x->status >= 400, "missing-file", [&] { return "a missing file was answered with " + S(x->status) + " and " + S((long)x->body.size()) + " bytes"; }); }
        else if (x && s.mode == RangeFile) vf::check(x->body.size() == s.content.size() && (what == 2 ? x->body == s.content : true), "body", [&] { return diff(x->body, s.content); });
        else if (x) vf::check(what == 2 ? x->body.compare(0, s.content.size(), s.content) == 0 : s.content.compare(0, x->body.size(), x->body) == 0 && x->body.size() >= std::min(to, s.content.size()), "body", [&] { return diff(x->body, s.content); });
        else { if (what == 2) vf::fail("no-answer", "a growing file: " + err); else { vf::check(err.starts_with("closed"), "not-ended", [&] { return "a truncated response neither completes nor ends: " + err; }); if (err.starts_with("closed after")) vf::check(s.content.compare(0, sv.peer.in.size(), sv.peer.in) == 0, "fused", [&] { return "the unfinished response: " + diff(sv.peer.in, s.content.substr(0, sv.peer.in.size())); }); } }
        if (x) { err.clear(); auto y = sv.peer.response(false, err); vf::check(y ? y->status == 404 : err.starts_with("closed"), "next", [&] { return "the next request was answered with " + (y ? S(y->status) : err); }); } sv.finish(); } }
    bool back = vf::waitUntil([&] { return vf::countFds() <= fds; }, 3); vf::check(back, "fd-leak", [&] { return S(vf::countFds() - fds) + " descriptors left open"; }); vf::eval(2); vf::sig(S(what) + show(s)); ::unlink(s.file.c_str()); std::lock_guard g(gm); specs.erase(s.id);
}
