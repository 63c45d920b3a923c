// C16: resumable downloads return exactly the requested bytes.
#include "http.hpp"
#include <filesystem>
#include <fstream>
using namespace ht;
using namespace HX::net;
using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>; using TK = HX::coroutine::Task<>; using u64 = std::uint64_t;

// the bytes of a file; huge ones are sparse with marks
struct File { std::string path; u64 size = 0; std::string data; std::map<u64, std::string> marks;
    std::string part(u64 a, u64 n) const { if (marks.empty()) return data.substr((std::size_t)a, (std::size_t)n); std::string s((std::size_t)n, 0); for (auto& [p, m] : marks) for (std::size_t i = 0; i < m.size(); ++i) if (p + i >= a && p + i < a + n) s[(std::size_t)(p + i - a)] = m[i]; return s; } };
static std::mutex gm; static std::map<std::string, std::string> paths;
template <class R> static void routes(R& router) { router.template addEndpoint<GET, HEAD>("/f/{id}", [](Req& q, Res& s) -> TK { std::string p; { std::lock_guard g(gm); p = paths[q.getPathParam(0).template to<std::string>()]; } co_await s.useRangeTransferFile(q.getRangeRequestView(), p); }); }
static std::atomic_long ids{0};
static File mk(vf::Rng& r, std::string& id) {
    File f; id = "f" + S(++ids); f.path = vf::scratch() + "/c16-" + S(::getpid()) + "-" + id + r.pick({".bin", ".txt", ".html", ""});
    if (r.chance(0.08)) { f.size = (u64)r.range(4000000000LL, 9000000000LL); f.marks[0] = "first"; f.marks[f.size - 4] = "last"; for (u64 p : {(u64)4294967290ULL, (u64)2147483640ULL}) if (p + 20 < f.size) f.marks[p] = r.text(16); int fd = ::open(f.path.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0644); (void)!::ftruncate(fd, (off_t)f.size); for (auto& [p, m] : f.marks) (void)!::pwrite(fd, m.data(), m.size(), (off_t)p); ::close(fd); }
    else { switch (r.below(8)) { case 0: f.size = 0; break; case 1: f.size = 1; break; case 2: f.size = 131072 + r.below(3) - 1; break; case 3: f.size = 262144 + r.below(3) - 1; break; case 4: f.size = 300000 + r.below(100000); break; default: f.size = r.below(r.chance(0.5) ? 30 : 5000); } f.data = r.bytes(f.size); if (f.size > 60 && r.chance(0.4)) { std::string m = r.pick({"\r\n--BOUNDARY_STRING\r\n", "\r\n--BOUNDARY_STRING--\r\n", "\r\n\r\n", "\r\n--", "HTTP/1.1 206 OK\r\n\r\n"}); for (int k = 3; k--;) f.data.replace(r.below(f.size - m.size()), m.size(), m); } std::ofstream(f.path, std::ios::binary) << f.data; }
    std::lock_guard g(gm); paths[id] = f.path; return f;
}
struct One { std::string text; bool ok = true; bool has = false; u64 a = 0, b = 0; }; // ok: syntactically valid; has: satisfiable as [a, b]
static One one(vf::Rng& r, File const& f, bool bad) {
    One o; u64 lim = f.size; bool huge = !f.marks.empty(); auto pos = [&]() -> u64 { if (huge) { auto it = f.marks.begin(); std::advance(it, (long)r.below(f.marks.size())); u64 p = it->first + r.below(40); return p < 10 ? p : p - r.below(10); } switch (r.below(8)) { case 0: return 0; case 1: return lim ? lim - 1 : 0; case 2: return lim; case 3: return lim + 1 + r.below(100); case 4: return (u64)r.pick({4294967295ULL, 4294967296ULL, 9223372036854775807ULL, 18446744073709551615ULL}); case 5: return 131072; default: return r.below(lim + 1); } };
    auto num = [&](u64 v) { return (r.chance(0.05) ? std::string("00") : std::string()) + std::to_string(v); };
    if (bad) { o.ok = false; o.text = r.pick({"abc", "1", "", "5-2", "-", "1-2-3", "a-5", "5-a", "+1-5", "0x1-3", "--5", "1 - 4", "1.5-9", "18446744073709551616x-"}); if (o.text == "5-2") o.text = S((long)(5 + r.below(50))) + "-" + S((long)r.below(5)); return o; }
    switch (r.below(3)) {
    case 0: { u64 a = pos(), b = huge ? a + r.below(60) : pos(); if (a > b) std::swap(a, b); o.text = num(a) + "-" + num(b); if (a < lim) { o.has = true; o.a = a; o.b = std::min(b, lim - 1); } break; }
    case 1: { u64 a = huge ? lim - 1 - r.below(300) : pos(); o.text = num(a) + "-"; if (a < lim) { o.has = true; o.a = a; o.b = lim - 1; } break; }
    default: { u64 n = huge ? r.below(300) : pos(); if (r.chance(0.05)) { o.text = "-99999999999999999999999"; n = huge ? 0 : lim; if (huge) { o.text = "-0"; } } else o.text = "-" + num(n); n = std::min(n, lim); if (n) { o.has = true; o.a = lim - n; o.b = lim - 1; } } }
    return o;
}
struct Rq { std::string id, bytes, range; File const* f; std::vector<One> set; bool head = false, any = false; int kind = 0; };
static Rq gen(vf::Rng& r, std::string const& id, File const& f) {
    Rq q; q.id = id; q.f = &f; q.head = r.chance(0.12); q.kind = !f.marks.empty() && !q.head ? (int)r.range(1, 2) : (int)r.below(5);
    switch (q.kind) { case 0: break; case 1: q.set.push_back(one(r, f, false)); break; case 2: for (int n = (int)r.range(2, 5); n--;) q.set.push_back(one(r, f, false)); break; case 3: for (int n = (int)r.range(1, 3); n--;) q.set.push_back(one(r, f, r.chance(0.6))); break; default: q.range = r.pick({"items=0-3", "bytes 0-3", "seconds=1-2", "bites=0-1", "xbytes=0-3", "items=0-1,bytes=0-2", "kilobytes=0-0", "b=1-2"}); q.any = true; }
    if (!q.set.empty()) { q.range = "bytes="; for (std::size_t i = 0; i < q.set.size(); ++i) q.range += (i ? r.pick({",", ", ", " ,"}) : std::string()) + q.set[i].text; }
    q.bytes = std::string(q.head ? "HEAD" : "GET") + " /f/" + id + " HTTP/1.1\r\n" + (q.range.empty() ? "" : r.pick({"Range: ", "range: ", "RANGE:"}) + q.range + "\r\n") + "\r\n"; return q;
}
static void judge(Rq const& q, Resp const& x) {
    File const& f = *q.f; auto say = [&](std::string w) { return "file of " + std::to_string(f.size) + " bytes, " + (q.head ? "HEAD " : "") + "range '" + q.range + "': " + w; }; auto whole = [&] { return x.status == 200 && (f.marks.empty() ? x.body == f.data : x.body.size() == f.size); };
    std::string size = std::to_string(f.size); vf::eval(2); vf::sig(S(q.kind) + q.range + "/" + size);
    if (q.head) { auto* cl = x.get("content-length"); vf::check(x.status == 200 && cl && *cl == size, "head", [&] { return say("HEAD answered " + S(x.status) + " length " + (cl ? *cl : "none")); }); return; }
    if (q.set.empty()) { vf::check(whole() || (q.any && x.status == 416), "whole", [&] { return say("status " + S(x.status) + " " + diff(x.body, f.data)); }); return; }
    std::vector<One> sat; bool bad = false; for (auto& o : q.set) { if (!o.ok) bad = true; if (o.has) sat.push_back(o); }
    if (x.status == 200) { vf::check(bad && whole(), "whole", [&] { return say("answered 200 with " + S((long)x.body.size()) + " bytes"); }); return; }
    if (x.status == 416) { auto* cr = x.get("content-range"); vf::check(bad || sat.empty(), "refused", [&] { return say("answered 416 though it can be satisfied"); }); vf::check(cr && *cr == "bytes */" + size, "range-error", [&] { return say("416 with content-range " + (cr ? *cr : "none")); }); return; }
    if (!vf::check(x.status == 206 && !sat.empty(), "status", [&] { return say("status " + S(x.status)); })) return;
    auto cr = [&](One const& o) { return "bytes " + std::to_string(o.a) + "-" + std::to_string(o.b) + "/" + size; };
    auto* ct = x.get("content-type"); if (sat.size() == 1 && !(ct && ct->starts_with("multipart/byteranges"))) { auto* c = x.get("content-range"); vf::check(c && *c == cr(sat[0]), "content-range", [&] { return say("content-range " + (c ? *c : "none") + " instead of " + cr(sat[0])); }); auto want = f.part(sat[0].a, sat[0].b - sat[0].a + 1); vf::check(x.body == want, "bytes", [&] { return say(diff(x.body, want)); }); return; }
    // several parts, taken apart by the delimiter alone, as a client does
    auto bp = ct ? ct->find("boundary=") : std::string::npos; if (!vf::check(ct && ct->starts_with("multipart/byteranges") && bp != ct->npos, "parts", [&] { return say("content-type " + (ct ? *ct : "none")); })) return; std::string bd = "--" + ct->substr(bp + 9); if (bd.size() > 4 && bd[2] == '"') bd = "--" + ct->substr(bp + 10, ct->size() - bp - 11);
    std::string all = "\r\n" + x.body, del = "\r\n" + bd; std::size_t at = all.find(del); std::vector<std::pair<std::string, std::string>> parts; bool end = false; if (!vf::check(at == 0, "parts", [&] { return say("does not begin with the delimiter: " + vf::esc(x.body, 100)); })) return;
    while (at != all.npos) { at += del.size(); if (all.compare(at, 2, "--") == 0) { end = at + 2 == all.size() || all.compare(at + 2, std::string::npos, "\r\n") == 0; break; } if (all.compare(at, 2, "\r\n")) break; std::size_t h = all.find("\r\n\r\n", at), nx = all.find(del, at); if (h == all.npos || nx == all.npos || h + 4 > nx) break; parts.emplace_back(all.substr(at + 2, h - at), all.substr(h + 4, nx - h - 4)); at = nx; }
    if (!vf::check(end && parts.size() == sat.size(), "parts", [&] { return say(S((long)parts.size()) + " parts, expected " + S((long)sat.size()) + (end ? "" : ", no final delimiter")); })) return;
    for (std::size_t i = 0; i < parts.size(); ++i) { vf::check(low(parts[i].first).find("content-range: " + cr(sat[i]) + "\r\n") != std::string::npos, "content-range", [&] { return say("part " + S((long)i) + " head " + vf::esc(parts[i].first) + " expected " + cr(sat[i])); }); auto want = f.part(sat[i].a, sat[i].b - sat[i].a + 1); vf::check(parts[i].second == want, "bytes", [&] { return say("part " + S((long)i) + ": " + diff(parts[i].second, want)); }); } vf::eval(parts.size());
}
VF_SECTION("ranges", 3000, 40000) { auto& r = rng;
    Router<HttpIO> router; routes(router); std::string id; File f = mk(r, id); std::vector<Rq> qs; std::string all; for (int n = (int)r.range(1, 8); n--;) { qs.push_back(gen(r, id, f)); all += qs.back().bytes; } vf::setCase("file " + std::to_string(f.size) + " " + vf::esc(all, 3500)); bool pipe = r.chance(0.5);
    { Served<> sv(router, r.chance(0.2) ? 4096 : 0); if (pipe) sv.peer.send(all); for (auto& q : qs) { if (!pipe) sv.peer.send(q.bytes); std::string err; auto x = sv.peer.response(q.head, err); if (!x) { vf::fail("no-answer", "range '" + q.range + "' of " + std::to_string(f.size) + ": " + err); break; } judge(q, *x); } sv.peer.wait(0.002); vf::check(sv.peer.in.empty(), "extra-bytes", [&] { return vf::esc(sv.peer.in, 100); }); vf::check(!sv.peer.eof, "closed", "the connection was closed"); sv.finish(); }
    ::unlink(f.path.c_str()); std::lock_guard g(gm); paths.erase(id);
}
// the file becomes shorter while a part of it is on its way: what arrives complete is right, everything else ends the connection
VF_SECTION("shrinks", 250, 4000) { auto& r = rng;
    Router<HttpIO> router; routes(router); File f; f.size = 400000 + r.below(700000); f.data = r.bytes(f.size); std::string id = "f" + S(++ids); f.path = vf::scratch() + "/c16-" + S(::getpid()) + "-" + id + ".bin"; std::ofstream(f.path, std::ios::binary) << f.data; { std::lock_guard g(gm); paths[id] = f.path; }
    std::string id2; File f2; do { if (!f2.path.empty()) ::unlink(f2.path.c_str()); f2 = mk(r, id2); } while (!f2.marks.empty()); Rq q, q2 = gen(r, id2, f2); q.id = id; q.f = &f; int n = (int)r.range(1, 3); q.range = "bytes="; for (int i = 0; i < n; ++i) { One o; o.has = true; o.a = r.below(f.size / 2); o.b = r.chance(0.3) ? f.size - 1 : o.a + r.below(f.size - o.a); o.text = std::to_string(o.a) + "-" + std::to_string(o.b); q.range += (i ? "," : "") + o.text; q.set.push_back(o); }
    q.bytes = "GET /f/" + id + " HTTP/1.1\r\nRange: " + q.range + "\r\n\r\n"; u64 to = r.below(r.chance(0.5) ? f.size : 200000); bool late = r.chance(0.5); vf::setCase("file " + std::to_string(f.size) + " cut to " + std::to_string(to) + " " + vf::esc(q.bytes + q2.bytes, 400)); int fds = vf::countFds();
    { Served<> sv(router, 4096); sv.peer.send(q.bytes + (late ? "" : q2.bytes)); double e = now() + 5; while (sv.peer.in.size() < 60 && now() < e && !sv.peer.eof) { char b[64]; auto k = ::recv(sv.peer.fd, b, sizeof b, MSG_DONTWAIT); if (k > 0) sv.peer.in.append(b, (std::size_t)k); else if (k == 0) sv.peer.eof = true; }
      (void)!::truncate(f.path.c_str(), (off_t)to); std::string err; auto x = sv.peer.response(false, err); if (x) judge(q, *x); else vf::check(err.starts_with("closed"), "not-ended", [&] { return "a response that can no longer be completed does not end: " + err; }); if (!x && err.starts_with("closed after")) { vf::check(sv.peer.in.find("HTTP/1.1 ") == std::string::npos, "fused", "another response follows inside the unfinished one"); if (n == 1) { auto want = f.part(q.set[0].a, sv.peer.in.size()); vf::check(sv.peer.in == want, "bytes", [&] { return "the unfinished part: " + diff(sv.peer.in, want); }); } } vf::note(x ? "responses complete" : "responses cut off"); vf::sig(vf::hashStr(q.range));
      if (x) { if (late) sv.peer.send(q2.bytes); err.clear(); auto y = sv.peer.response(q2.head, err); if (y) judge(q2, *y); else vf::check(err.starts_with("closed"), "next", [&] { return "the next request: " + err; }); } sv.finish(); }
    bool back = vf::waitUntil([&] { return vf::countFds() <= fds; }, 3); vf::check(back, "fd-leak", [&] { return S(vf::countFds() - fds) + " descriptors left open"; }); vf::eval(2); ::unlink(f.path.c_str()); ::unlink(f2.path.c_str()); std::lock_guard g(gm); paths.erase(id); paths.erase(id2);
}
// parts beyond 4 GiB: what is announced is right and it begins with the right bytes
VF_SECTION("beyond", 60, 600) { auto& r = rng;
    Router<HttpIO> router; routes(router); File f; std::string id = "f" + S(++ids); f.path = vf::scratch() + "/c16-" + S(::getpid()) + "-" + id; f.size = (u64)r.range(4294967297LL, 20000000000LL); int fd = ::open(f.path.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0644); (void)!::ftruncate(fd, (off_t)f.size);
    u64 a = r.chance(0.4) ? 0 : r.chance(0.3) ? f.size - 4294967296ULL - r.below(std::min<u64>(3, f.size - 4294967296ULL)) : r.below(f.size - 4294967296ULL); f.marks[a] = r.bytes(3000); f.marks[f.size - 1] = "z"; for (auto& [p, m] : f.marks) (void)!::pwrite(fd, m.data(), std::min<u64>(m.size(), f.size - p), (off_t)p); ::close(fd); { std::lock_guard g(gm); paths[id] = f.path; }
    int kind = (int)r.below(4); u64 b = f.size - 1; std::string rg; bool head = false; switch (kind) { case 0: rg = "bytes=" + std::to_string(a) + "-"; break; case 1: b = r.chance(0.5) ? b : a + 4294967295ULL + r.below(f.size - 4294967296ULL - a + 1); rg = "bytes=" + std::to_string(a) + "-" + std::to_string(r.chance(0.1) && b == f.size - 1 ? b + 5 : b); break; case 2: rg = "bytes=-" + std::to_string(f.size - a); break; default: a = 0; head = r.chance(0.5); }
    std::string q = std::string(head ? "HEAD" : "GET") + " /f/" + id + " HTTP/1.1\r\n" + (rg.empty() ? "" : "Range: " + rg + "\r\n") + "\r\n"; vf::setCase("file of " + std::to_string(f.size) + " " + vf::esc(q)); int fds = vf::countFds();
    { Served<> sv(router, 65536); sv.peer.send(q); double e = now() + 10; std::size_t at; while (((at = sv.peer.in.find("\r\n\r\n")) == std::string::npos || (!head && sv.peer.in.size() < at + 4 + 6000)) && now() < e && !sv.peer.eof) { char c[2048]; auto k = ::recv(sv.peer.fd, c, sizeof c, MSG_DONTWAIT); if (k > 0) sv.peer.in.append(c, (std::size_t)k); else if (k == 0) sv.peer.eof = true; else std::this_thread::yield(); }
      std::string h = low(sv.peer.in.substr(0, at == std::string::npos ? 0 : at + 2)), body = at == std::string::npos ? "" : sv.peer.in.substr(at + 4); bool whole = kind == 3; vf::eval(4); vf::check(h.starts_with(whole ? "http/1.1 200 " : "http/1.1 206 "), "status", [&] { return "answered " + vf::esc(h, 60); }); auto len = std::to_string(b - a + 1); vf::check(h.find("\r\ncontent-length: " + len + "\r\n") != h.npos, "length", [&] { return len + " bytes are announced as " + vf::esc(h, 300); });
      if (!whole) vf::check(h.find("\r\ncontent-range: bytes " + std::to_string(a) + "-" + std::to_string(b) + "/" + std::to_string(f.size) + "\r\n") != h.npos, "content-range", [&] { return "head " + vf::esc(h, 300); }); if (!head) { std::size_t n = std::min<std::size_t>(body.size(), 6000); vf::check(n == 6000 && body.substr(0, n) == f.part(a, n), "bytes", [&] { return "the first bytes of the part are others: " + diff(body.substr(0, n), f.part(a, n)); }); } else vf::check(body.empty(), "head", "a body"); sv.peer.closeRst(); sv.finish(); }
    bool back = vf::waitUntil([&] { return vf::countFds() <= fds; }, 5); vf::check(back, "fd-leak", [&] { return S(vf::countFds() - fds) + " descriptors left open"; }); vf::sig(q); ::unlink(f.path.c_str()); std::lock_guard g(gm); paths.erase(id);
}
// a client that learns the size, then downloads in pieces over several connections, ends up with the file
VF_SECTION("resume", 10, 100) { auto& r = rng;
    vf::setCase("resume"); int pt = port() + (int)(index % 30); HttpServer server{(std::uint16_t)pt}; routes(server); server.asyncRun<decltype(10_s)>((std::size_t)r.range(1, 3)); int fd = tcpRetry(pt); if (!vf::check(fd >= 0, "no-start", "server does not accept connections")) return; ::close(fd); u64 seed = r.next(); std::vector<std::thread> ts; std::mutex m; std::vector<std::string> del;
    for (int k = 0; k < 6; ++k) ts.emplace_back([&, k] { vf::Rng q(vf::mix(seed + (u64)k)); std::string id; File f; do { if (!f.path.empty()) ::unlink(f.path.c_str()); f = mk(q, id); } while (!f.marks.empty() || f.size == 0); { std::lock_guard g(m); del.push_back(f.path); } Peer p(tcpRetry(pt)); std::string err; p.send("HEAD /f/" + id + " HTTP/1.1\r\n\r\n"); auto h = p.response(true, err); if (!h || !h->get("content-length")) { vf::fail("head", "no size: " + err); return; } u64 n = std::stoull(*h->get("content-length")); std::string got;
        for (int step = 0; got.size() < n && step < 60; ++step) { u64 want = std::min<u64>(n - got.size(), 1 + q.below(step > 50 ? n : 60000)); std::string hi = q.chance(0.2) ? "" : std::to_string(got.size() + want - 1); p.send("GET /f/" + id + " HTTP/1.1\r\nRange: bytes=" + std::to_string(got.size()) + "-" + hi + "\r\n\r\n"); if (q.chance(0.2)) { double e = now() + 2; while (p.in.size() < 300 && now() < e && p.wait(0.02)) {} auto at = p.in.find("\r\n\r\n"); if (at != p.in.npos) { std::string b = p.in.substr(at + 4); got += b.substr(0, (std::size_t)(n - got.size())); } if (q.chance(0.5)) p.closeRst(); else p.close(); p.fd = tcpRetry(pt); p.in.clear(); p.eof = false; continue; } auto x = p.response(false, err); if (!x || x->status != 206) { vf::fail("no-answer", "resuming at " + S((long)got.size()) + " of " + std::to_string(n) + ": " + err); return; } got += x->body; }
        vf::check(got == f.data || got.size() < n, "bytes", [&] { return "resumed download: " + diff(got, f.data); }); vf::eval(); vf::note("resumed downloads"); });
    for (auto& t : ts) t.join(); { vf::Watch w("server-stop|stopping", 30); server.syncStop(); } for (auto& d : del) ::unlink(d.c_str());
}
