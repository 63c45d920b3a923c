// C09: a well-formed request head is understood the same however its bytes arrive.
#include "http.hpp"
using namespace ht;
using namespace HX::net;

struct Seen { std::string method, path, pure, version; std::map<std::string, std::string> headers, query; bool found; bool lookupOk; };
struct Rq {
    std::string method, target, pure, version = "HTTP/1.1", bytes; std::map<std::string, std::string> headers, query; bool found; std::vector<std::string> probe; std::set<std::string> folded;
};
static const char* METHODS[] = {"GET", "HEAD", "POST", "PUT", "TRACE", "PATCH", "CONNECT", "OPTIONS", "DELETE"};
static const char* PCHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;=:@%";
static const char* QCHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$'()*+,;:@%/?";

// one random well-formed request; `size` in 0..5 sets how big the head gets
static Rq gen(vf::Rng& r, int size) {
    Rq q; q.method = r.chance(0.9) ? METHODS[r.below(9)] : r.text(1 + r.below(12), "ABCDEFGHIJKLMNOPQRSTUVWXYZ-_"); bool known = false; for (auto m : METHODS) known |= q.method == m;
    std::size_t maxTarget = size >= 3 && r.chance(0.5) ? 15000 : 200; std::string p;
    if (r.chance(0.1)) p = "/"; else if (r.chance(0.05)) p = r.chance(0.5) ? "//" : "*"; else for (int n = (int)r.range(1, 6); n--;) { p += "/"; if (r.chance(0.1)) p += "/"; p += r.text(1 + r.below(r.chance(0.1) ? maxTarget / 6 : 12), PCHARS); }
    if (r.chance(0.1) && p.size() > 1) p += "/";
    q.pure = p; q.found = known && p.find_first_not_of('/') != p.npos; q.target = p;
    if (r.chance(0.6)) { q.target += '?'; int n = (int)r.below(8); if (size >= 3) n *= 10; bool first = true;
        for (; n--;) { std::string k = r.text(1 + r.below(10), QCHARS), v = r.text(r.below(r.chance(0.05) ? maxTarget / 80 : 20), QCHARS); if (r.chance(0.1)) v += "=" + r.text(3, QCHARS);
            bool bare = r.chance(0.15); if (bare) v = ""; if (q.query.count(k) || q.target.size() + k.size() + v.size() > 15500) continue; if (!first) q.target += '&'; first = false; q.target += k; if (!bare) q.target += "=" + v; q.query[k] = v; } }
    if (r.chance(0.1)) q.version = "HTTP/1.0";
    if (r.chance(0.1)) q.bytes = "\r\n"; // an empty line before the request line is to be ignored
    q.bytes += q.method + " " + q.target + " " + q.version + "\r\n";
    auto add = [&](std::string const& k, std::string const& v) {
        std::string ows = r.chance(0.7) ? " " : r.chance(0.3) ? "" : r.text(1 + r.below(3), " \t"), tail = r.chance(0.8) ? "" : r.text(1 + r.below(3), " \t");
        q.bytes += recase(r, k) + ":" + ows + v + tail + "\r\n"; auto lk = low(k); auto it = q.headers.find(lk); if (it == q.headers.end()) q.headers[lk] = v; else it->second += ", " + v; };
    if (r.chance(0.8)) add("Host", "localhost:28205"); if (r.chance(0.3)) add("Content-Length", "0"); if (r.chance(0.3)) add("Connection", r.chance(0.5) ? "keep-alive" : "Upgrade"); if (r.chance(0.3)) add("Accept", "text/html, */*;q=0.8");
    std::size_t n = size == 0 ? r.below(3) : size == 1 ? r.below(12) : size == 2 ? r.below(40) : size == 3 ? r.below(150) : r.below(30); std::size_t cap = size >= 5 ? 120000 : size == 4 ? 60000 : 30000;
    for (std::size_t i = 0; i < n && q.bytes.size() < cap; ++i) {
        std::string k = hname(r), v = size >= 4 && r.chance(0.3) ? hval(r, 15900) : size == 3 && r.chance(0.1) ? hval(r, 3000) : hval(r); if (low(k) == "content-length") continue;
        add(k, v); if (r.chance(0.03)) { q.folded.insert(low(k)); for (int f = (int)r.range(1, 3); f--;) { std::string more = r.chance(0.1) ? "" : hval(r, 12); q.bytes += r.text(1 + r.below(3), " \t") + more + (r.chance(0.2) ? " " : "") + "\r\n"; q.headers[low(k)] += " " + more; } } // a folded line continues the value
        if (r.chance(0.05)) { for (int d = (int)r.range(1, 3); d--;) add(k, hval(r, 12)); } }
    if (r.chance(0.2)) { q.probe.push_back("x-not-there-" + r.text(5, "abc")); }
    q.bytes += "\r\n"; return q;
}
// ", " and "," are the same list separator
static std::string listNorm(std::string s) { std::string o; for (std::size_t i = 0; i < s.size(); ++i) { o += s[i]; if (s[i] == ',') while (i + 1 < s.size() && (s[i + 1] == ' ' || s[i + 1] == '\t')) ++i; } return o; }

struct Sink { std::mutex m; std::vector<Seen> v; std::size_t size() { std::lock_guard g(m); return v.size(); } };
static void routes(Router<HttpIO>& router, Sink& sink) {
    auto rec = [&sink](HttpRequest<HttpIO>& req, bool found) { Seen s; s.method = req.getReqType(); s.path = req.getReqPath(); s.pure = req.getPureReqPath(); s.version = req.getProtocolVersion(); s.found = found; s.lookupOk = true;
        for (auto& [k, v] : req.getHeaders()) { auto [it, nw] = s.headers.emplace(low(k), v); if (!nw) s.lookupOk = false;
            std::string up = k; for (auto& c : up) if (c >= 'a' && c <= 'z') c = (char)(c - 32); for (auto& key : {k, low(k), up}) { auto f = req.getHeaders().find(key); if (f == req.getHeaders().end() || f->second != v) s.lookupOk = false; } }
        if (req.getHeaders().find(std::string_view("x-never-sent-header")) != req.getHeaders().end()) s.lookupOk = false;
        for (auto& [k, v] : req.getParseQueryParameters()) s.query[k] = v;
        std::lock_guard g(sink.m); sink.v.push_back(std::move(s)); return sink.v.size(); };
    router.addEndpoint<GET, HEAD, POST, PUT, HttpMethod::TRACE, HttpMethod::PATCH, CONNECT, HttpMethod::OPTIONS, DEL>("/**", [rec](HttpRequest<HttpIO>& req, HttpResponse<HttpIO>& res) -> HX::coroutine::Task<> { auto n = rec(req, true); co_await res.setStatusAndContent(Status::CODE_200, "n" + S((long)n)).sendRes(); });
    router.setErrorEndpointFunc([rec](HttpRequest<HttpIO>& req, HttpResponse<HttpIO>& res) -> HX::coroutine::Task<> { auto n = rec(req, false); co_await res.setStatusAndContent(Status::CODE_404, "n" + S((long)n)).sendRes(); });
}
static std::string dump(std::map<std::string, std::string> const& m) { std::string s; for (auto& [k, v] : m) s += k + "=" + v.substr(0, 60) + "; "; return s; }
static void judge(Seen const& s, Rq const& q) {
    vf::check(s.method == q.method, "method", [&] { return diff(s.method, q.method); });
    vf::check(s.path == q.target, "path", [&] { return diff(s.path, q.target); });
    vf::check(s.pure == q.pure, "pure-path", [&] { return diff(s.pure, q.pure); });
    vf::check(s.version == q.version, "version", [&] { return diff(s.version, q.version); });
    vf::check(s.found == q.found, "handler", [&] { return std::string(s.found ? "endpoint" : "not-found handler") + " ran for " + vf::esc(q.method + " " + q.pure, 200); });
    vf::check(s.query == q.query, "query", [&] { return "got " + vf::esc(dump(s.query), 600) + " for target " + vf::esc(q.target, 600); });
    vf::check(s.lookupOk, "lookup", [&] { return "header lookup is not case-insensitive, or finds what was not sent: " + vf::esc(q.bytes, 800); });
    auto norm = [&](std::map<std::string, std::string> m) { for (auto& [k, v] : m) { v = listNorm(v); if (q.folded.count(k)) { std::string o; for (char c : v) if (c != ' ' && c != '\t') o += c; else if (!o.empty() && o.back() != ' ') o += ' '; while (!o.empty() && o.back() == ' ') o.pop_back(); v = o; } } return m; }; auto a = norm(s.headers), b = norm(q.headers);
    vf::check(a == b, "headers", [&] { for (auto& [k, v] : b) { auto it = a.find(k); if (it == a.end()) return "header " + k + " is missing (head of " + S((long)q.bytes.size()) + " bytes)"; if (it->second != v) return "header " + k + ": " + diff(it->second, v); } for (auto& [k, v] : a) if (!b.count(k)) return "header nobody sent: " + vf::esc(k, 100) + ": " + vf::esc(v, 100); return std::string("?"); });
    vf::eval(9 + (long)b.size() + (long)q.query.size());
}
static void conversation(vf::Rng& r, std::vector<Rq> const& qs, Sink& sink, Router<HttpIO> const& router, int how) {
    Served<> sv(router, r.chance(0.1) ? 4096 : 0); std::size_t base = sink.size(), done = 0;
    auto answer = [&](std::size_t i) { std::string err; auto res = sv.peer.response(qs[i].method == "HEAD", err); if (!res) { vf::fail("no-answer", "request " + S((long)i + 1) + " of " + S((long)qs.size()) + ": " + err + "; " + vf::esc(qs[i].bytes, 600)); return false; }
        vf::check(res->status == (qs[i].found ? 200 : 404), "status", [&] { return S(res->status) + " for " + vf::esc(qs[i].bytes, 300); }); if (qs[i].method != "HEAD") vf::check(res->body == "n" + S((long)(base + i + 1)), "order", [&] { return "answer " + S((long)i) + " is " + vf::esc(res->body); }); ++done; return true; };
    if (how == 0) { for (std::size_t i = 0; i < qs.size(); ++i) { if (!feed(sv.peer, qs[i].bytes, cuts(r, qs[i].bytes))) { vf::fail("closed", "closed while sending a request: " + vf::esc(qs[i].bytes, 500)); return; } if (!answer(i)) return; } }
    else { std::string all; for (auto& q : qs) all += q.bytes; if (!feed(sv.peer, all, how == 2 ? std::vector<std::size_t>{} : cuts(r, all))) { vf::fail("closed", "closed while sending pipelined requests: " + vf::esc(all, 800)); return; } for (std::size_t i = 0; i < qs.size(); ++i) if (!answer(i)) return; }
    sv.finish();
    std::lock_guard g(sink.m); if (!vf::check(sink.v.size() == base + qs.size(), "dispatch-count", [&] { return S((long)(sink.v.size() - base)) + " dispatches for " + S((long)qs.size()) + " requests"; })) return;
    for (std::size_t i = 0; i < qs.size(); ++i) judge(sink.v[base + i], qs[i]);
}

VF_SECTION("segments", 8000, 40000) { auto& r = rng;
    int size = (int)(r.chance(0.15) ? r.range(3, 5) : r.below(3)); std::vector<Rq> qs; for (int n = (int)r.range(1, 4); n--;) qs.push_back(gen(r, size)); int how = (int)r.below(3);
    std::string all; for (auto& q : qs) all += q.bytes; vf::setCase(S(how) + " " + vf::esc(all, 3000));
    Sink sink; Router<HttpIO> router; routes(router, sink); conversation(r, qs, sink, router, how); vf::sig(all);
}
// one request, cut at every position (two pieces): the result may not depend on the cut
VF_SECTION("every-cut", 80, 800) { auto& r = rng;
    std::vector<Rq> qs{gen(r, (int)r.below(2)), gen(r, 0)}; std::string all = qs[0].bytes + qs[1].bytes; vf::setCase(vf::esc(all, 3000));
    Sink sink; Router<HttpIO> router; routes(router, sink); Served<> sv(router); std::size_t step = std::max<std::size_t>(1, all.size() / 500); long n = 0;
    for (std::size_t c = 1; c < all.size(); c += step) {
        std::size_t base = sink.size(); if (!feed(sv.peer, all, {c})) { vf::fail("closed", "closed after a cut at " + S((long)c)); return; }
        for (int i = 0; i < 2; ++i) { std::string err; auto res = sv.peer.response(qs[i].method == "HEAD", err); if (!res) { vf::fail("no-answer", "cut at " + S((long)c) + " of " + S((long)all.size()) + ": " + err); return; } }
        std::lock_guard g(sink.m); if (!vf::check(sink.v.size() == base + 2, "dispatch-count", "not two dispatches")) return; judge(sink.v[base], qs[0]); judge(sink.v[base + 1], qs[1]); ++n;
    }
    vf::note("cut positions", n); vf::sig(all); sv.finish();
}
// line lengths around the receive buffer's size: a line that fits has to be understood
VF_SECTION("long-lines", 300, 1500) { auto& r = rng;
    Sink sink; Router<HttpIO> router; routes(router, sink); std::vector<Rq> qs;
    for (int k = (int)r.range(1, 3); k--;) { Rq q; q.method = "GET"; std::size_t n = r.chance(0.5) ? 16384 - 2 - r.below(60) : 1 + r.below(16380);
        if (r.chance(0.3)) { std::size_t m = n - std::min<std::size_t>(n - 1, 13); q.pure = q.target = "/" + r.text(std::max<std::size_t>(m, 2) - 1, PCHARS); q.bytes = "GET " + q.target + " HTTP/1.1\r\n"; } else { q.pure = q.target = "/a"; q.bytes = "GET /a HTTP/1.1\r\n"; for (int h = (int)r.range(1, 6); h--;) { std::string name = "x-l" + S(h); std::size_t len = h == 0 ? n : 1 + r.below(16370); len = std::min<std::size_t>(len, 16380); std::string v = r.text(len > 7 ? len - 6 : 1, PCHARS); q.bytes += name + ": " + v + "\r\n"; q.headers[name] = v; } }
        q.bytes += "\r\n"; q.found = true; qs.push_back(q); }
    std::string all; for (auto& q : qs) all += q.bytes; vf::setCase(S((long)all.size()) + " bytes, lines near the buffer size"); conversation(r, qs, sink, router, (int)r.below(3)); vf::sig(all);
}
