#pragma once
// Client test side: a scripted raw server in the same process, a strict request parser, exact segmentation over TCP.
#include "http.hpp"
#include <dirent.h>
#include <functional>

namespace ct {
using namespace ht;
struct RReq { std::string method, target, version, body; Hdrs headers; bool chunked = false;
    std::string const* get(std::string_view k) const { for (auto& [a, b] : headers) if (low(a) == k) return &b; return nullptr; }
    int count(std::string_view k) const { int n = 0; for (auto& [a, b] : headers) if (low(a) == k) ++n; return n; } };
// strictly parses one request; err: "closed" when the client left between two requests
inline std::optional<RReq> request(Peer& p, std::string& err, double sec = 20) {
    double e = now() + sec; std::size_t pos; RReq r; auto& in = p.in;
    while ((pos = in.find("\r\n\r\n")) == in.npos) { if (p.eof) { err = in.empty() ? "closed" : "closed inside a request head: " + vf::esc(in, 200); return {}; } if (now() > e) { err = in.empty() ? "timeout" : "timeout inside a request head: " + vf::esc(in, 200); return {}; } p.wait(0.02); }
    std::string h = in.substr(0, pos + 2); in.erase(0, pos + 4); std::size_t l = h.find("\r\n"); std::string sl = h.substr(0, l); auto a = sl.find(' '), b = a == sl.npos ? a : sl.find(' ', a + 1);
    if (b == sl.npos || sl.find(' ', b + 1) != sl.npos) { err = "bad request line: " + vf::esc(sl, 200); return {}; } r.method = sl.substr(0, a); r.target = sl.substr(a + 1, b - a - 1); r.version = sl.substr(b + 1); if (!isTok(r.method) || r.target.empty() || r.version != "HTTP/1.1") { err = "bad request line: " + vf::esc(sl, 200); return {}; }
    for (std::size_t i = l + 2; i < h.size();) { std::size_t j = h.find("\r\n", i); std::string line = h.substr(i, j - i); i = j + 2; auto c = line.find(':'); if (c == line.npos || !isTok(std::string_view(line).substr(0, c)) || line.find_first_of(std::string_view("\r\n\0", 3)) != line.npos) { err = "bad header line: " + vf::esc(line, 200); return {}; }
        std::string v = line.substr(c + 1); while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1); while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back(); r.headers.emplace_back(line.substr(0, c), v); }
    int cl = r.count("content-length"), te = r.count("transfer-encoding"); if (cl > 1 || te > 1 || (cl && te)) { err = "contradictory framing headers in the request: " + vf::esc(h, 300); return {}; }
    if (r.count("host") != 1) { err = "a request with " + S(r.count("host")) + " Host headers"; return {}; }
    auto need = [&](std::size_t n) { while (in.size() < n) { if (p.eof) { err = "closed inside a request body"; return false; } if (now() > e) { err = "timeout inside a request body"; return false; } p.wait(0.02); } return true; };
    if (cl) { auto& v = *r.get("content-length"); if (v.empty() || v.size() > 18 || v.find_first_not_of("0123456789") != v.npos) { err = "bad content-length " + vf::esc(v); return {}; } std::size_t n = std::stoull(v); if (!need(n)) return {}; r.body = in.substr(0, n); in.erase(0, n); }
    else if (te) { if (low(*r.get("transfer-encoding")) != "chunked") { err = "transfer-encoding " + *r.get("transfer-encoding"); return {}; } r.chunked = true; std::size_t at = 0;
        for (;;) { std::size_t q; while ((q = in.find("\r\n", at)) == in.npos) if (!need(in.size() + 1)) return {}; std::string sz = in.substr(at, q - at); if (sz.empty() || sz.size() > 15 || sz.find_first_not_of("0123456789abcdefABCDEF") != sz.npos) { err = "bad chunk size '" + vf::esc(sz, 60) + "'"; return {}; }
            std::size_t n = std::stoull(sz, nullptr, 16); at = q + 2; if (!need(at + n + 2)) return {}; if (in.compare(at + n, 2, "\r\n") != 0) { err = "chunk of " + sz + " not followed by CRLF"; return {}; } r.body.append(in, at, n); at += n + 2; if (!n) break; } in.erase(0, at); }
    return r;
}
inline bool sameAddr(sockaddr_storage const& a, sockaddr_storage const& b) { if (a.ss_family != b.ss_family) return false; if (a.ss_family == AF_INET) { auto &x = (sockaddr_in const&)a, &y = (sockaddr_in const&)b; return x.sin_port == y.sin_port && x.sin_addr.s_addr == y.sin_addr.s_addr; } auto &x = (sockaddr_in6 const&)a, &y = (sockaddr_in6 const&)b; return x.sin6_port == y.sin6_port && !std::memcmp(&x.sin6_addr, &y.sin6_addr, 16); }
// the descriptor of this process that is the other end of fd
inline int otherEnd(int fd) { sockaddr_storage me{}, him{}; socklen_t l = sizeof me; if (::getsockname(fd, (sockaddr*)&me, &l)) return -1; l = sizeof him; if (::getpeername(fd, (sockaddr*)&him, &l)) return -1; int found = -1; DIR* d = ::opendir("/proc/self/fd"); if (!d) return -1;
    while (auto* e = ::readdir(d)) { int f = std::atoi(e->d_name); if (f <= 2 || f == fd) continue; sockaddr_storage a{}, b{}; socklen_t la = sizeof a, lb = sizeof b; if (::getsockname(f, (sockaddr*)&a, &la) || ::getpeername(f, (sockaddr*)&b, &lb)) continue; if (sameAddr(a, him) && sameAddr(b, me)) { found = f; break; } }
    ::closedir(d); return found; }
// waits until the client has taken every byte sent to it so far
struct Feeder { Peer& p; int cli = -1; bool looked = false; explicit Feeder(Peer& q) : p(q) {}
    void drained(double sec = 5) { if (!looked) { looked = true; cli = otherEnd(p.fd); } double e = now() + sec; int spin = 0; for (;;) { int q = 0, u = 0; ::ioctl(p.fd, SIOCOUTQ, &q); if (cli >= 0) ::ioctl(cli, FIONREAD, &u); if (!q && !u) return; if (p.pump(), p.eof) return; if (++spin > 30) std::this_thread::sleep_for(std::chrono::microseconds(20)); else std::this_thread::yield(); if (spin % 64 == 0 && now() > e) return; } }
    bool feed(std::string_view d, std::vector<std::size_t> const& c) { std::size_t at = 0; for (auto x : c) { if (!p.send(d.substr(at, x - at))) return false; drained(); at = x; } return p.send(d.substr(at)); } };
struct RawServer {
    int lfd = -1, pt = 0; std::string host; std::thread acc; std::mutex m; std::vector<std::thread> conns; std::atomic_int accepted{0}, live{0}; std::atomic_bool stopping{false}; std::function<void(Peer&, int)> fn;
    explicit RawServer(std::function<void(Peer&, int)> f, std::string h = "127.0.0.1", int wantPort = 0) : host(std::move(h)), fn(std::move(f)) {
        // a free port picked by the kernel can still be lost to another process between bind and listen: try again
        sockaddr_in a{}; for (int left = 60;; --left) { lfd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); int on = 1; ::setsockopt(lfd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); a = {}; a.sin_family = AF_INET; a.sin_port = htons((std::uint16_t)wantPort); ::inet_pton(AF_INET, host.c_str(), &a.sin_addr);
            if (!::bind(lfd, (sockaddr*)&a, sizeof a) && !::listen(lfd, 256)) break; if (!left) { std::fprintf(stderr, "cannot listen on %s: %s\n", host.c_str(), std::strerror(errno)); std::abort(); } ::close(lfd); std::this_thread::sleep_for(std::chrono::milliseconds(50)); }
        socklen_t l = sizeof a; ::getsockname(lfd, (sockaddr*)&a, &l); pt = ntohs(a.sin_port);
        acc = std::thread([this] { for (;;) { pollfd p{lfd, POLLIN, 0}; ::poll(&p, 1, 20); if (stopping) return; if (!(p.revents & POLLIN)) continue; int fd = ::accept4(lfd, nullptr, nullptr, SOCK_CLOEXEC); if (fd < 0) continue; int on = 1; ::setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on); int k = accepted++; ++live;
            std::lock_guard _{m}; conns.emplace_back([this, fd, k] { { Peer p(fd); fn(p, k); } --live; }); } }); }
    std::string url(std::string const& path = "/", std::string const& scheme = "http") const { return scheme + "://" + host + ":" + S(pt) + path; }
    std::string hostPort() const { return host + ":" + S(pt); }
    void stop() { stopping = true; if (acc.joinable()) acc.join(); if (lfd >= 0) ::close(lfd); lfd = -1; std::lock_guard _{m}; for (auto& t : conns) if (t.joinable()) t.join(); conns.clear(); }
    ~RawServer() { stop(); }
};
// outcome of one client call in plain form
struct Out { bool ok = false; int status = 0; std::map<std::string, std::string> headers; std::string body, what; };
template <class TryT> inline Out plain(TryT&& t) { Out o; if (t) { o.ok = true; auto d = t.move(); o.status = d.status; for (auto& [k, v] : d.headers) o.headers[low(k)] = v; o.body = std::move(d.body); } else o.what = t.what(); return o; }
inline std::string listNorm(std::string s) { std::string o; for (std::size_t i = 0; i < s.size(); ++i) { o += s[i]; if (s[i] == ',') while (i + 1 < s.size() && (s[i + 1] == ' ' || s[i + 1] == '\t')) ++i; } return o; }
inline std::string chunked(vf::Rng& r, std::string const& b, bool last = true) { std::string o; std::size_t at = 0; while (at < b.size()) { std::size_t n = std::min<std::size_t>(1 + r.below(r.chance(0.3) ? 20000 : 300), b.size() - at); char h[32]; std::snprintf(h, sizeof h, r.chance(0.5) ? "%zx" : "%zX", n); if (r.chance(0.1)) o += "00"; o += h; if (r.chance(0.15)) { static const char* ext[] = {";a=b", ";x", ";n=\"q r\"", ";k=v;w"}; o += ext[r.below(4)]; } o += "\r\n" + b.substr(at, n) + "\r\n"; at += n; }
    if (last) { o += r.chance(0.2) ? "000" : "0"; o += "\r\n"; if (r.chance(0.15)) o += "X-Trail: " + r.text(5) + "\r\n"; if (r.chance(0.1)) o += "T2:\r\n"; o += "\r\n"; } return o; }
// a well-formed response and what the client must report of it
struct Rsp { std::string bytes, interim; int status = 200; std::map<std::string, std::string> headers; std::string body; bool close = false, toClose = false; std::string kind; };
inline Rsp rsp(vf::Rng& r, bool head, bool mayClose = true, std::size_t maxBody = 200000) { Rsp p; static const int codes[] = {200, 200, 201, 202, 203, 206, 301, 302, 400, 401, 404, 418, 429, 500, 502, 503, 299, 499, 599, 204, 304, 205};
    p.status = codes[r.below(22)]; bool none = p.status == 204 || p.status == 304; std::string reason; switch (r.below(5)) { case 0: break; case 1: reason = "Not Found At All"; break; case 2: reason = r.text(1 + r.below(20)); break; case 3: reason = "a  b " + r.text(3); break; default: reason = "OK"; }
    for (int n = (int)r.below(4) ? 0 : (int)r.range(1, 3); n--;) { p.interim += "HTTP/1.1 " + std::string(r.chance(0.6) ? "100 Continue" : r.chance(0.5) ? "103 Early Hints" : "102 Processing") + "\r\n"; if (r.chance(0.5)) p.interim += "X-Interim: " + r.text(5) + "\r\nLink: </a.css>\r\n"; p.interim += "\r\n"; }
    std::string ver = mayClose && r.chance(0.1) ? "HTTP/1.0" : "HTTP/1.1"; std::vector<std::string> lines; auto ows = [&] { return std::string(r.below(10) == 0 ? (r.chance(0.5) ? 0 : 2) : 1, r.chance(0.9) ? ' ' : '\t'); };
    for (int n = (int)r.below(8); n--;) { auto k = hname(r), v = hval(r, r.chance(0.05) ? 3000 : 40); if (p.headers.count(low(k))) { p.headers[low(k)] += ", " + v; } else p.headers[low(k)] = v; lines.push_back(k + ":" + ows() + v + (r.chance(0.1) ? " " : "")); if (r.chance(0.1)) { auto v2 = hval(r, 12); if (v2.empty()) v2 = "z"; lines.push_back(recase(r, k) + ": " + v2); p.headers[low(k)] += ", " + v2; } }
    if (lines.size() < 3 && r.chance(0.08)) { std::size_t used = 0; for (auto& l : lines) used += l.size(); if (used < 1000) { auto v = r.text(4000 + r.below(9000)); p.headers["x-large"] = v; lines.push_back("X-Large: " + v); } }
    std::size_t n = 0; switch (r.below(7)) { case 0: break; case 1: n = 1 + r.below(10); break; case 2: case 3: n = r.below(2000); break; case 4: { static const std::size_t e[] = {4096, 8192, 16384, 32768, 65536}; n = e[r.below(5)] + r.below(300) - 150; break; } case 5: n = r.below(maxBody); break; default: n = r.below(60); } n = std::min(n, maxBody);
    p.body = r.chance(0.3) ? r.bytes(n) : r.chance(0.3) ? std::string(n, '\n') : r.text(n); if (r.chance(0.1)) p.body = "HTTP/1.1 404 Fake\r\nContent-Length: 3\r\n\r\nabc" + p.body;
    int fr = (int)r.below(mayClose ? 5 : 4); if (ver == "HTTP/1.0" && fr == 2) fr = 0; std::string frame; if (fr == 4 && !none && !head) p.toClose = true;
    if (none) { p.body.clear(); if (p.status == 304 && r.chance(0.3)) { auto c = S((long)n); lines.push_back("Content-Length: " + c); p.headers["content-length"] = c; } p.kind = "none"; }
    else if (p.toClose) { p.close = true; frame = p.body; p.kind = "to-close"; }
    else if (fr == 2 || fr == 3) { if (ver == "HTTP/1.0") ver = "HTTP/1.1"; frame = chunked(r, p.body); auto v = recase(r, "chunked"); lines.push_back(recase(r, "Transfer-Encoding") + ": " + v); p.headers["transfer-encoding"] = v; p.kind = "chunked"; }
    else { std::string c = S((long)p.body.size()); if (r.chance(0.05)) c = "000" + c; lines.push_back(recase(r, "Content-Length") + ":" + ows() + c); p.headers["content-length"] = c; frame = p.body; p.kind = "length"; }
    if (head && !none) { p.body.clear(); frame.clear(); p.kind = "head"; }
    if (ver == "HTTP/1.0") { p.close = true; if (!p.toClose && r.chance(0.4)) { lines.push_back("Connection: keep-alive"); p.headers["connection"] = "keep-alive"; p.close = false; } }
    else if (mayClose && r.chance(0.15)) { static const char* v[] = {"close", "Close", "x, close", "close,y"}; std::string c = v[r.below(4)]; lines.push_back(recase(r, "Connection") + ": " + c); p.headers["connection"] = c; p.close = true; }
    else if (r.chance(0.2)) { lines.push_back("Connection: keep-alive"); p.headers["connection"] = "keep-alive"; }
    r.shuffle(lines); p.bytes = ver + " " + S(p.status) + " " + reason + "\r\n"; 
    // repeated fields are joined in the order they are sent
    std::map<std::string, std::string> h; for (auto& l : lines) { p.bytes += l + "\r\n"; auto c = l.find(':'); auto k = low(l.substr(0, c)), v = l.substr(c + 1); while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1); while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back(); if (h.count(k)) h[k] += ", " + v; else h[k] = v; }
    p.headers = h; p.bytes += "\r\n" + frame; return p; }
inline bool sameHeaders(std::map<std::string, std::string> a, std::map<std::string, std::string> b, std::string& why) { for (auto* m : {&a, &b}) for (auto& [k, v] : *m) v = listNorm(v); if (a == b) return true; for (auto& [k, v] : b) if (!a.count(k)) { why = "header " + k + " is missing"; return false; } else if (a[k] != v) { why = "header " + k + ": got '" + vf::esc(a[k], 120) + "' expected '" + vf::esc(v, 120) + "'"; return false; } for (auto& [k, v] : a) if (!b.count(k)) { why = "header " + k + " was never sent"; return false; } return false; }
} // namespace ct
