#pragma once
// HTTP test side: strict independent client parser, byte feeder with exact segmentation, connection runner on a socket pair.
#include "vf.hpp"
#include <algorithm>
#include <optional>
#include <arpa/inet.h>
#include <linux/sockios.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <HXLibs/net/ApiMacro.hpp>
#include <HXLibs/net/Api.hpp>

namespace ht {
using Hdrs = std::vector<std::pair<std::string, std::string>>;
inline std::string S(long long v) { return std::to_string(v); }
inline std::string low(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
inline std::string diff(std::string_view a, std::string_view b) { std::size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    return "got " + S((long)a.size()) + " bytes, expected " + S((long)b.size()) + ", first difference at " + S((long)i) + ": got '" + vf::esc(a.substr(i, 40)) + "' expected '" + vf::esc(b.substr(i, 40)) + "'"; }

struct Resp {
    int status = 0; std::string reason; Hdrs headers; std::string body; bool chunked = false; bool framed = true;
    std::string const* get(std::string_view k) const { for (auto& [a, b] : headers) if (low(a) == k) return &b; return nullptr; }
    int count(std::string_view k) const { int n = 0; for (auto& [a, b] : headers) if (low(a) == k) ++n; return n; }
};
inline bool isTok(std::string_view s) { if (s.empty()) return false; for (unsigned char c : s) if (c <= 32 || c >= 127 || std::strchr("()<>@,;:\\\"/[]?={}", c)) return false; return true; }

// One end of a connection, driven by the test.
struct Peer {
    int fd = -1; std::string in; bool eof = false;
    Peer() = default; explicit Peer(int f) : fd(f) {} Peer(Peer const&) = delete; Peer(Peer&& o) noexcept : fd(o.fd), in(std::move(o.in)), eof(o.eof) { o.fd = -1; }
    ~Peer() { close(); }
    void close() { if (fd >= 0) ::close(fd); fd = -1; }
    void closeRst() { if (fd < 0) return; linger l{1, 0}; ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(); }
    bool pump() { char b[65536]; bool any = false; while (!eof) { auto n = ::recv(fd, b, sizeof b, MSG_DONTWAIT); if (n > 0) { in.append(b, (std::size_t)n); any = true; } else if (n == 0) eof = true; else { if (errno != EAGAIN && errno != EINTR) eof = true; break; } } return any; }
    bool wait(double sec) { if (pump()) return true; if (eof) return false; pollfd p{fd, POLLIN, 0}; ::poll(&p, 1, std::max(1, (int)(sec * 1000))); return pump(); }
    // writes everything (reading meanwhile so that nobody blocks); false when the other side is gone
    bool send(std::string_view s, double sec = 20) { double e = now() + sec;
        while (!s.empty()) { auto n = ::send(fd, s.data(), s.size(), MSG_DONTWAIT | MSG_NOSIGNAL); if (n > 0) { s.remove_prefix((std::size_t)n); continue; } if (n < 0 && errno != EAGAIN && errno != EINTR) return false;
            pollfd p{fd, POLLIN | POLLOUT, 0}; ::poll(&p, 1, 50); pump(); if (now() > e) return false; if (eof) return false; }
        return true; }
    // waits until the other side has taken every byte written (socket pairs only)
    bool drained(double sec = 10) { double e = 0; int spin = 0; for (;;) { int q = 0; if (::ioctl(fd, SIOCOUTQ, &q) < 0 || q == 0) return true; pump(); if (eof) return true; if (++spin > 50) std::this_thread::sleep_for(std::chrono::microseconds(20)); else std::this_thread::yield(); if (spin % 64 == 0) { if (e == 0) e = now() + sec; else if (now() > e) return false; } } }
    // strictly parses one response; nullopt + err when none arrives, or it is malformed
    std::optional<Resp> response(bool head, std::string& err, double sec = 15) {
        double e = now() + sec; std::size_t pos; Resp r;
        while ((pos = in.find("\r\n\r\n")) == in.npos) { if (eof) { err = in.empty() ? "closed" : "closed inside a response head: " + vf::esc(in, 200); return {}; } if (now() > e) { err = in.empty() ? "timeout" : "timeout inside a response head: " + vf::esc(in, 200); return {}; } wait(0.05); }
        std::string h = in.substr(0, pos + 2); in.erase(0, pos + 4);
        std::size_t l = h.find("\r\n"); std::string sl = h.substr(0, l);
        if (sl.size() < 13 || sl.compare(0, 9, "HTTP/1.1 ") != 0 || !isdigit(sl[9]) || !isdigit(sl[10]) || !isdigit(sl[11]) || sl[12] != ' ') { err = "bad status line: " + vf::esc(sl, 200); return {}; }
        r.status = std::stoi(sl.substr(9, 3)); r.reason = sl.substr(13);
        for (std::size_t i = l + 2; i < h.size();) { std::size_t j = h.find("\r\n", i); std::string line = h.substr(i, j - i); i = j + 2; auto c = line.find(": "); if (c == line.npos || !isTok(std::string_view(line).substr(0, c)) || line.find_first_of(std::string_view("\r\n\0", 3)) != line.npos) { err = "bad header line: " + vf::esc(line, 200); return {}; } r.headers.emplace_back(line.substr(0, c), line.substr(c + 2)); }
        int cl = r.count("content-length"), te = r.count("transfer-encoding");
        if (cl > 1 || te > 1 || (cl && te)) { err = "contradictory framing headers"; return {}; }
        bool none = head || r.status / 100 == 1 || r.status == 204 || r.status == 304;
        if (none) { if (cl && !head && *r.get("content-length") != "0") { } return r; }
        if (cl) { auto& v = *r.get("content-length"); if (v.empty() || v.size() > 18 || v.find_first_not_of("0123456789") != v.npos) { err = "bad content-length " + vf::esc(v); return {}; }
            std::size_t n = std::stoull(v); while (in.size() < n) { if (eof) { err = "closed after " + S((long)in.size()) + " of " + v + " body bytes"; return {}; } if (now() > e) { err = "timeout after " + S((long)in.size()) + " of " + v + " body bytes"; return {}; } wait(0.05); }
            r.body = in.substr(0, n); in.erase(0, n); return r; }
        if (te) { if (*r.get("transfer-encoding") != "chunked") { err = "transfer-encoding " + *r.get("transfer-encoding"); return {}; } r.chunked = true; std::size_t at = 0;
            auto need = [&](std::size_t n) { while (in.size() < n) { if (eof) { err = "closed inside a chunked body"; return false; } if (now() > e) { err = "timeout inside a chunked body"; return false; } wait(0.05); } return true; };
            for (;;) { std::size_t p; while ((p = in.find("\r\n", at)) == in.npos) if (!need(in.size() + 1)) return {};
                std::string sz = in.substr(at, p - at); if (sz.empty() || sz.size() > 15 || sz.find_first_not_of("0123456789abcdefABCDEF") != sz.npos) { err = "bad chunk size '" + vf::esc(sz, 60) + "'"; return {}; }
                std::size_t n = std::stoull(sz, nullptr, 16); at = p + 2; if (!need(at + n + 2)) return {}; if (in.compare(at + n, 2, "\r\n") != 0) { err = "chunk of " + sz + " not followed by CRLF"; return {}; } r.body.append(in, at, n); at += n + 2; if (!n) break; }
            in.erase(0, at); return r; }
        r.framed = false; return r;
    }
};

// how to cut a byte string into pieces
inline std::vector<std::size_t> cuts(vf::Rng& r, std::string_view d) {
    std::vector<std::size_t> c; std::size_t n = d.size(); if (n < 2) return c;
    switch (r.below(6)) {
    case 0: break;
    case 1: for (int k = (int)r.range(1, 3); k--;) c.push_back(1 + r.below(n - 1)); break;
    case 2: if (n <= 3000) { for (std::size_t i = 1; i < n; ++i) c.push_back(i); } else { for (std::size_t i = 1; i < n && i < 700; ++i) c.push_back(i); for (int k = 0; k < 40; ++k) c.push_back(1 + r.below(n - 1)); } break;
    case 3: { std::size_t i = 0; int k = 0; while ((i = d.find_first_of("\r\n", i)) != d.npos && k++ < 400) { if (i && r.chance(0.7)) c.push_back(i); if (r.chance(0.5) && i + 1 < n) c.push_back(i + 1); ++i; } break; }
    case 4: for (std::size_t at = 0;;) { at += 1 + r.below(r.chance(0.3) ? 2000 : 60); if (at >= n || c.size() > 600) break; c.push_back(at); } break;
    default: for (int k = (int)r.range(1, 12); k--;) c.push_back(1 + r.below(n - 1)); break; }
    std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); return c;
}
inline bool feed(Peer& p, std::string_view d, std::vector<std::size_t> const& c) { std::size_t at = 0; for (auto x : c) { if (!p.send(d.substr(at, x - at)) || !p.drained()) return false; at = x; } return p.send(d.substr(at)); }

inline std::pair<int, int> pairFds(int bufBytes = 0) { int f[2]; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, f)) std::abort(); if (bufBytes) { ::setsockopt(f[0], SOL_SOCKET, SO_RCVBUF, &bufBytes, sizeof bufBytes); ::setsockopt(f[1], SOL_SOCKET, SO_SNDBUF, &bufBytes, sizeof bufBytes); } return {f[0], f[1]}; }

// The library's connection loop on one end of a socket pair, the test's peer on the other.
using namespace HX::utils::time_nttp_literals;
template <class Timeout = decltype(5_s)>
struct Served {
    Peer peer; std::atomic_bool isRun{true}; std::thread th; std::atomic_bool ended{false};
    explicit Served(HX::net::Router<HX::net::HttpIO> const& router, int buf = 0) { auto [a, b] = pairFds(buf); peer.fd = a;
        th = std::thread([this, &router, b = b] { { HX::coroutine::EventLoop loop; HX::net::ConnectionHandler<HX::net::HttpIO>::template start<Timeout>(b, isRun, router, loop).detach(); loop.run(); } ended = true; }); }
    // true when the connection was let go of within the bound
    bool finish(double sec = 15) { peer.close(); return join(sec); }
    bool join(double sec = 15) { bool ok = vf::waitUntil([&] { return ended.load(); }, sec); if (!ok) { vf::fail("wedged", "the connection is still being served " + S((long)sec) + " s after the client left"); vf::emitStats(); std::fflush(nullptr); _exit(79); } if (th.joinable()) th.join(); return ok; }
    ~Served() { peer.close(); if (th.joinable()) join(); }
};

inline int port() { const char* p = std::getenv("VF_PORT"); return p ? std::atoi(p) : 21000; }
inline int tcp(int port, int rcvbuf = 0) { int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); if (rcvbuf) ::setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons((std::uint16_t)port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (::connect(fd, (sockaddr*)&a, sizeof a)) { ::close(fd); return -1; } int on = 1; ::setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on); return fd; }
inline int tcpRetry(int port, double sec = 10) { double e = now() + sec; int fd; while ((fd = tcp(port)) < 0 && now() < e) std::this_thread::sleep_for(std::chrono::milliseconds(2)); return fd; }
// random header value: printable, inner spaces, obs-text; no outer spaces
inline std::string hval(vf::Rng& r, std::size_t max = 40) { std::size_t n = r.below(max + 1); std::string v; for (std::size_t i = 0; i < n; ++i) { auto k = r.below(20); v += k == 0 ? ' ' : k == 1 ? (char)(0x80 + r.below(128)) : k == 2 ? ':' : k == 3 ? '\t' : (char)r.range(33, 126); } while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back(); while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1); return v; }
inline std::string hname(vf::Rng& r) { static const char* pre[] = {"X-", "x-", "Q", "My_", "A.b-", "~", "Zz!"}; return pre[r.below(7)] + r.text(1 + r.below(12), "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"); }
inline std::string recase(vf::Rng& r, std::string s) { for (auto& c : s) if (r.chance(0.4)) { if (c >= 'a' && c <= 'z') c = (char)(c - 32); else if (c >= 'A' && c <= 'Z') c = (char)(c + 32); } return s; }
} // namespace ht
