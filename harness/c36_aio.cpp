// C36: every asynchronous operation does what the system call of its name does, completes once, and gives its result to whoever awaits it.
#include "vf.hpp"
#include "tracked.hpp"
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <HXLibs/coroutine/awaiter/WhenAny.hpp>
#include <HXLibs/coroutine/awaiter/WhenAll.hpp>
#include <HXLibs/net/socket/IO.hpp>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/ioctl.h>
#include <unistd.h>
#include <deque>
using namespace HX; using coroutine::Task; using namespace std::chrono_literals; using vf::Tracked; using namespace HX::utils::time_nttp_literals;
static std::string S(long v) { return std::to_string(v); }
static int sysRes(long r) { return r < 0 ? -errno : (int)r; }
using Loop = coroutine::EventLoop; static bool over(Task<> const& t) { return static_cast<std::coroutine_handle<>>(t).done(); }
// one actor: a random series of operations on its own files and sockets; each result is compared with what the plain system call gives
struct Actor { Loop& l; vf::Rng r; int id; std::string dir; long ops = 0; std::string h;
    void eq(int got, int want, char const* what, std::string const& d = "") { ++ops; vf::eval(); vf::check(got == want, what, [&] { return std::string(what) + " gave " + S(got) + " where the system call gives " + S(want) + " " + d; }); h += what[0]; h += S(got < 0 ? got : 0); }
    Task<> open() { static const char* names[] = {"there", "missing", "sub", "sub/there", "there/x", "", "new", "link", "loop"}; std::string n = r.pick({names[0], names[1], names[2], names[3], names[4], names[5], names[6], names[7], names[8]}); int fl = r.pick({O_RDONLY, O_WRONLY, O_RDWR}) | (r.chance(0.4) ? O_CREAT : 0) | (r.chance(0.2) ? O_EXCL : 0) | (r.chance(0.2) ? O_TRUNC : 0) | (r.chance(0.3) ? O_APPEND : 0) | (r.chance(0.3) ? O_CLOEXEC : 0) | (r.chance(0.15) ? O_DIRECTORY : 0) | (r.chance(0.2) ? O_NOFOLLOW : 0) | (r.chance(0.2) ? O_NONBLOCK : 0); if ((fl & O_CREAT) && (fl & O_DIRECTORY)) fl &= ~O_DIRECTORY; int mode = (int)r.pick({0644, 0600, 0400, 0755}); bool rel = r.chance(0.5); int dfd = rel ? ::open(dir.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC) : AT_FDCWD; std::string p = rel ? n : n.empty() ? "" : dir + "/" + n; if (r.chance(0.05)) { p = "x"; if (rel) ::close(dfd); rel = false; dfd = 9999; }
        auto reset = [&] { ::unlink((dir + "/new").c_str()); ::unlink((dir + "/missing").c_str()); for (auto f : {"/there", "/sub/there"}) { int g = ::open((dir + f).c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); if (g >= 0) { if (::write(g, "content", 7)) {} ::close(g); } } };
        struct St { int res, gfl = 0, cl = 0; ino_t ino = 0; off_t size = 0; mode_t m = 0; bool there = false; }; auto look = [&](int fd) { St s{fd}; if (fd >= 0) { s.res = 0; s.gfl = ::fcntl(fd, F_GETFL); s.cl = ::fcntl(fd, F_GETFD); struct stat t{}; ::fstat(fd, &t); s.size = t.st_size; s.m = t.st_mode; s.ino = t.st_ino; ::close(fd); } s.there = ::access((dir + "/new").c_str(), F_OK) == 0; return s; };
        reset(); St b = look(sysRes(::openat(dfd, p.c_str(), fl, mode))); reset(); std::string q = p; int fd = co_await l.makeAioTask().prepOpenat(dfd, q.c_str(), fl, (platform::ModeType)mode); St a = look(fd); std::string d = "for '" + n + "' flags " + S(fl) + " mode " + S(mode); eq(a.res, b.res, "open", d); if (a.res == 0 && b.res == 0) { vf::check(a.gfl == b.gfl && a.cl == b.cl, "open", d + ": status flags " + S(a.gfl) + "/" + S(a.cl) + " instead of " + S(b.gfl) + "/" + S(b.cl)); vf::check(a.size == b.size && a.m == b.m, "open", d + ": size " + S(a.size) + " mode " + S((long)a.m) + " instead of " + S(b.size) + " " + S((long)b.m)); if (!(fl & O_CREAT)) vf::check(a.ino == b.ino, "open", d + ": another file"); } vf::check(a.there == b.there, "open", d + ": the file was " + (a.there ? "" : "not ") + "created"); if (rel) ::close(dfd); }
    Task<> file() { std::string p = dir + "/data"; int fd = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); std::string model; std::uint64_t pos = 0; int n = (int)r.range(2, 14); std::uint64_t base = r.chance(0.2) ? (1ull << 32) - 3 : 0;
        auto touch = [&](std::uint64_t off, std::string const& b) { if (b.empty()) return; off -= base; if (model.size() < off) model.resize(off); if (model.size() < off + b.size()) model.resize(off + b.size()); model.replace(off, b.size(), b); };
        if (base) { ::lseek(fd, (off_t)base, SEEK_SET); pos = base; }
        for (int i = 0; i < n; ++i) { bool cur = r.chance(0.3); std::uint64_t off = cur ? (std::uint64_t)-1 : base + r.below(5000), at = cur ? pos : off; std::size_t len = r.chance(0.1) ? 0 : r.chance(0.1) ? 70000 : r.below(900);
            if (r.chance(0.5)) { auto b = r.bytes(len); int res = co_await l.makeAioTask().prepWrite(fd, std::span<char const>{b.data(), b.size()}, off); eq(res, (int)len, "write", "of " + S((long)len) + " bytes at " + S((long)off)); touch(at, b); if (cur) pos += len; }
            else { std::string buf(len + 8, '\x5a'); bool sized = r.chance(0.5); int res; if (sized) res = co_await l.makeAioTask().prepRead(fd, std::span<char>{buf.data(), buf.size()}, (unsigned)len, off); else res = co_await l.makeAioTask().prepRead(fd, std::span<char>{buf.data(), len}, off);
                std::size_t rel = at - base, want = rel >= model.size() ? 0 : std::min(len, model.size() - rel); eq(res, (int)want, "read", "of " + S((long)len) + " bytes at " + S((long)off)); vf::check(buf.compare(0, want, model, std::min(rel, model.size()), want) == 0 && buf.find_first_not_of('\x5a', std::max(want, (std::size_t)0)) == std::string::npos, "read-bytes", "a read at " + S((long)off) + " gave other bytes than the file holds"); if (cur) pos += want; } }
        std::string all(model.size() + 1, 0); auto k = ::pread(fd, all.data(), all.size(), (off_t)base); vf::check(k == (long)model.size() && all.compare(0, model.size(), model) == 0, "file-bytes", "the file holds " + S(k) + " bytes, expected " + S((long)model.size())); int rd = ::open(p.c_str(), O_RDONLY | O_CLOEXEC); eq(co_await l.makeAioTask().prepWrite(rd, std::span<char const>{"x", 1}, 0), sysRes(::write(rd, "x", 1)), "write", "to a read-only descriptor"); eq(co_await l.makeAioTask().prepClose(rd), 0, "close"); eq(co_await l.makeAioTask().prepClose(99999), -EBADF, "close"); int c = co_await l.makeAioTask().prepClose(fd); eq(c, 0, "close"); ::unlink(p.c_str()); }
    Task<> sockets() { int fd[2]; bool dg = r.chance(0.2); if (::socketpair(AF_UNIX, (dg ? SOCK_SEQPACKET : SOCK_STREAM) | SOCK_CLOEXEC, 0, fd)) co_return; std::string q; std::deque<std::string> pk; int n = (int)r.range(2, 16);
        for (int i = 0; i < n; ++i) switch (r.below(6)) {
            case 0: case 1: { auto b = r.bytes(1 + r.below(700)); int res; if (dg || r.chance(0.7)) res = co_await l.makeAioTask().prepSend(fd[0], std::span<char const>{b.data(), b.size()}, MSG_NOSIGNAL); else res = co_await l.makeAioTask().prepWrite(fd[0], std::span<char const>{b.data(), b.size()}, 0); eq(res, (int)b.size(), "send"); if (dg) pk.push_back(b); else q += b; break; }
            case 2: { int fl = MSG_DONTWAIT | (r.chance(0.5) ? MSG_PEEK : 0) | (dg && r.chance(0.5) ? MSG_TRUNC : 0); std::string b(1 + r.below(900), 'Z'); std::string want = dg ? (pk.empty() ? "" : pk.front()) : q; int w = want.empty() ? -EAGAIN : (int)std::min(want.size(), b.size()), rep = dg && (fl & MSG_TRUNC) && w > 0 ? (int)want.size() : w; int res = co_await l.makeAioTask().prepRecv(fd[1], std::span<char>{b.data(), b.size()}, fl); eq(res, rep, "recv", "flags " + S(fl)); if (w > 0) { vf::check(b.compare(0, (std::size_t)w, want, 0, (std::size_t)w) == 0, "recv-bytes", "other bytes than were sent"); if (!(fl & MSG_PEEK)) { if (dg) pk.pop_front(); else q.erase(0, (std::size_t)w); } } break; }
            case 3: { auto want = dg ? (pk.empty() ? "" : pk.front()) : q; if (want.empty()) break; std::string b(1 + r.below(900), 'Z'); int w = (int)std::min(want.size(), b.size()); int res = co_await l.makeAioTask().prepRecv(fd[1], std::span<char>{b.data(), b.size()}, 0); eq(res, w, "recv"); vf::check(b.compare(0, (std::size_t)w, want, 0, (std::size_t)w) == 0, "recv-bytes", "other bytes than were sent"); if (dg) pk.pop_front(); else q.erase(0, (std::size_t)w); break; }
            case 4: { if (dg) break; // one that waits for all of it, while another coroutine sends the rest later
                std::string more = r.bytes(1 + r.below(r.chance(0.15) ? 200000 : 600)), b(q.size() + more.size(), 0); auto later = [](Loop& l, int fd, std::string m, int us) -> Task<> { co_await l.makeTimer().sleepFor(std::chrono::microseconds(us)); std::size_t h = m.size() / 2; if (h) (void)co_await l.makeAioTask().prepSend(fd, std::span<char const>{m.data(), h}, MSG_NOSIGNAL); (void)co_await l.makeAioTask().prepSend(fd, std::span<char const>{m.data() + h, m.size() - h}, MSG_NOSIGNAL); }(l, fd[0], more, (int)r.below(900)); l.start(later); int res = co_await l.makeAioTask().prepRecv(fd[1], std::span<char>{b.data(), b.size()}, MSG_WAITALL); eq(res, (int)b.size(), "recv", "of everything"); vf::check(b == q + more, "recv-bytes", "other bytes than were sent"); q.clear(); for (int k = 0; k < 2000 && !over(later); ++k) co_await l.makeTimer().yield(); break; }
            default: { short m = r.pick({(short)POLLIN, (short)POLLOUT, (short)(POLLIN | POLLOUT), (short)(POLLIN | POLLPRI), (short)POLLPRI}); bool any = dg ? !pk.empty() : !q.empty(); short want = (short)((any ? POLLIN : 0) | POLLOUT) & m; if (!want) { auto a = co_await coroutine::whenAny(l.makeAioTask().prepPollAdd(fd[1], (unsigned)m), l.makeTimer().sleepFor(std::chrono::microseconds(r.below(1500)))); vf::check(a.index() == 1, "poll", "a descriptor that has nothing to read polled readable"); ++ops; break; } eq(co_await l.makeAioTask().prepPollAdd(fd[1], (unsigned)m), want, "poll"); } }
        eq(co_await l.makeAioTask().prepClose(fd[0]), 0, "close"); std::string b(65536, 0); int last = 0; for (;;) { auto want = dg ? (pk.empty() ? std::string() : pk.front()) : q; last = co_await l.makeAioTask().prepRecv(fd[1], std::span<char>{b.data(), b.size()}, 0); eq(last, (int)want.size(), "recv", "after the other end was closed"); if (last <= 0 || last != (int)want.size()) break; vf::check(b.compare(0, want.size(), want) == 0, "recv-bytes", "other bytes than were sent"); if (dg) pk.pop_front(); else q.clear(); }
        { short m = r.pick({(short)POLLIN, (short)POLLRDHUP, (short)(POLLIN | POLLRDHUP), (short)POLLPRI, (short)POLLOUT}); pollfd pf{fd[1], m, 0}; ::poll(&pf, 1, 0); int pr = co_await l.makeAioTask().prepPollAdd(fd[1], (unsigned)m); eq(pr < 0 ? pr : pr & (m | POLLHUP | POLLERR), pf.revents, "poll", "mask " + S(m) + " after the other end was closed"); }
        { int res = co_await l.makeAioTask().prepSend(fd[1], std::span<char const>{"x", 1}, MSG_NOSIGNAL); eq(res, -EPIPE, "send", "to nobody"); } ::close(fd[1]); }
    Task<> connect() { bool in = r.chance(0.6); sockaddr_storage sa{}; socklen_t sl; int lf; if (in) { auto& a = (sockaddr_in&)sa; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); sl = sizeof a; } else { auto& a = (sockaddr_un&)sa; a.sun_family = AF_UNIX; std::snprintf(a.sun_path, sizeof a.sun_path, "%s/s", dir.c_str()); ::unlink(a.sun_path); sl = sizeof a; if (std::strlen(a.sun_path) > 100) co_return; }
        int ty = SOCK_STREAM | (r.chance(0.5) ? SOCK_CLOEXEC : 0) | (r.chance(0.3) ? SOCK_NONBLOCK : 0); lf = co_await l.makeAioTask().prepSocket(sa.ss_family, ty & ~SOCK_NONBLOCK, 0, 0); ++ops; if (!vf::check(lf >= 0, "socket", "gave " + S(lf))) co_return; if (::bind(lf, (sockaddr*)&sa, sl) || ::listen(lf, 16)) { ::close(lf); co_return; } if (in) ::getsockname(lf, (sockaddr*)&sa, &sl);
        int c = co_await l.makeAioTask().prepSocket(sa.ss_family, ty, in ? IPPROTO_TCP : 0, 0); ++ops; if (!vf::check(c >= 0, "socket", "gave " + S(c))) { ::close(lf); co_return; } int dom = 0, t = 0; socklen_t ol = sizeof dom; ::getsockopt(c, SOL_SOCKET, SO_DOMAIN, &dom, &ol); ol = sizeof t; ::getsockopt(c, SOL_SOCKET, SO_TYPE, &t, &ol); vf::check(dom == sa.ss_family && t == SOCK_STREAM && !!(::fcntl(c, F_GETFD) & FD_CLOEXEC) == !!(ty & SOCK_CLOEXEC) && !!(::fcntl(c, F_GETFL) & O_NONBLOCK) == !!(ty & SOCK_NONBLOCK), "socket", "is not of the type asked for");
        if (ty & SOCK_NONBLOCK) ::fcntl(c, F_SETFL, ::fcntl(c, F_GETFL) & ~O_NONBLOCK); sockaddr_storage pa{}; socklen_t pl = sizeof pa; bool wantA = r.chance(0.6); int af = r.pick({0, (int)SOCK_CLOEXEC, (int)SOCK_NONBLOCK, (int)(SOCK_CLOEXEC | SOCK_NONBLOCK)}); int got = -1, fin = 0; bool first = r.chance(0.5); int us = (int)r.below(800);
        auto acc = [](Loop& l, int lf, sockaddr_storage* a, socklen_t* n, int fl, int& got, int& fin, int us) -> Task<> { if (us) co_await l.makeTimer().sleepFor(std::chrono::microseconds(us)); got = co_await l.makeAioTask().prepAccept(lf, (sockaddr*)a, n, fl); ++fin; }(l, lf, wantA ? &pa : nullptr, wantA ? &pl : nullptr, af, got, fin, first ? 0 : us); l.start(acc); if (first && us) co_await l.makeTimer().sleepFor(std::chrono::microseconds(us)); eq(co_await l.makeAioTask().prepConnect(c, (sockaddr*)&sa, sl), 0, "connect"); for (auto e = std::chrono::steady_clock::now() + 5s; !fin && std::chrono::steady_clock::now() < e;) co_await l.makeTimer().sleepFor(200us);
        if (vf::check(fin == 1 && got >= 0, "accept", "gave " + S(got))) { ++ops; vf::check(!!(::fcntl(got, F_GETFD) & FD_CLOEXEC) == !!(af & SOCK_CLOEXEC) && !!(::fcntl(got, F_GETFL) & O_NONBLOCK) == !!(af & SOCK_NONBLOCK), "accept", "flags of the accepted socket are not those asked for"); if (wantA && in) { sockaddr_in me{}; socklen_t n = sizeof me; ::getsockname(c, (sockaddr*)&me, &n); auto& p = (sockaddr_in&)pa; vf::check(pl == sizeof me && p.sin_port == me.sin_port && p.sin_addr.s_addr == me.sin_addr.s_addr, "accept", "reports another peer address"); }
            eq(co_await l.makeAioTask().prepSend(c, std::span<char const>{"ping", 4}, MSG_NOSIGNAL), 4, "send"); char b[9]{}; ::fcntl(got, F_SETFL, 0); eq(co_await l.makeAioTask().prepRecv(got, b, 0), 4, "recv"); vf::check(!std::memcmp(b, "ping", 4), "recv-bytes", "over the accepted connection"); eq(co_await l.makeAioTask().prepClose(got), 0, "close"); eq(co_await l.makeAioTask().prepRecv(c, b, 0), 0, "recv", "at the end"); }
        eq(co_await l.makeAioTask().prepConnect(c, (sockaddr*)&sa, sl), -EISCONN, "connect", "once more"); eq(co_await l.makeAioTask().prepClose(lf), 0, "close"); eq(co_await l.makeAioTask().prepClose(c), 0, "close"); int d = ::socket(sa.ss_family, SOCK_STREAM | SOCK_CLOEXEC, 0); eq(co_await l.makeAioTask().prepConnect(d, (sockaddr*)&sa, sl), -ECONNREFUSED, "connect", "to nobody"); ::close(d); eq(co_await l.makeAioTask().prepAccept(99999, nullptr, nullptr, 0), -EBADF, "accept", "on a closed descriptor"); if (!in) ::unlink((dir + "/s").c_str()); }
    Task<> timed() { int fd[2]; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fd)) co_return; // times out first, then the same bytes must still all arrive
        for (int i = 0; i < 3; ++i) { char b[16]; __kernel_timespec ts{0, (long)r.below(3000000)}; auto t0 = std::chrono::steady_clock::now(); int kind = (int)r.below(3); if (kind == 0) { auto a = co_await coroutine::AioTask::linkTimeout(l.makeAioTask().prepRecv(fd[1], b, 0), l.makeAioTask().prepLinkTimeout(&ts, 0)); vf::check(a.index() == 1 && a.get<1>() == -ETIME, "timeout", "a receive without data ended with alternative " + S((long)a.index())); } else if (kind == 1) { auto a = co_await coroutine::AioTask::linkTimeout(l.makeAioTask().prepPollAdd(fd[1], POLLIN), l.makeAioTask().prepLinkTimeout(&ts, 0)); vf::check(a.index() == 1 && a.get<1>() == -ETIME, "timeout", "a poll without data ended with alternative " + S((long)a.index())); } else { auto a = co_await coroutine::AioTask::linkTimeout(l.makeAioTask().prepRead(fd[1], b, 0), l.makeAioTask().prepLinkTimeout(&ts, 0)); vf::check(a.index() == 1 && a.get<1>() == -ETIME, "timeout", "a read without data ended with alternative " + S((long)a.index())); }
            vf::check(std::chrono::steady_clock::now() - t0 >= std::chrono::nanoseconds(ts.tv_nsec), "timeout-early", "a timeout of " + S((long)ts.tv_nsec) + " ns fired early"); ++ops;
            auto d = r.bytes(1 + r.below(16)); if (::write(fd[0], d.data(), d.size()) != (long)d.size()) co_return; __kernel_timespec lg{5, 0}; auto a = co_await coroutine::AioTask::linkTimeout(l.makeAioTask().prepRecv(fd[1], b, 0), l.makeAioTask().prepLinkTimeout(&lg, 0)); vf::check(a.index() == 0, "timeout", "a receive with data timed out"); if (a.index() == 0) { eq(a.get<0>(), (int)d.size(), "recv", "after a timeout"); vf::check(!std::memcmp(b, d.data(), d.size()), "recv-bytes", "after a timeout"); } }
        ::close(fd[0]); ::close(fd[1]); }
    // the connection object on top of these operations: sends all of a buffer, receives exactly what is asked for, or fails
    Task<> wrapper() { int fd[2]; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fd)) co_return; if (r.chance(0.5)) for (int f : fd) { int sz = 2048; ::setsockopt(f, SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); } std::string all = r.bytes(r.chance(0.3) ? r.below(300000) : 1 + r.below(5000)); bool cut = r.chance(0.3); std::uint64_t s1 = r.next(); net::HttpIO a{fd[0], l}, b{fd[1], l};
        auto put = [](net::HttpIO& io, std::string const& all, vf::Rng q, bool cut, Loop& l) -> Task<> { std::size_t at = 0; while (at < all.size()) { std::size_t k = std::min(all.size() - at, q.chance(0.2) ? 100000 : 1 + q.below(3000)); std::span<char const> d{all.data() + at, k}; switch (q.below(3)) { case 0: co_await io.fullySend(d); break; case 1: co_await io.fullySend({all.data() + at, all.size() - at}, k); break; default: co_await io.template sendLinkTimeout<decltype(20_s)>(d); } at += k; if (q.chance(0.2)) co_await l.makeTimer().sleepFor(std::chrono::microseconds(q.below(300))); } if (cut) co_await io.close(); };
        struct Hd { std::uint32_t x; std::uint16_t y; char z[2]; };
        auto get = [](net::HttpIO& io, std::string const& all, vf::Rng q, bool cut, Actor& self) -> Task<> { std::size_t at = 0; for (;;) { if (at == all.size() && !cut) break; std::size_t left = all.size() - at, k = q.chance(0.2) ? left : std::min<std::size_t>(left, q.below(4000)); bool more = cut && q.chance(0.1); if (more || !left) k = left + 1 + q.below(50); std::string buf(k + 4, '\x5a'); std::span<char> d{buf.data(), k}; int got = -1; bool threw = false; int how = k == 0 ? 0 : (int)q.below(4); if (how == 3 && (q.chance(0.5) || k > left)) how = 0;
                try { switch (how) { case 0: co_await io.fullyRecv(d); got = (int)k; break; case 1: got = q.chance(0.5) ? co_await io.recv(d) : co_await io.recv({buf.data(), buf.size()}, k); break; case 2: { auto x = co_await io.template recvLinkTimeout<decltype(20_s)>(d); vf::check(x.index() == 0, "wrapper-timeout", "20 s passed?"); got = x.template get<0, exception::ExceptionMode::Nothrow>(); break; } default: if (left < sizeof(Hd)) continue; { Hd h = co_await io.template recvStruct<Hd>(); k = sizeof h; got = (int)k; buf.assign((char const*)&h, k); buf += "\x5a\x5a\x5a\x5a"; } } } catch (...) { threw = true; }
                ++self.ops; vf::eval(); if (threw) { vf::check(how == 0 && k > left, "wrapper-failed", [&] { return "receiving " + S((long)k) + " of " + S((long)left) + " bytes failed"; }); break; }
                vf::check(got <= (int)k && got >= 0 && (how == 1 || how == 2 ? got > 0 || !left || !k : (std::size_t)got <= left), "wrapper-count", [&] { return "receiving " + S((long)k) + " of " + S((long)left) + " bytes gave " + S(got) + " (way " + S(how) + ")"; }); if (got < 0 || (std::size_t)got > left) break; if (!vf::check(all.compare(at, (std::size_t)got, buf, 0, (std::size_t)got) == 0, "wrapper-bytes", [&] { return "the " + S(got) + " bytes at " + S((long)at) + " are others"; })) break; vf::check(buf.compare(k, 4, "\x5a\x5a\x5a\x5a") == 0, "wrapper-overrun", "written behind the buffer"); at += (std::size_t)got; if (got == 0 && k) break; }
            if (at < all.size()) { std::string rest(all.size(), 0); int n; while (at < all.size() && (n = co_await io.recv({rest.data(), rest.size()})) > 0) at += (std::size_t)n; } };
        co_await coroutine::whenAll(put(a, all, vf::Rng(s1), cut, l), get(b, all, vf::Rng(vf::mix(s1)), cut, *this));
        if (!cut) { auto t0 = std::chrono::steady_clock::now(); char c[8]; auto x = co_await b.template recvLinkTimeout<decltype(3_ms)>(std::span<char>{c, 8}); vf::check(x.index() == 1 && std::chrono::steady_clock::now() - t0 >= 3ms, "wrapper-early", "the wait for bytes ended early"); if (r.chance(0.5)) { int g[2]; if (!::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, g)) { co_await a.bindNewFd(g[0]); (void)!::write(g[1], "new", 3); int n = co_await a.recv(std::span<char>{c, 8}); vf::check(n == 3 && !std::memcmp(c, "new", 3), "wrapper-rebind", "reads " + S(n)); ::close(g[1]); n = co_await b.recv(std::span<char>{c, 8}); vf::check(n == 0, "wrapper-rebind", "the descriptor bound before is still open"); } } eq(co_await a.close(), 0, "close"); }
        eq(co_await b.close(), 0, "close"); }
    Task<> run(int n, Tracked) { for (int i = 0; i < n; ++i) { switch (r.below(6)) { case 5: co_await wrapper(); break; case 0: co_await open(); break; case 1: co_await file(); break; case 2: co_await sockets(); break; case 3: co_await connect(); break; default: co_await timed(); } if (r.chance(0.2)) co_await l.makeTimer().yield(); } }
};
static void prepare(std::string const& d) { ::mkdir(d.c_str(), 0700); ::mkdir((d + "/sub").c_str(), 0700); if (::symlink("there", (d + "/link").c_str())) {} if (::symlink("loop", (d + "/loop").c_str())) {} }
static void clean(std::string const& d) { for (auto f : {"/sub/there", "/there", "/new", "/missing", "/link", "/loop", "/data", "/s", "/x"}) ::unlink((d + f).c_str()); ::rmdir((d + "/sub").c_str()); ::rmdir(d.c_str()); }
// the descriptors of one loop are also created and compared by plain calls, so actors only use their own
VF_SECTION("ops", 900, 15000) { auto& r = rng;
    int n = (int)r.range(1, 12), threads = r.chance(0.3) ? (int)r.range(2, 3) : 1; int fds = vf::countFds(); std::string root = vf::scratch() + "/o" + S((long)index); ::mkdir(root.c_str(), 0700); vf::setCase(S(n) + " actors on " + S(threads) + " loops"); long total = 0; std::string sig; std::mutex m;
    auto work = [&](int t, std::uint64_t seed) { vf::Rng q(seed); Loop loop; std::vector<std::unique_ptr<Actor>> as; std::vector<std::unique_ptr<Task<>>> ts; for (int i = 0; i < n; ++i) { auto d = root + "/" + S(t) + "_" + S(i); prepare(d); as.push_back(std::make_unique<Actor>(Actor{loop, vf::Rng(q.next()), i, d})); ts.push_back(std::make_unique<Task<>>(as.back()->run((int)q.range(1, 6), Tracked(1)))); }
        for (auto& x : ts) loop.start(*x); loop.run(); for (auto& x : ts) vf::check(over(*x), "never-completed", "an actor never finished"); std::lock_guard _{m}; for (auto& a : as) { total += a->ops; sig += a->h; clean(a->dir); } };
    { vf::Watch w("hang|an operation never completes", 60); std::vector<std::thread> th; std::vector<std::uint64_t> seeds; for (int t = 0; t < threads; ++t) seeds.push_back(r.next()); for (int t = 1; t < threads; ++t) th.emplace_back(work, t, seeds[(std::size_t)t]); work(0, seeds[0]); for (auto& t : th) t.join(); }
    ::rmdir(root.c_str()); vf::note("operations", (std::uint64_t)total); vf::sig(sig); vf::noneLive("ops"); vf::check(vf::waitUntil([&] { return vf::countFds() <= fds; }, 5), "fd-leak", S(vf::countFds() - fds) + " descriptors more than before");
}
// many more operations in flight than the queues hold: byte streams through pairs, with bystanders that are dropped in mid-flight
VF_SECTION("flood", 90, 1200) { auto& r = rng;
    int n = (int)r.range(20, 500), drop = (int)r.range(0, 900); struct P { int fd[2]; std::string sent, got; bool eof = false; std::uint64_t seed; }; std::vector<P> ps; for (int i = 0; i < n; ++i) { P p{}; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, p.fd)) break; p.seed = r.next(); ps.push_back(std::move(p)); } vf::setCase(S((long)ps.size()) + " streams, " + S(drop) + " dropped receives");
    int quiet[2]; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, quiet)) return; std::vector<std::unique_ptr<std::array<char, 64>>> bufs; int touched = 0; long ops = 0;
    { vf::Watch w("hang|an operation never completes", 90); Loop loop;
      auto tx = [&](P& p) -> Task<> { vf::Rng q(p.seed); int k = (int)q.range(1, 8); for (int i = 0; i < k; ++i) { std::string b = q.bytes(1 + q.below(q.chance(0.05) ? 300000 : 3000)); p.sent += b; std::size_t at = 0; while (at < b.size()) { int x = co_await loop.makeAioTask().prepSend(p.fd[0], std::span<char const>{b.data() + at, b.size() - at}, MSG_NOSIGNAL); ++ops; if (!vf::check(x > 0 && (std::size_t)x <= b.size() - at, "send", "gave " + S(x))) co_return; at += (std::size_t)x; } if (q.chance(0.3)) co_await loop.makeTimer().yield(); } (void)co_await loop.makeAioTask().prepClose(p.fd[0]); };
      auto rx = [&](P& p) -> Task<> { vf::Rng q(p.seed + 1); std::vector<char> b(70000); for (;;) { std::size_t len = 1 + q.below(q.chance(0.3) ? b.size() - 1 : 3000); int x = co_await loop.makeAioTask().prepRecv(p.fd[1], std::span<char>{b.data(), len}, 0); ++ops; if (!vf::check(x >= 0 && (std::size_t)x <= len, "recv", "gave " + S(x))) co_return; if (!x) { p.eof = true; break; } p.got.append(b.data(), (std::size_t)x); } (void)co_await loop.makeAioTask().prepClose(p.fd[1]); };
      auto idle = [&](char* b) -> Task<> { (void)co_await loop.makeAioTask().prepRecv(quiet[0], std::span<char>{b, 64}, 0); ++touched; };
      std::vector<std::unique_ptr<Task<>>> ts, ds; for (auto& p : ps) { ts.push_back(std::make_unique<Task<>>(rx(p))); ts.push_back(std::make_unique<Task<>>(tx(p))); } r.shuffle(ts); for (int i = 0; i < drop; ++i) { bufs.push_back(std::make_unique<std::array<char, 64>>()); bufs.back()->fill('#'); ds.push_back(std::make_unique<Task<>>(idle(bufs.back()->data()))); }
      std::size_t di = 0; for (auto& t : ts) { loop.start(*t); if (di < ds.size() && r.chance(0.9)) loop.start(*ds[di++]); } for (; di < ds.size(); ++di) loop.start(*ds[di]);
      auto killer = [&]() -> Task<> { while (!ds.empty()) { for (int k = (int)r.range(1, 80); k-- && !ds.empty();) { std::swap(ds[r.below(ds.size())], ds.back()); ds.pop_back(); } if (r.chance(0.5)) co_await loop.makeTimer().yield(); else co_await loop.makeTimer().sleepFor(std::chrono::microseconds(r.below(300))); }
          co_await loop.makeTimer().sleepFor(1ms); std::string x(200, '!'); if (::write(quiet[1], x.data(), x.size()) != 200) {} co_await loop.makeTimer().sleepFor(1ms); int have = 0; ::ioctl(quiet[0], FIONREAD, &have); vf::check(have == 200, "stolen", "receives that were dropped took " + S(200 - have) + " bytes that arrived later"); };
      auto kt = killer(); loop.start(kt); loop.run(); vf::check(over(kt), "never-completed", "the loop ended too early"); }
    vf::check(touched == 0, "dropped-resumed", S(touched) + " dropped receives were resumed"); for (auto& b : bufs) vf::check(std::all_of(b->begin(), b->end(), [](char c) { return c == '#'; }), "dropped-written", "the buffer of a dropped receive was written to");
    for (auto& p : ps) { vf::eval(); vf::check(p.eof, "never-completed", "a stream never ended"); vf::check(p.got == p.sent, "stream-bytes", "a stream of " + S((long)p.sent.size()) + " bytes arrived as " + S((long)p.got.size())); } ::close(quiet[0]); ::close(quiet[1]); vf::note("operations", (std::uint64_t)ops); vf::sig(S((long)ps.size()) + "/" + S(drop) + "/" + S(ops));
}
// one round of the loop takes in far more operations with timeouts than its queue holds: each pair stays together
VF_SECTION("paired", 40, 600) { auto& r = rng;
    int quiet[2]; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, quiet)) return; int odd = (int)r.below(700), n = (int)r.range(600, 2600); vf::setCase(S(odd) + " plain operations, then " + S(n) + " with a timeout"); int expired = 0, plain = 0, other = 0, lastBad = 0; double early = 0;
    { vf::Watch w("hang|an operation never completes", 60); Loop loop; std::deque<__kernel_timespec> tss; std::deque<char> bufs; std::vector<std::unique_ptr<Task<>>> ts; auto t0 = std::chrono::steady_clock::now();
      auto one = [&]() -> Task<> { char c; int x = co_await loop.makeAioTask().prepRead(-1, std::span<char>{&c, 1}, 0); plain += x == -EBADF; };
      auto two = [&](long us) -> Task<> { tss.push_back({0, us * 1000}); auto& tm = tss.back(); bufs.push_back('#'); auto& c = bufs.back(); auto a = co_await coroutine::AioTask::linkTimeout(loop.makeAioTask().prepRecv(quiet[0], std::span<char>{&c, 1}, 0), loop.makeAioTask().prepLinkTimeout(&tm, 0)); double took = std::chrono::duration<double, std::micro>(std::chrono::steady_clock::now() - t0).count(); if (a.index() == 1 && a.template get<1, exception::ExceptionMode::Nothrow>() == -ETIME) ++expired; else { ++other; lastBad = a.index() == 1 ? a.template get<1, exception::ExceptionMode::Nothrow>() : a.template get<0, exception::ExceptionMode::Nothrow>(); } early = std::max(early, (double)us - took); };
      for (int i = 0; i < odd; ++i) ts.push_back(std::make_unique<Task<>>(one())); for (int i = 0; i < n; ++i) { ts.push_back(std::make_unique<Task<>>(two(20000 + (long)r.below(60000)))); if (r.chance(0.01)) ts.push_back(std::make_unique<Task<>>(one())); } int singles = (int)ts.size() - n;
      for (auto& t : ts) loop.start(*t); loop.run(); for (auto& t : ts) vf::check(over(*t), "never-completed", "an operation never completed"); vf::check(plain == singles, "read", S(singles - plain) + " reads had another result"); vf::check(other == 0, "timeout", [&] { return S(other) + " of " + S(n) + " receives ended in another way than by their timeout, one with " + S(lastBad); }); vf::check(early <= 0, "early", [&] { return "a timeout expired " + S((long)early) + " us early"; }); }
    ::close(quiet[0]); ::close(quiet[1]); vf::note("operations", (std::uint64_t)(odd + 2 * n)); vf::eval((std::uint64_t)n); vf::sig(S(odd) + "/" + S(n));
}
