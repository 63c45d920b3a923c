// C08: asynchronous files against in-memory copies: any chunking, mode, several files at once, failures and descriptor accounting.
#include "vf.hpp"
#include <algorithm>
#include <sys/resource.h>
#include <sys/stat.h>
#include <HXLibs/utils/FileUtils.hpp>
#include <HXLibs/coroutine/awaiter/WhenAll.hpp>
using namespace HX; using coroutine::Task; using utils::AsyncFile; using utils::FileUtils; using platform::OpenMode;
namespace {
std::string S(long v) { return std::to_string(v); }
std::string slurp(std::string const& p) { std::string r; FILE* f = std::fopen(p.c_str(), "rb"); if (!f) return "<no file>"; char b[65536]; std::size_t n; while ((n = std::fread(b, 1, sizeof b, f))) r.append(b, n); std::fclose(f); return r; }
void spew(std::string const& p, std::string const& s) { FILE* f = std::fopen(p.c_str(), "wb"); if (f) { std::fwrite(s.data(), 1, s.size(), f); std::fclose(f); } }
std::size_t someSize(vf::Rng& r) { switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return (1 << 17) + (std::size_t)r.range(-2, 2); case 3: return 4096 + (std::size_t)r.range(-1, 1); case 4: return r.below(600000); case 5: return (2 << 17) + (std::size_t)r.range(-1, 1); default: return r.below(9000); } }
std::string diff(std::string const& a, std::string const& b) { std::size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; return "got " + S((long)a.size()) + " bytes, expected " + S((long)b.size()) + ", first difference at " + S((long)i); }
Task<> writeChunks(AsyncFile& f, std::string const& d, vf::Rng& r) { std::size_t i = 0; while (i < d.size()) { std::size_t n = std::min(d.size() - i, (std::size_t)(r.chance(0.2) ? r.range(100000, 400000) : r.range(1, 9000))); if (r.chance(0.1)) co_await f.write(std::span<char const>{d.data(), 0}); co_await f.write(std::span<char const>{d.data() + i, n}); i += n; } }
// reads to the end; every byte beyond the reported count must stay untouched
Task<> readChunks(AsyncFile& f, std::string& out, vf::Rng& r) { for (;;) { std::size_t n = r.chance(0.2) ? (std::size_t)r.range(100000, 300000) : (std::size_t)r.range(1, 9000); std::unique_ptr<char[]> b(new char[n]); std::memset(b.get(), 0x5a, n); int got; std::size_t lim = n;
        if (r.chance(0.3)) { lim = (std::size_t)r.range(1, (long)n); got = co_await f.read(std::span<char>{b.get(), n}, (unsigned)lim); } else got = co_await f.read(std::span<char>{b.get(), n});
        if (got < 0 || (std::size_t)got > lim) { vf::fail("count", "read of " + S((long)lim) + " returned " + S(got)); co_return; } for (std::size_t i = (std::size_t)got; i < n; ++i) if (b[i] != 0x5a) { vf::fail("overrun", "bytes after the reported count were changed"); break; }
        if (!got) break; out.append(b.get(), (std::size_t)got); } }
template <class F> int errOf(F f) { try { f(); } catch (std::system_error& e) { return e.code().value(); } return 0; }
Task<> life(coroutine::EventLoop& loop, std::string path, vf::Rng r) {
    std::string model; bool exists = false; int rounds = (int)r.range(1, 5);
    for (int k = 0; k < rounds; ++k) {
        int mode = (int)r.below(4); if (!exists && mode == 3) mode = (int)r.below(3); std::string d = r.bytes(someSize(r)); AsyncFile f{loop}; std::string junk = path + "#tail"; std::string_view pv{junk.data(), path.size()};   // a view that is not NUL-terminated
        switch (mode) {
        case 0: co_await f.open(pv, OpenMode::Write); co_await writeChunks(f, d, r); co_await f.close(); model = d; exists = true; break;
        case 1: co_await f.open(pv, OpenMode::Append); co_await writeChunks(f, d, r); co_await f.close(); model += d; exists = true; break;
        case 2: { co_await f.open(pv, OpenMode::ReadWrite); exists = true; std::size_t half = r.below(d.size() + 1); std::string a = d.substr(0, half), b = d.substr(half); co_await writeChunks(f, a, r); std::string m2 = model; auto over = [&](std::size_t at, std::string const& s) { if (m2.size() < at + s.size()) m2.resize(at + s.size()); std::copy(s.begin(), s.end(), m2.begin() + (long)at); }; over(0, a);
            if (r.chance(0.5)) { std::string g; co_await readChunks(f, g, r); if (g != m2) vf::fail("readback", "between two writes: " + diff(g, m2)); }
            co_await writeChunks(f, b, r); over(half, b); f.setOffset(0); std::string g = co_await f.readAll(); if (g != m2) vf::fail("readback", "after read-write: " + diff(g, m2)); co_await f.close(); model = m2; break; }
        default: { co_await f.open(pv, OpenMode::Read); std::string g; co_await readChunks(f, g, r); if (g != model) vf::fail("read", diff(g, model)); for (int j = 0; j < 3; ++j) { std::size_t at = r.below(model.size() + 10); f.setOffset(at); std::string h = co_await f.readAll(); std::string w = at < model.size() ? model.substr(at) : ""; if (h != w) { vf::fail("offset", "from offset " + S((long)at) + ": " + diff(h, w)); break; } } char c; int e = co_await f.read(std::span<char>{&c, 1}); if (e != 0) vf::fail("count", "reading at the end returned " + S(e)); co_await f.close(); } }
        std::string disk = exists ? slurp(path) : ""; if (exists && disk != model) { vf::fail("content", "file after mode " + S(mode) + ": " + diff(disk, model)); co_return; } vf::eval(); vf::note("bytes", d.size()); vf::sig(vf::mix(d.size() * 8 + (std::uint64_t)mode + vf::hashStr(model.substr(0, 64))));
    }
}
} // namespace
VF_SECTION("files", 260, 4000) {
    std::string dir = vf::scratch(); int n = (int)rng.range(1, 6); int fds = 0; vf::setCase(S(n) + " files");
    { coroutine::EventLoop loop; fds = vf::countFds(); std::vector<std::unique_ptr<Task<>>> ts; std::vector<std::string> ps; for (int i = 0; i < n; ++i) { ps.push_back(dir + "/f" + S(index) + "_" + S(i)); ts.push_back(std::make_unique<Task<>>(life(loop, ps.back(), vf::Rng(rng.next())))); }
      for (auto& t : ts) loop.start(*t); { vf::Watch w("files|file I/O never completes", 40); loop.run(); } for (auto& t : ts) if (!std::coroutine_handle<>(*t).done()) vf::fail("lost", "a file coroutine did not finish"); else try { t->getPromise().promise().result(); } catch (std::exception& e) { vf::fail("error", std::string("unexpected error: ") + e.what()); }
      vf::check(vf::countFds() == fds, "fd-leak", S(vf::countFds() - fds) + " descriptors left open"); for (auto& p : ps) ::unlink(p.c_str()); }
}
// a window of bytes far into a sparse file: positions beyond what 31 or 32 bits hold
VF_SECTION("far", 96, 1500) { auto& r = rng;
    std::string p = vf::scratch() + "/far" + S(index), d = r.bytes(1 + r.below(r.chance(0.2) ? 400000 : 9000)); std::uint64_t at = r.pick({1ull << 31, 1ull << 32, (1ull << 32) + (1ull << 31), 1ull << 33, 1ull << 36, 1ull << 40}); at += (std::uint64_t)r.range(-5000, 5000); { int fd = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); if (fd < 0 || ::pwrite(fd, d.data(), d.size(), (off_t)at) != (ssize_t)d.size()) { ::close(fd); ::unlink(p.c_str()); vf::note("no_sparse"); return; } ::close(fd); }
    vf::setCase(S((long)d.size()) + " bytes at " + S((long)at)); vf::check(FileUtils::getFileSize(p) == at + d.size(), "size", [&] { return "getFileSize gives " + S((long)FileUtils::getFileSize(p)) + " for " + S((long)(at + d.size())); });
    { vf::Watch w("far|file I/O never completes", 40); coroutine::EventLoop loop; loop.sync([&]() -> Task<> { AsyncFile f{loop}; co_await f.open(p, OpenMode::Read); int n = (int)r.range(1, 4); for (int i = 0; i < n; ++i) { std::size_t off = r.below(d.size() + 3); f.setOffset(at + off); std::string g; co_await readChunks(f, g, r); std::string want = off < d.size() ? d.substr(off) : ""; vf::check(g == want, "far", [&] { return "from " + S((long)(at + off)) + ": " + diff(g, want); }); vf::eval(); }
        std::size_t gap = (std::size_t)r.range(1, 3000); if (gap < at) { f.setOffset(at - gap); std::string b(gap + d.size() + 1, 'x'); std::size_t k = 0; for (;;) { int x = co_await f.read(std::span<char>{b.data() + k, b.size() - k}); if (x <= 0) break; k += (std::size_t)x; } vf::check(k == gap + d.size() && b.compare(0, gap, std::string(gap, '\0')) == 0 && b.compare(gap, d.size(), d) == 0, "far", [&] { return "reading across " + S((long)at); }); } co_await f.close();
        std::string more = r.bytes(r.below(5000)); co_await f.open(p, OpenMode::Append); co_await writeChunks(f, more, r); co_await f.close(); d += more; }()); }
    std::string g(d.size() + 1, 0); int fd = ::open(p.c_str(), O_RDONLY | O_CLOEXEC); auto k = ::pread(fd, g.data(), g.size(), (off_t)at); ::close(fd); g.resize(k < 0 ? 0 : (std::size_t)k); vf::check(g == d, "far-append", [&] { return diff(g, d); }); ::unlink(p.c_str()); vf::sig(S((long)at) + d.substr(0, 8)); }
VF_SECTION("helpers", 160, 2000) {
    std::string p = vf::scratch() + "/h" + S(index); std::string d = rng.bytes(someSize(rng)); if (rng.chance(0.3)) for (auto& c : d) c = rng.pick({'\r', '\n', '\x1a', '\0', 'a'}); int fds = vf::countFds();
    FileUtils::putFileContent(p, d); vf::check(slurp(p) == d, "put", "putFileContent: " + diff(slurp(p), d)); auto g = FileUtils::getFileContent(p); vf::check(g == d, "get", "getFileContent: " + diff(g, d)); vf::check(FileUtils::getFileSize(p) == d.size(), "size", "getFileSize");
    std::string e = rng.bytes(rng.below(3000)); FileUtils::putFileContent(p, e); vf::check(FileUtils::getFileContent(p) == e, "put", "overwriting did not replace the content");
    { coroutine::EventLoop loop; AsyncFile f{loop}; f.syncOpen(p, OpenMode::Write); auto w = d; f.syncWrite(w); f.syncClose(); AsyncFile h{loop}; h.syncOpen(p, OpenMode::Read); std::vector<char> b(100); int n = h.syncRead(b); vf::check(n == (int)std::min<std::size_t>(100, d.size()) && !std::memcmp(b.data(), d.data(), (std::size_t)n), "sync", "syncRead"); n = h.syncRead(b, 7); long rest = (long)d.size() - 100; vf::check(n == (int)std::clamp(rest, 0L, 7L), "sync", "syncRead with a size"); h.setOffset(0); auto all = h.syncReadAll(); vf::check(all == d, "sync", "syncReadAll: " + diff(all, d)); h.syncClose(); }
    ::unlink(p.c_str()); int err = errOf([&] { FileUtils::getFileContent(p); }); vf::check(err == ENOENT, "error", "getFileContent of a missing file: " + S(err)); err = errOf([&] { FileUtils::putFileContent(p + "/x/y", d); }); vf::check(err == ENOENT, "error", "putFileContent into a missing directory: " + S(err)); err = 1; if (!d.empty()) { err = 0; try { FileUtils::putFileContent("/dev/full", d); } catch (std::exception&) { err = 1; } } vf::check(err, "error", "putFileContent on a full device reported success"); bool th = false; try { FileUtils::getFileSize(p); } catch (std::exception&) { th = true; } vf::check(th, "error", "getFileSize of a missing file");
    vf::check(vf::countFds() == fds, "fd-leak", "helpers left descriptors open"); static const char* names[][2] = {{"a.txt", ".txt"}, {"a.tar.gz", ".gz"}, {"noext", ""}, {".hidden", ".hidden"}, {"dir.d/x.html", ".html"}, {"trail.", "."}, {"", ""}}; for (auto& x : names) vf::check(FileUtils::getExtension(x[0]) == x[1], "extension", x[0]); vf::eval(14); vf::sig("h" + S((long)d.size()) + S((long)e.size()));
}
VF_SECTION("errors", 120, 1200) {
    std::string dir = vf::scratch() + "/e" + S(index); ::mkdir(dir.c_str(), 0755); spew(dir + "/ro", "0123456789"); ::symlink((dir + "/loop").c_str(), (dir + "/loop").c_str());
    { coroutine::EventLoop loop; int fds = vf::countFds(); auto run = [&](Task<> t) -> int { auto r = loop.trySync(std::move(t)); if (r.isVal()) return 0; try { r.rethrow(); } catch (std::system_error& e) { return e.code().value(); } catch (std::exception& e) { vf::fail("error-kind", std::string("not a system error: ") + e.what()); } return -1; };
      auto expect = [&](int got, int want, char const* what) { vf::check(got == want, "error", std::string(what) + ": error " + S(got) + " instead of " + S(want)); vf::check(vf::countFds() == fds, "fd-leak", std::string(what) + " changed the number of open descriptors by " + S(vf::countFds() - fds)); vf::eval(); vf::sig(std::string(what)); };
      auto openOnly = [&](std::string p, OpenMode m) -> Task<> { AsyncFile f{loop}; co_await f.open(p, m); co_await f.close(); };
      auto openTwice = [&](std::string bad, std::string good) -> Task<> { AsyncFile f{loop}; bool th = false; try { co_await f.open(bad, OpenMode::Read); } catch (std::system_error&) { th = true; } if (!th) vf::fail("error", "opening a missing file succeeded"); co_await f.open(good, OpenMode::Read); auto s = co_await f.readAll(); co_await f.close(); if (s != "0123456789") vf::fail("read", "reopened file gave " + s); };
      expect(run(openOnly(dir + "/missing", OpenMode::Read)), ENOENT, "open a missing file"); expect(run(openOnly(dir, OpenMode::Write)), EISDIR, "open a directory for writing"); expect(run(openOnly(dir + "/ro", OpenMode::Directory)), ENOTDIR, "open a file as directory"); expect(run(openOnly(dir, OpenMode::Directory)), 0, "open a directory"); expect(run(openOnly("/dev/null", OpenMode::ReadWrite)), 0, "open a device"); expect(run(openOnly(dir + "/ro/x", OpenMode::ReadWrite)), ENOTDIR, "open below a file"); expect(run(openOnly(dir + "/loop", OpenMode::Read)), ELOOP, "open a link loop"); expect(run(openOnly("", OpenMode::Read)), ENOENT, "open an empty name"); expect(run(openTwice(dir + "/no", dir + "/ro")), 0, "open again after a failure");
      auto reuse = [&]() -> Task<> { AsyncFile f{loop}; for (int k = 0; k < 4; ++k) { std::string n = dir + "/u" + S(k % 2), d = std::string((std::size_t)(3 + k), (char)('a' + k)); co_await f.open(n, OpenMode::Write); co_await f.write(std::span<char const>{d}); co_await f.close(); co_await f.open(n, OpenMode::Read); auto g = co_await f.readAll(); co_await f.close(); if (g != d) vf::fail("reuse", "a reused file object read " + g + " instead of " + d); } }; expect(run(reuse()), 0, "reuse one object for several files");
      // several writes of one file in flight keep their order
      auto par = [&]() -> Task<> { AsyncFile f{loop}; co_await f.open(dir + "/par", OpenMode::Write); std::string a = rng.bytes(rng.below(9000)), b = rng.bytes(rng.below(300000)), c = rng.bytes(rng.below(50)); co_await coroutine::whenAll(f.write(std::span<char const>{a}), f.write(std::span<char const>{b}), f.write(std::span<char const>{c})); co_await f.close(); if (slurp(dir + "/par") != a + b + c) vf::fail("parallel", "three writes in flight: " + diff(slurp(dir + "/par"), a + b + c)); }; expect(run(par()), 0, "three writes in flight");
      auto readWO = [&]() -> Task<> { AsyncFile f{loop}; co_await f.open(dir + "/wo", OpenMode::Write); std::exception_ptr e; char b[4]; try { co_await f.read(b); } catch (...) { e = std::current_exception(); } co_await f.close(); if (e) std::rethrow_exception(e); }; expect(run(readWO()), EBADF, "read a write-only file");
      auto writeRO = [&]() -> Task<> { AsyncFile f{loop}; co_await f.open(dir + "/ro", OpenMode::Read); std::exception_ptr e; try { co_await f.write(std::span<char const>{"x", 1}); } catch (...) { e = std::current_exception(); } co_await f.close(); if (e) std::rethrow_exception(e); }; expect(run(writeRO()), EBADF, "write a read-only file");
      auto full = [&]() -> Task<> { AsyncFile f{loop}; co_await f.open("/dev/full", OpenMode::ReadWrite); std::exception_ptr e; try { co_await f.write(std::span<char const>{"xyz", 3}); } catch (...) { e = std::current_exception(); } co_await f.close(); if (e) std::rethrow_exception(e); }; expect(run(full()), ENOSPC, "write to a full device");
      auto closed = [&]() -> Task<> { AsyncFile f{loop}; char b[4]; co_await f.read(b); }; expect(run(closed()), EBADF, "read an unopened file");
      // relative to a directory descriptor, with the permissions asked for
      int dfd = ::open(dir.c_str(), O_RDONLY | O_DIRECTORY); fds = vf::countFds(); ::mode_t um = ::umask(0); auto rel = [&]() -> Task<> { AsyncFile f{loop}; co_await f.open("rel", OpenMode::Write, dfd, 0640); co_await f.write(std::span<char const>{"abc", 3}); co_await f.close(); AsyncFile g{loop}; co_await g.open("rel", OpenMode::Read, dfd); auto s = co_await g.readAll(); co_await g.close(); if (s != "abc") vf::fail("dirfd", "read back " + s); }; expect(run(rel()), 0, "open relative to a directory"); ::umask(um); struct ::stat st{}; vf::check(::stat((dir + "/rel").c_str(), &st) == 0 && (st.st_mode & 0777) == 0640, "mode", "created with mode " + S(st.st_mode & 0777)); ::close(dfd);
      // a write the system can only perform in part: the rest must be attempted and the failure reported
      fds = vf::countFds(); ::signal(SIGXFSZ, SIG_IGN); ::rlimit old{}, lim{}; ::getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = 300000; ::setrlimit(RLIMIT_FSIZE, &lim); std::string d = rng.bytes(300000 + (std::size_t)rng.range(1, 300000));
      auto part = [&]() -> Task<> { AsyncFile f{loop}; co_await f.open(dir + "/part", OpenMode::Write); std::exception_ptr e; try { co_await f.write(std::span<char const>{d}); } catch (...) { e = std::current_exception(); } co_await f.close(); if (e) std::rethrow_exception(e); }; int got = run(part()); ::setrlimit(RLIMIT_FSIZE, &old); expect(got, EFBIG, "write beyond the file size limit"); vf::check(slurp(dir + "/part") == d.substr(0, 300000), "partial", "a partial write left " + diff(slurp(dir + "/part"), d.substr(0, 300000)));
    }
    for (auto n : {"/u0", "/u1", "/par", "/ro", "/loop", "/wo", "/rel", "/part"}) ::unlink((dir + n).c_str()); ::rmdir(dir.c_str());
}
// reading and writing a stream (pipe) delivers everything although each operation handles only part of it
VF_SECTION("stream", 60, 600) {
    std::string p = vf::scratch() + "/fifo" + S(index); if (::mkfifo(p.c_str(), 0600)) { vf::fail("harness", "mkfifo"); return; } std::string d = rng.bytes(1 + rng.below(400000)), got; bool wr = rng.chance(0.5); std::uint64_t sd = rng.next(); vf::setCase((wr ? "write " : "read ") + S((long)d.size()) + " bytes through a pipe");
    std::thread peer([&] { vf::Rng r(sd); int fd = ::open(p.c_str(), wr ? O_RDONLY : O_WRONLY); std::size_t at = 0; char b[70000]; for (;;) { std::size_t n = (std::size_t)r.range(1, r.chance(0.3) ? 60000 : 700); ssize_t k; if (wr) { k = ::read(fd, b, n); if (k > 0) got.append(b, (std::size_t)k); } else { n = std::min(n, d.size() - at); k = n ? ::write(fd, d.data() + at, n) : 0; if (k > 0) at += (std::size_t)k; } if (k <= 0) break; if (r.chance(0.05)) std::this_thread::sleep_for(std::chrono::microseconds(100)); } ::close(fd); });
    { coroutine::EventLoop loop; vf::Watch w("stream|stuck", 30); auto t = [&]() -> Task<> { AsyncFile f{loop}; co_await f.open(p, wr ? OpenMode::Append : OpenMode::Read); if (wr) co_await f.write(std::span<char const>{d}); else got = co_await f.readAll(); co_await f.close(); }; auto r = loop.trySync(t()); if (!r.isVal()) vf::fail("error", r.what()); peer.join(); }
    vf::check(got == d, "stream", diff(got, d)); ::unlink(p.c_str()); vf::eval(); vf::sig("st" + S((long)d.size()) + S(wr));
}
