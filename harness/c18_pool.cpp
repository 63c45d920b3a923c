// C18: every request handed to a client pool completes exactly once with its own answer and is sent exactly once.
#include "client.hpp"
#include <HXLibs/net/client/HttpClientPool.hpp>
using namespace ct; using namespace HX::net;
using FR = HX::container::FutureResult<HX::container::Try<ResponseData>>;
// counts what arrives; the answer names the request
struct Ledger { std::mutex m; std::map<std::string, int> seen; std::atomic_int busy{0}, peak{0}, served{0}, bad{0}; };
struct Wild { int delayUs = 0; double dropProb = 0, stallProb = 0; }; // what the server does on its own
static void echo(Peer& p, Ledger& l, Wild w, std::uint64_t seed) { vf::Rng q(seed); for (;;) { std::string err; auto rq = request(p, err, 30); if (!rq) { if (err != "closed" && !p.eof) vf::fail("bad-request", err); return; }
    { std::lock_guard _{l.m}; ++l.seen[rq->target]; } int b = ++l.busy; int pk = l.peak; while (b > pk && !l.peak.compare_exchange_weak(pk, b)) ; if (w.delayUs) std::this_thread::sleep_for(std::chrono::microseconds(q.below((std::uint64_t)w.delayUs))); --l.busy; ++l.served;
    auto body = rq->target + "|" + rq->body; bool close = w.dropProb > 0 && q.chance(w.dropProb); std::string s = "HTTP/1.1 200 OK\r\nX-Id: " + rq->target + "\r\n" + (close && q.chance(0.5) ? "Connection: close\r\n" : ""); if (q.chance(0.5)) s += "Content-Length: " + S((long)body.size()) + "\r\n\r\n" + body; else s += "Transfer-Encoding: chunked\r\n\r\n" + chunked(q, body);
    if (!p.send(s)) return; if (close) return; } }
struct Job { std::string t, b; int m = 0; std::optional<FR> f; };
static Job submit(HttpClientPool<NoneProxy>& pool, vf::Rng& q, std::string const& base, std::string t) { Job j; j.t = std::move(t); j.m = (int)q.below(4); HeaderHashMap h; h["X-Id"] = j.t; if (j.m) j.b = q.bytes(1 + q.below(q.chance(0.1) ? 60000 : 200));
    switch (j.m) { case 0: j.f.emplace(pool.get<decltype(20_s)>(base + j.t, h)); break; case 1: j.f.emplace(pool.post<decltype(20_s)>(base + j.t, j.b, HttpContentType::Text, h)); break; case 2: j.f.emplace(pool.requst<HttpMethod::PUT, decltype(20_s)>(base + j.t, h, std::string(j.b), HttpContentType::Json)); break; default: j.f.emplace(pool.requst<HttpMethod::POST, decltype(20_s)>(base + j.t, h, std::string(j.b))); break; } return j; }
// judged exactly once; mayFail: the pool was torn down meanwhile
static bool judge(Job& j, bool mayFail) { vf::eval(3); Out o; try { o = plain(j.f->get()); } catch (std::exception const& e) { o.what = e.what(); } if (!o.ok) { vf::check(mayFail, "failed", [&] { return "request " + j.t + " on healthy connections: " + o.what; }); return false; }
    auto want = j.t + "|" + j.b; vf::check(o.status == 200 && o.headers["x-id"] == j.t && o.body == want, "mixed-up", [&] { return "request " + j.t + " was answered for " + o.headers["x-id"] + ": " + diff(o.body, want); }); return true; }
static void counts(Ledger& l, std::set<std::string> const& okd, std::set<std::string> const& all) { std::lock_guard _{l.m}; for (auto& [t, n] : l.seen) { vf::check(all.count(t), "unasked", "a request nobody made: " + t); vf::check(n == 1, "count", [&] { return "request " + t + " was received " + S(n) + " times"; }); } for (auto& t : okd) vf::check(l.seen.count(t), "never-sent", [&] { return "request " + t + " was answered without being sent"; }); }

VF_SECTION("work", 120, 1600) { auto& r = rng;
    int size = (int)r.range(1, 9), k = (int)r.range(1, 6), n = (int)r.range(1, 25); Wild w; w.delayUs = r.chance(0.6) ? (int)r.below(2500) : 0; w.dropProb = r.chance(0.3) ? 0.2 : 0; int resizes = r.chance(0.5) ? (int)r.range(1, 8) : 0, closes = r.chance(0.2) ? (int)r.range(1, 3) : 0; bool burst = r.chance(0.5);
    vf::setCase("size " + S(size) + ", " + S(k) + " threads x " + S(n) + (burst ? " burst" : "") + ", delay " + S(w.delayUs) + ", drops " + S(w.dropProb > 0) + ", " + S(resizes) + " resizes, " + S(closes) + " closes"); int fds = vf::countFds(), th = vf::countThreads(); Ledger l; std::uint64_t seed = r.next(); std::set<std::string> okd, all; std::mutex m; std::atomic_long done{0};
    { RawServer A([&](Peer& p, int c) { echo(p, l, w, vf::mix(seed + 1000 + (std::uint64_t)c)); }); auto base = "http://" + A.hostPort(); vf::Watch watch("hang|the pool does not complete", 90); { HttpClientPool<NoneProxy> pool((std::size_t)size); std::set<std::size_t> turns; { for (int i = 0; i < 2 * size; ++i) turns.insert(pool.getIdxAndNext()); vf::check(turns.size() == (std::size_t)size && *turns.rbegin() < (std::size_t)size, "turns", [&] { return "a pool of " + S(size) + " gave turns to " + S((long)turns.size()) + " of its clients, up to number " + S((long)*turns.rbegin()); }); } std::vector<std::thread> ts;
        for (int i = 0; i < k; ++i) ts.emplace_back([&, i] { vf::Rng q(vf::mix(seed + (std::uint64_t)i)); std::vector<Job> js; std::set<std::string> mine, ok; for (int x = 0; x < n; ++x) { js.push_back(submit(pool, q, base, "/t" + S(i) + "/" + S(x))); mine.insert(js.back().t); if (!burst || q.chance(0.1)) if (judge(js.back(), false)) { ok.insert(js.back().t); js.pop_back(); } else js.pop_back(); } for (auto& j : js) if (judge(j, false)) ok.insert(j.t); done += n; std::lock_guard _{m}; okd.insert(ok.begin(), ok.end()); all.insert(mine.begin(), mine.end()); });
        std::thread ctl([&] { vf::Rng q(vf::mix(seed + 99)); for (int i = 0; i < resizes; ++i) { pool.resize((std::size_t)q.range(1, 10)); if (q.chance(0.2)) { bool thrown = false; try { pool.resize(0); } catch (std::exception const&) { thrown = true; } vf::check(thrown, "no-clients", "a pool was resized to no clients at all"); } std::this_thread::sleep_for(std::chrono::microseconds(q.below(2500))); } for (int i = 0; i < closes; ++i) { pool.close(); std::this_thread::sleep_for(std::chrono::microseconds(q.below(2500))); } });
        for (auto& t : ts) t.join(); ctl.join(); if (resizes) { int now_ = (int)r.range(1, 10); pool.resize((std::size_t)now_); turns.clear(); for (int i = 0; i < 2 * now_; ++i) turns.insert(pool.getIdxAndNext()); vf::check(turns.size() == (std::size_t)now_ && *turns.rbegin() < (std::size_t)now_, "turns", [&] { return "a pool resized to " + S(now_) + " gave turns to " + S((long)turns.size()) + " clients, up to number " + S((long)*turns.rbegin()); }); } }
        if (okd.size() == all.size() && !resizes && burst && w.delayUs > 800 && size > 2 && n * k > 30 && !closes) vf::check(l.peak <= size, "too-many", [&] { return S(l.peak) + " requests at once over " + S(size) + " clients"; }); if (!resizes) vf::check(w.dropProb > 0 || closes || A.accepted <= size, "connections", [&] { return S(A.accepted) + " connections for a pool of " + S(size); }); vf::note("connections", (std::uint64_t)A.accepted); A.stop(); counts(l, okd, all); vf::note("most requests in flight", (std::uint64_t)l.peak); }
    vf::check(done == (long)n * k, "lost", [&] { return S(done) + " of " + S(n * k) + " requests completed"; }); vf::check(vf::waitUntil([&] { return vf::countFds() <= fds && vf::countThreads() <= th; }, 5), "leak", [&] { return "descriptors " + S(fds) + " -> " + S(vf::countFds()) + ", threads " + S(th) + " -> " + S(vf::countThreads()); }); vf::note("requests", (std::uint64_t)done); vf::sig(seed);
}
// the pool goes away with requests queued: each future still becomes ready, once, with its own answer or an error
VF_SECTION("teardown", 60, 700) { auto& r = rng;
    int size = (int)r.range(1, 5), n = (int)r.range(1, 40); Wild w; w.delayUs = (int)r.below(3000); vf::setCase("teardown, size " + S(size) + ", " + S(n) + " requests"); int fds = vf::countFds(), th = vf::countThreads(); Ledger l; std::uint64_t seed = r.next(); std::set<std::string> okd, all; int shrinks = (int)r.below(3);
    { RawServer A([&](Peer& p, int c) { echo(p, l, w, vf::mix(seed + (std::uint64_t)c)); }); auto base = "http://" + A.hostPort(); vf::Watch watch("hang|the pool does not complete", 90); std::vector<Job> js; std::size_t before = 0; { HttpClientPool<NoneProxy> pool((std::size_t)size); vf::Rng q(seed); for (int i = 0; i < n; ++i) { js.push_back(submit(pool, q, base, "/d/" + S(i))); all.insert(js.back().t); } if (shrinks) { pool.resize((std::size_t)(shrinks == 1 ? 1 : size + 2)); } if (r.chance(0.5)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(5000))); before = 0; }
        int failed = 0; for (auto& j : js) if (judge(j, true)) okd.insert(j.t); else ++failed; vf::note("requests failed by tear-down", (std::uint64_t)failed); A.stop(); counts(l, okd, all); (void)before; }
    vf::check(vf::waitUntil([&] { return vf::countFds() <= fds && vf::countThreads() <= th; }, 5), "leak", [&] { return "descriptors " + S(fds) + " -> " + S(vf::countFds()) + ", threads " + S(th) + " -> " + S(vf::countThreads()); }); vf::sig(seed);
}
// some servers answer nonsense, stall or refuse: every request still ends, and the answers that come are the right ones
VF_SECTION("faults", 40, 400) { auto& r = rng;
    int size = (int)r.range(1, 5), k = (int)r.range(1, 4), n = (int)r.range(1, 10); vf::setCase("faults, size " + S(size) + ", " + S(k) + " x " + S(n)); int fds = vf::countFds(), th = vf::countThreads(); std::uint64_t seed = r.next(); Ledger l; std::atomic_int okn{0}, bad{0};
    { RawServer A([&](Peer& p, int c) { echo(p, l, Wild{}, vf::mix(seed + (std::uint64_t)c)); }), B([&](Peer& p, int c) { vf::Rng q(vf::mix(seed + 77 + (std::uint64_t)c)); std::string err; auto rq = request(p, err, 5); if (!rq) return; switch (q.below(4)) { case 0: p.closeRst(); return; case 1: p.send("HTTP/1.1 200 OK\r\nX-Id: /wrong\r\nContent-Length: 50\r\n\r\nshort"); return; case 2: { double e = now() + 3; while (!p.eof && now() < e) p.wait(0.05); return; } default: p.send("rubbish\r\n\r\n"); } }, "127.0.0.3"); int dead; { RawServer C([](Peer&, int) {}); dead = C.pt; C.stop(); }
        vf::Watch watch("hang|the pool does not complete", 90); HttpClientPool<NoneProxy> pool((std::size_t)size); std::vector<std::thread> ts; for (int i = 0; i < k; ++i) ts.emplace_back([&, i] { vf::Rng q(vf::mix(seed + 500 + (std::uint64_t)i)); for (int x = 0; x < n; ++x) { int to = (int)q.below(5); std::string t = "/f" + S(i) + "/" + S(x); auto url = to == 3 ? B.url(t) : to == 4 ? "http://127.0.0.1:" + S(dead) + t : A.url(t); vf::eval(1); Out o; try { o = plain(pool.get<decltype(250_ms)>(url).get()); } catch (std::exception const& e) { o.what = e.what(); } if (to < 3) { vf::check(o.ok && o.body == t + "|", "mixed-up", [&] { return "request " + t + " next to failing ones: " + (o.ok ? diff(o.body, t + "|") : o.what); }); ++okn; } else { vf::check(!o.ok, "fabricated", [&] { return "an answer from a " + std::string(to == 3 ? "broken server" : "dead port") + ": " + vf::esc(o.body, 60); }); ++bad; } } }); for (auto& t : ts) t.join(); }
    vf::note("requests beside failures", (std::uint64_t)okn); vf::note("failures reported", (std::uint64_t)bad); vf::check(vf::waitUntil([&] { return vf::countFds() <= fds && vf::countThreads() <= th; }, 5), "leak", [&] { return "descriptors " + S(fds) + " -> " + S(vf::countFds()) + ", threads " + S(th) + " -> " + S(vf::countThreads()); }); vf::sig(seed);
}
