// C04: thread pool under concurrent submitters, growth/shrink strategies, continuations and destruction.
#include "tracked.hpp"
#include <HXLibs/container/ThreadPool.hpp>
#include <HXLibs/coroutine/loop/EventLoop.hpp>
using namespace HX; using container::ThreadPool; using container::FutureResult; using container::Try; using vf::Tracked; using namespace std::chrono_literals;
namespace {
std::string S(long v) { return std::to_string(v); }
struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };
// every task runs under this gauge
struct Gauge { std::atomic<int> act{0}, peak{0}; std::atomic<long> ran{0};
    struct In { Gauge& g; explicit In(Gauge& g) : g(g) { int n = ++g.act; int p = g.peak; while (n > p && !g.peak.compare_exchange_weak(p, n)) {} ++g.ran; } ~In() { --g.act; } }; };
void spin(long us) { if (us < 5) return; if (us < 40) { auto e = std::chrono::steady_clock::now() + std::chrono::microseconds(us); while (std::chrono::steady_clock::now() < e) std::this_thread::yield(); } else std::this_thread::sleep_for(std::chrono::microseconds(us)); }
struct Conf { int fixed, mn, mx, strat; };
std::string name(Conf c) { static const char* s[] = {"default", "greedy", "flap", "random", "shrink"}; return c.fixed ? "fixed" + S(c.mn) : std::string(s[c.strat]) + S(c.mn) + "-" + S(c.mx); }
Conf conf(vf::Rng& r) { Conf c{r.chance(0.45), (int)r.range(1, 4), 0, (int)r.below(5)}; c.mx = c.mn + (int)r.range(0, 5); return c; }
void start(ThreadPool& p, Conf c, std::uint64_t sd) {
    if (c.fixed) { p.setFixedThreadNum((uint32_t)c.mn); p.run<ThreadPool::Model::FixedSizeAndNoCheck>(); return; }
    p.setMinThreadNum((uint32_t)c.mn); p.setMaxThreadNum((uint32_t)c.mx);
    switch (c.strat) {
    case 0: p.run<ThreadPool::Model::AsyncCheck>(1ms); break;
    case 1: p.run<ThreadPool::Model::AsyncCheck>(1ms, [](container::ThreadPoolData const& d) -> int { return d.taskNum ? 3 : -2; }); break;
    case 2: p.run<ThreadPool::Model::AsyncCheck>(1ms, [f = false](container::ThreadPoolData const&) mutable -> int { return (f = !f) ? 100 : -100; }); break;
    case 4: p.run<ThreadPool::Model::AsyncCheck>(1ms, [k = 0](container::ThreadPoolData const&) mutable -> int { return ++k <= 3 ? 100 : -5; }); break;
    default: p.run<ThreadPool::Model::AsyncCheck>(1ms, [r = vf::Rng(sd)](container::ThreadPoolData const&) mutable -> int { return (int)r.range(-6, 6); }); break;
    }
}
struct Cell { std::atomic<int> runs{0}; std::atomic<bool> done{false}, live{false}; };
// Submit one task of a random kind to the pool and judge its future.
struct Sub {
    ThreadPool& pool; Gauge& g; vf::Rng r; std::deque<Cell> cells; std::vector<std::pair<std::string, std::function<void()>>> later; std::uint64_t h = 0; long n = 0;
    Cell* cell() { cells.emplace_back(); return &cells.back(); }
    void seen(Cell* c, char const* what) { vf::check(c->done.load(std::memory_order_relaxed), "early", std::string("a future was ready before its task finished: ") + what); }
    template <class F> auto body(Cell* c, long us, F f) { return [this, c, us, f = std::move(f), tk = Tracked(us)]() mutable { Gauge::In in(g); ++c->runs; tk.self(); spin(us); struct D { Cell* c; ~D() { c->done.store(true, std::memory_order_relaxed); } } d{c}; return f(); }; }
    template <class Fut, class V> void judge(Fut fut, Cell* c, V val, std::string err, bool now) {
        auto p = std::make_shared<Fut>(std::move(fut));
        auto fn = [this, p, c, val, err, twoStep = r.chance(0.3)] {
            std::string got;
            try { if (twoStep) { p->wait(); seen(c, "wait"); } auto x = p->get(); if constexpr (std::is_same_v<V, long>) { if (x != val) got = "value " + S(x); } else if constexpr (std::is_same_v<V, std::string>) { if (x != val) got = "value " + x; } }
            catch (Boom& e) { got = e.what(); if (got == err) got.clear(), seen(c, "throw"); else if (err.empty()) got = "exception " + got; seen(c, "get"); if (!err.empty() && got.empty()) return; if (got.empty()) got = "?"; vf::fail("outcome", "future gave '" + got + "' instead of '" + err + "'"); return; }
            seen(c, "get"); if (!err.empty()) vf::fail("outcome", "future gave a value instead of exception '" + err + "'"); else if (!got.empty()) vf::fail("outcome", "future gave " + got); };
        if (now) fn(); else later.emplace_back("get", std::move(fn));
    }
    void one() {
        int k = (int)r.below(11); long us = r.chance(0.7) ? 0 : (long)r.below(300); bool now = r.chance(0.1); Cell* c = cell(); long v = (long)r.next() % 100000; std::string e = "E" + S(v); h = vf::mix(h + (std::uint64_t)k * 31 + (std::uint64_t)us); ++n;
        switch (k) {
        case 0: judge(pool.addTask(body(c, us, [v] { return v; })), c, v, "", now); break;
        case 1: judge(pool.addTask(body(c, us, [] {})), c, 0, "", now); break;
        case 2: judge(pool.addTask(body(c, us, [e]() -> long { throw Boom(e); })), c, 0L, e, now); break;
        case 3: judge(pool.addTask(body(c, us, [e]() { throw Boom(e); })), c, 0, e, now); break;
        case 4: judge(pool.addTask(body(c, us, [s = std::string(200, 'x') + S(v)] { return s; })), c, std::string(200, 'x') + S(v), "", now); break;
        case 5: (void)pool.addTask(body(c, us, [] { return std::make_unique<int>(3); })); break;    // future dropped
        case 6: (void)pool.addTask(body(c, us, []() -> int { throw Boom("dropped"); })); break;
        case 7: judge(pool.addTask([this, c, us](std::unique_ptr<long> a, std::string b, long d) { Gauge::In in(g); ++c->runs; spin(us); c->done = true; return *a + (long)b.size() + d; }, std::make_unique<long>(v), std::string("abc"), 4L), c, v + 7, "", now); break;
        case 8: { // value chain
            Cell* c2 = cell(); Cell* c3 = cell();
            judge(pool.addTask(body(c, us, [v] { return v; })).thenTry([this, c, c2, v](Try<long> t) { Gauge::In in(g); ++c2->runs; seen(c, "then"); if (!t.isVal() || t.get() != v) vf::fail("chain", "continuation got a wrong value"); c2->done = true; return std::to_string(t.get()); })
                .thenTry([this, c2, c3, v](Try<std::string> t) -> long { Gauge::In in(g); ++c3->runs; seen(c2, "then2"); std::string s = t.isVal() ? t.get() : "exc"; if (s != S(v)) vf::fail("chain", "second continuation got " + s); c3->done = true; if (v % 3 == 0) throw Boom("E3"); return v + 1; }), c3, v + 1, v % 3 == 0 ? "E3" : "", now); break; }
        case 9: { // exception chain: recovered, then Try result
            Cell* c2 = cell(); Cell* c3 = cell(); bool fail2 = r.chance(0.5); bool fail1 = r.chance(0.6);
            judge(pool.addTask(body(c, us, [e, v, fail1]() -> long { if (fail1) throw Boom(e); return v; })).thenTry([this, c, c2, e, v, fail1, fail2](Try<long> t) -> Try<std::string> { Gauge::In in(g); ++c2->runs; seen(c, "then"); std::string w; if (t.isVal()) { if (fail1) vf::fail("chain", "continuation of a failed task got a value"); else if (t.get() != v) vf::fail("chain", "continuation got a wrong value"); w = e; } else try { t.rethrow(); } catch (Boom& b) { w = b.what(); } if (w != e) vf::fail("chain", "continuation got exception '" + w + "'"); c2->done = true;
                    if (fail2) return Try<std::string>{std::make_exception_ptr(Boom("T2"))}; return Try<std::string>{std::string("ok")}; })
                .thenTry([this, c2, c3, fail2](Try<std::string> t) { Gauge::In in(g); ++c3->runs; seen(c2, "then2"); if (t.isVal() == fail2) vf::fail("chain", "a Try result changed sides"); if (fail2 && !t.isVal()) { std::string w; try { t.rethrow(); } catch (Boom& b) { w = b.what(); } catch (...) { w = "another type"; } if (w != "T2") vf::fail("chain", "the exception of a Try result became '" + w + "'"); } c3->done = true; }), c3, 0, "", now); break; }
        default: { // void chain ending in a nested submission
            Cell* c2 = cell(); Cell* c3 = cell(); auto* hold = new std::atomic<bool>(false);
            pool.addTask(body(c, us, [v] { if (v % 2) throw Boom("V"); })).thenTry([this, c, c2, v](Try<> t) { Gauge::In in(g); ++c2->runs; seen(c, "then"); if (t.isVal() == (v % 2 != 0)) vf::fail("chain", "void outcome wrong"); c2->done = true; })
                .thenTry([this, c3, hold](Try<> t) { Gauge::In in(g); if (!t.isVal()) vf::fail("chain", "void continuation failed"); return pool.addTask([this, c3, hold] { Gauge::In in(g); ++c3->runs; c3->done = true; *hold = true; }); });
            later.emplace_back("nested", [hold] { if (!vf::waitUntil([hold] { return hold->load(); }, 20)) vf::fail("lost", "a task submitted by a continuation never ran"); delete hold; }); break; }
        }
    }
    void finish() { r.shuffle(later); for (auto& l : later) l.second(); later.clear(); }
    long verify() { long bad = 0; for (auto& c : cells) { vf::waitUntil([&] { return c.runs.load() > 0; }, 20); if (c.runs != 1) { ++bad; vf::fail(c.runs ? "twice" : "lost", "a task ran " + S(c.runs) + " times"); break; } } return bad; }
};
int threadsNow() { return vf::countThreads(); }
// worker threads beyond those expected; a thread that has left the pool may take a moment to disappear from the kernel, so an excess has to last
int workers(int others, int mx) { int n = threadsNow() - others; for (int i = 0; n > mx && i < 150; ++i) { std::this_thread::sleep_for(1ms); n = std::min(n, threadsNow() - others); } return n; }
} // namespace
VF_SECTION("exact", 1600, 12000) {
    Conf c = conf(rng); int subs = (int)rng.range(1, 5), per = (int)rng.range(5, 70); std::uint64_t sd = rng.next(); bool before = rng.chance(0.15); vf::setCase(name(c) + " submitters=" + S(subs) + " tasks=" + S(per) + (before ? " queued before run" : ""));
    { Gauge g; std::deque<Sub> ss;
      { ThreadPool pool; for (int i = 0; i < subs; ++i) ss.push_back(Sub{pool, g, vf::Rng(vf::mix(sd + (std::uint64_t)i)), {}, {}, 0, 0});
        vf::Watch w("exact|" + name(c) + ": a task or future never completes", 40); int base = threadsNow();
        if (before) { Cell* x = ss[0].cell(); ss[0].judge(pool.addTask(ss[0].body(x, 0, [] { return 7L; })), x, 7L, "", false); }
        start(pool, c, sd);
        std::vector<std::thread> th; for (auto& s : ss) th.emplace_back([&, ps = &s] { for (int i = 0; i < per; ++i) { ps->one(); if (ps->r.chance(0.03)) spin(1500); } ps->finish(); });
        int peakT = 0; if (index % 3 == 0) for (int i = 0; i < 20; ++i) { peakT = std::max(peakT, workers(base + subs + 1, c.fixed ? c.mn : c.mx)); std::this_thread::sleep_for(200us); }
        for (auto& t : th) t.join();
        for (auto& s : ss) { s.verify(); }
        int mx = c.fixed ? c.mn : c.mx; vf::check(g.peak <= mx, "over-max", S(g.peak) + " tasks ran at once in a pool of at most " + S(mx)); vf::check(peakT <= mx, "over-max", S(peakT) + " worker threads in a pool of at most " + S(mx));
        if (rng.chance(0.5)) { // the promised minimum is still there: mn tasks can be in progress together
            std::atomic<int> in{0}; int need = c.mn; std::vector<FutureResult<bool>> fs; for (int i = 0; i < need; ++i) fs.push_back(pool.addTask([&] { ++in; return vf::waitUntil([&] { return in >= need; }, 12); }));
            for (auto& f : fs) if (!f.get()) { vf::fail("below-min", "the pool could not run " + S(need) + " tasks at once although that is its minimum"); break; } }
      }
      long ran = g.ran, exp = 0; for (auto& s : ss) for (auto& x : s.cells) { exp += 1; vf::check(x.runs == 1, "twice", "a task ran again during destruction"); } vf::check(ran >= exp, "lost", "missing runs");
      std::uint64_t h = 0; long n = 0; for (auto& s : ss) { h += s.h; n += s.n; } vf::eval((std::uint64_t)exp); vf::sig(h + (std::uint64_t)g.peak); vf::note("tasks", (std::uint64_t)exp); vf::note("peak_sum", (std::uint64_t)g.peak.load()); if (index < 3) vf::sample(name(c) + " tasks=" + S(exp) + " peak=" + S(g.peak)); }
    vf::noneLive("exact");
}
// Long tasks while the monitor flaps: never more workers than the maximum, never fewer than the minimum.
VF_SECTION("bounds", 90, 400) {
    Conf c{0, (int)rng.range(1, 3), 0, (int)rng.range(1, 4)}; c.mx = c.mn + (int)rng.range(1, 4); std::uint64_t sd = rng.next(); vf::setCase(name(c));
    Gauge g; std::atomic<long> done{0}; int N = (int)rng.range(10, 60);
    { ThreadPool pool; int base = threadsNow(); start(pool, c, sd); vf::Watch w("bounds|" + name(c) + ": tasks never finish", 40); int peak = 0;
      for (int i = 0; i < N; ++i) { (void)pool.addTask([&, us = (long)rng.range(500, 9000)] { Gauge::In in(g); spin(us); ++done; }); if (rng.chance(0.3)) { std::this_thread::sleep_for(1ms); peak = std::max(peak, workers(base + 1, c.mx)); } }
      while (done < N) { peak = std::max(peak, workers(base + 1, c.mx)); std::this_thread::sleep_for(300us); }
      vf::check(peak <= c.mx, "over-max", S(peak) + " worker threads in a pool of at most " + S(c.mx)); vf::check(g.peak <= c.mx, "over-max", S(g.peak) + " tasks at once in a pool of at most " + S(c.mx));
      std::atomic<int> in{0}; std::vector<FutureResult<bool>> fs; for (int i = 0; i < c.mn; ++i) fs.push_back(pool.addTask([&] { ++in; return vf::waitUntil([&] { return in >= c.mn; }, 12); })); for (auto& f : fs) if (!f.get()) { vf::fail("below-min", "fewer workers than the minimum of " + S(c.mn)); break; }
      vf::eval((std::uint64_t)N); vf::sig(name(c) + S(peak) + "/" + S(g.peak) + "/" + S(N)); }
}
// Destruction at any moment: started tasks finish, the others are dropped; nothing leaks, hangs or runs twice.
VF_SECTION("destroy", 1600, 12000) {
    Conf c = conf(rng); int n = (int)rng.range(0, 60); std::uint64_t sd = rng.next(); long us = rng.chance(0.5) ? 0 : (long)rng.below(400), wait = rng.chance(0.5) ? 0 : (long)rng.below(3000); vf::setCase(name(c) + " n=" + S(n) + " wait=" + S(wait)); bool chains = rng.chance(0.5);
    { std::deque<Cell> cells((std::size_t)n); std::vector<FutureResult<long>> fs; std::atomic<int> during{0};
      { vf::Watch w("destroy|" + name(c) + ": destruction never returns", 30); auto pool = std::make_unique<ThreadPool>(); start(*pool, c, sd);
        for (int i = 0; i < n; ++i) { auto* x = &cells[(std::size_t)i]; auto f = pool->addTask([x, us, tk = Tracked(1), arr = std::make_unique<int>(3), &during] { x->live = true; ++during; ++x->runs; tk.self(); spin(us); x->done = true; --during; return 5L; });
            if (chains && i % 2) fs.push_back(std::move(f).thenTry([tk = Tracked(2)](Try<long> t) -> long { tk.self(); return t.isVal() ? t.get() : 0; })); else fs.push_back(std::move(f)); }
        spin(wait); pool.reset(); }
      vf::check(during == 0, "still-running", "a task was still running after the pool was destroyed"); long ran = 0; for (auto& x : cells) { ran += x.runs; vf::check(x.runs <= 1 && x.done == x.live, "cut", "a task was cut off or ran twice"); }
      for (int i = 0; i < n; ++i) if (cells[(std::size_t)i].runs && !(chains && i % 2)) { long v = fs[(std::size_t)i].get(); vf::check(v == 5, "outcome", "wrong value after destruction"); }
      vf::note("dropped_tasks", (std::uint64_t)(n - ran)); vf::eval((std::uint64_t)n + 1); vf::sig(name(c) + S(n) + "/" + S(ran)); }
    vf::noneLive("destroy");
}
// Futures consumed from several places: two waiters on one state, futures outliving the pool, awaited on an event loop.
VF_SECTION("futures", 700, 4000) {
    Conf c = conf(rng); std::uint64_t sd = rng.next(); int n = (int)rng.range(1, 20); vf::setCase(name(c));
    { std::vector<FutureResult<std::string>> keep; std::vector<FutureResult<>> keepV; std::atomic<int> bad{0};
      { ThreadPool pool; start(pool, c, sd); vf::Watch w("futures|never ready", 30);
        for (int i = 0; i < n; ++i) { keep.push_back(pool.addTask([i, us = (long)rng.below(200)] { spin(us); if (i % 3 == 0) throw Boom("b" + S(i)); return "v" + S(i); })); keepV.push_back(pool.addTask([i, us = (long)rng.below(200)] { spin(us); if (i % 3 == 1) throw Boom("w" + S(i)); })); }
        std::vector<std::thread> th; for (int k = 0; k < 3; ++k) th.emplace_back([&] { for (int i = 0; i < n; ++i) { bool t = false; try { keep[(std::size_t)i].wait(); } catch (Boom&) { t = true; } if (t != (i % 3 == 0)) ++bad; t = false; try { keepV[(std::size_t)i].wait(); } catch (Boom&) { t = true; } if (t != (i % 3 == 1)) ++bad; } });
        for (auto& t : th) t.join(); }
      for (int i = 0; i < n; ++i) { std::string g; try { g = keep[(std::size_t)i].get(); } catch (Boom& b) { g = b.what(); } if (g != (i % 3 == 0 ? "b" : "v") + S(i)) ++bad; }
      vf::check(bad == 0, "outcome", S(bad) + " wrong outcomes with several waiters"); vf::eval((std::uint64_t)n * 7); vf::sig("fut" + S(n) + name(c)); }
    { ThreadPool pool; start(pool, c, sd); coroutine::EventLoop loop; int fin = 0, bad = 0; auto self = std::this_thread::get_id();
      auto task = [&](int i, long us) -> coroutine::Task<> { std::string g; try { g = co_await pool.addTask([i, us] { spin(us); if (i % 3 == 0) throw Boom("b" + S(i)); return "v" + S(i); }).thenTry([](Try<std::string> t) -> Try<std::string> { return t; }).via(loop); } catch (Boom& b) { g = b.what(); }
          if (g != (i % 3 == 0 ? "b" : "v") + S(i) || std::this_thread::get_id() != self) ++bad; ++fin; };
      std::vector<std::unique_ptr<coroutine::Task<>>> ts; for (int i = 0; i < n; ++i) ts.push_back(std::make_unique<coroutine::Task<>>(task(i, (long)rng.below(150)))); for (auto& t : ts) loop.start(*t);
      { vf::Watch w("futures|the loop never returns", 30); loop.run(); } vf::check(fin == n && bad == 0, "via", S(n - fin) + " lost, " + S(bad) + " wrong"); }
}
