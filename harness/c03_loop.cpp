// C03: histories of sleeps, yields, cancellations, I/O and thread work on one loop, checked online against a pending-set model.
#include "tracked.hpp"
#include <csignal>
#include <pthread.h>
#include <sys/socket.h>
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <HXLibs/coroutine/awaiter/WhenAll.hpp>
#include <HXLibs/coroutine/awaiter/WhenAny.hpp>
#include <HXLibs/coroutine/task/RootTask.hpp>
#include <HXLibs/container/ThreadPool.hpp>
using namespace HX; using coroutine::Task; using vf::Tracked; using namespace std::chrono_literals;
using SC = std::chrono::system_clock;
namespace {
std::string S(long v) { return std::to_string(v); }
long us(SC::duration d) { return (long)std::chrono::duration_cast<std::chrono::microseconds>(d).count(); }
// Online monitor: what is asleep / queued, in which order it must come back.
struct Mon {
    std::set<std::tuple<SC::time_point, long>> asleep; std::set<long> yields; long seq = 0, events = 0, cancels = 0; std::uint64_t h = 0;
    long maxLate = 0; bool busy = false;
    struct Sleep { Mon* m; std::tuple<SC::time_point, long> k; bool live = true;
        Sleep(Mon& m, SC::time_point tp) : m(&m), k(tp, m.seq++) { m.asleep.insert(k); }
        Sleep(Sleep const&) = delete;
        void resumed() { live = false; ++m->events; auto now = SC::now(); m->h = vf::mix(m->h + (std::uint64_t)std::get<1>(k));
            if (now < std::get<0>(k)) vf::fail("early", "a sleeper resumed " + S(us(std::get<0>(k) - now)) + " us before its deadline");
            m->maxLate = std::max(m->maxLate, us(now - std::get<0>(k)));
            if (!m->asleep.count(k)) { vf::fail("twice", "a sleeper resumed that was not asleep"); return; }
            if (*m->asleep.begin() != k) { auto& b = *m->asleep.begin(); vf::fail(std::get<0>(b) == std::get<0>(k) ? "fifo" : "order",
                "sleeper " + S(std::get<1>(k)) + " resumed before sleeper " + S(std::get<1>(b)) + " whose deadline is " + S(us(std::get<0>(k) - std::get<0>(b))) + " us earlier"); }
            m->asleep.erase(k); }
        ~Sleep() { if (live) { ++m->cancels; m->asleep.erase(k); } } };
    struct Yield { Mon* m; long k; bool live = true;
        explicit Yield(Mon& m) : m(&m), k(m.seq++) { m.yields.insert(k); }
        Yield(Yield const&) = delete;
        void resumed() { live = false; ++m->events; m->h = vf::mix(m->h * 3 + (std::uint64_t)k);
            if (!m->yields.count(k)) { vf::fail("twice", "a yielder resumed that was not queued"); return; }
            if (*m->yields.begin() != k) vf::fail("yield-order", "yielder " + S(k) + " resumed before " + S(*m->yields.begin()));
            m->yields.erase(k); }
        ~Yield() { if (live) { ++m->cancels; m->yields.erase(k); } } };
};
Task<> msleep(coroutine::EventLoop& loop, Mon& m, SC::time_point tp) { Mon::Sleep s(m, tp); co_await loop.makeTimer().sleepUntil(tp); s.resumed(); }
Task<> myield(coroutine::EventLoop& loop, Mon& m) { Mon::Yield y(m); co_await loop.makeTimer().yield(); y.resumed(); }
struct World { coroutine::EventLoop& loop; Mon m; vf::Rng& rng; SC::time_point t0 = SC::now(); int live = 0, started = 0; std::vector<std::unique_ptr<Task<>>> slots; std::vector<bool> done;
    std::vector<SC::duration> grid; };
// a random actor: sleeps, yields, spawns siblings, cancels siblings
Task<> actor(World& w, std::size_t me, int budget, Tracked) {
    ++w.started;
    for (int i = 0; i < budget; ++i) {
        switch (w.rng.below(9)) {
        case 0: case 1: { auto tp = w.rng.chance(0.6) ? w.t0 + w.rng.pick(w.grid) : SC::now() + std::chrono::microseconds(w.rng.range(-300, 2500)); co_await msleep(w.loop, w.m, tp); break; }
        case 2: case 3: co_await myield(w.loop, w.m); break;
        case 4: { auto before = SC::now(); auto d = std::chrono::microseconds(w.rng.below(2000)); co_await w.loop.makeTimer().sleepFor(d); if (SC::now() < before + d) vf::fail("early", "sleepFor returned early"); break; }
        case 5: { // a sleep that loses against a yield or a shorter sleep
            auto tp = SC::now() + std::chrono::milliseconds(w.rng.range(1, 100000));
            if (w.rng.chance(0.5)) { auto r = co_await coroutine::whenAny(msleep(w.loop, w.m, tp), myield(w.loop, w.m)); vf::check(r.index() == 1, "cancel-winner", "a later timer beat a yield"); }
            else { auto r = co_await coroutine::whenAny(msleep(w.loop, w.m, tp), msleep(w.loop, w.m, w.t0 + w.rng.pick(w.grid))); (void)r; } break; }
        case 6: if (w.slots.size() < 40) { // spawn
            std::size_t s = w.slots.size(); w.done.push_back(false); w.slots.push_back(nullptr); w.slots[s] = std::make_unique<Task<>>(actor(w, s, (int)w.rng.range(1, 6), Tracked(1))); w.loop.start(*w.slots[s]); } break;
        case 7: { // destroy a sibling that is suspended (never an ancestor: actors are all roots, and only this one is running)
            std::size_t s = w.rng.below(w.slots.size()); if (s != me && w.slots[s] && w.rng.chance(0.5) && s > me) { w.done[s] = true; w.slots[s].reset(); } break; }
        default: { auto a = SC::now() + std::chrono::microseconds(w.rng.below(1500)), b = w.rng.chance(0.3) ? a : SC::now() + std::chrono::microseconds(w.rng.below(1500));
            co_await coroutine::whenAll(msleep(w.loop, w.m, a), msleep(w.loop, w.m, b), myield(w.loop, w.m)); break; }
        }
    }
    w.done[me] = true;
}
} // namespace
VF_SECTION("histories", 1600, 30000) {
    { coroutine::EventLoop loop; World w{loop, {}, rng, SC::now(), 0, 0, {}, {}, {}}; for (int i = 0; i < 6; ++i) w.grid.push_back(std::chrono::microseconds(rng.range(-1000, 6000)));
      int n = (int)rng.range(1, 12); vf::setCase(S(n) + " actors"); w.slots.reserve(64); w.done.reserve(64);
      for (int i = 0; i < n; ++i) { std::size_t s = w.slots.size(); w.done.push_back(false); w.slots.push_back(std::make_unique<Task<>>(actor(w, s, (int)rng.range(1, 10), Tracked(1)))); }
      for (std::size_t i = 0; i < (std::size_t)n; ++i) if (w.slots[i]) loop.start(*w.slots[i]);
      loop.run();
      long un = 0; for (bool d : w.done) un += !d; vf::check(un == 0, "exit-early", "run() returned with " + S(un) + " coroutines unfinished");
      vf::check(w.m.asleep.empty() && w.m.yields.empty(), "exit-early", "run() returned with " + S((long)w.m.asleep.size()) + " sleepers and " + S((long)w.m.yields.size()) + " yielders left");
      vf::check(w.m.maxLate < 3000000, "late", "a sleeper resumed " + S(w.m.maxLate) + " us after its deadline");
      vf::eval((std::uint64_t)w.m.events); vf::sig(w.m.h); vf::note("resumes", (std::uint64_t)w.m.events); vf::note("cancelled", (std::uint64_t)w.m.cancels); }
    vf::noneLive("histories");
}
// many sleepers on few deadlines, registered in random order from different places
VF_SECTION("bulk-order", 60, 600) {
    { coroutine::EventLoop loop; Mon m; int n = (int)rng.range(200, 1500), fin = 0; auto base = SC::now() + 3ms; std::vector<std::unique_ptr<Task<>>> ts; vf::setCase(S(n) + " sleepers");
      auto one = [](coroutine::EventLoop& l, Mon& m, SC::time_point tp, int& fin) -> Task<> { co_await msleep(l, m, tp); ++fin; };
      for (int i = 0; i < n; ++i) ts.push_back(std::make_unique<Task<>>(one(loop, m, base + std::chrono::microseconds(rng.below(8) * 400), fin)));
      for (auto& t : ts) loop.start(*t);
      int cancelled = 0; for (auto& t : ts) if (rng.chance(0.2)) { t.reset(); ++cancelled; }
      loop.run(); vf::check(fin == n - cancelled, "exit-early", S(n - cancelled - fin) + " sleepers never resumed"); vf::check(SC::now() < base + 4s, "late", "the last sleepers were more than 4 s late");
      vf::eval((std::uint64_t)n); vf::sig(m.h); }
}
// no kind of work starves another: each kind must finish while endless work of the others goes on
VF_SECTION("progress", 90, 900) {
    int watch = (int)(index % 4); int noise = (int)rng.range(1, 15); vf::setCase("progress of kind " + S(watch) + " among noise mask " + S(noise));
    static const char* nm[] = {"timer", "yield", "io", "thread"};
    { container::ThreadPool pool; pool.setFixedThreadNum(2); pool.run<container::ThreadPool::Model::FixedSizeAndNoCheck>();
      { coroutine::EventLoop loop; bool stop = false; long ticks[4] = {0, 0, 0, 0}; int sv[2], nv[2]; if (::socketpair(AF_UNIX, SOCK_STREAM, 0, sv) || ::socketpair(AF_UNIX, SOCK_STREAM, 0, nv)) return;
        auto step = [&](int kind, int* fd) -> Task<> {
            if (kind == 0) co_await loop.makeTimer().sleepFor(100us);
            else if (kind == 1) co_await loop.makeTimer().yield();
            else if (kind == 2) { char c = 'q'; if (::write(fd[1], &c, 1) != 1) vf::fail("harness", "write"); std::span<char> sp{&c, 1}; int r = co_await loop.makeAioTask().prepRecv(fd[0], sp, 0); if (r != 1) vf::fail("io", "recv " + S(r)); }
            else { int v = co_await pool.addTask([] { std::this_thread::sleep_for(50us); return 5; }).via(loop); if (v != 5) vf::fail("via", "wrong value"); } };
        auto nz = [&](int kind) -> Task<> { while (!stop) { co_await step(kind, nv); ++ticks[kind]; } };
        auto main = [&]() -> Task<> { auto t0 = std::chrono::steady_clock::now(); for (int i = 0; i < 12; ++i) co_await step(watch, sv); stop = true;
            auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count(); vf::check(ms < 8000, "starved", std::string(nm[watch]) + " work needed " + S((long)ms) + " ms next to others"); };
        std::vector<std::unique_ptr<Task<>>> ts; for (int k = 0; k < 4; ++k) if (noise & (1 << k)) for (int j = 0; j < (k == 2 ? 1 : 3); ++j) ts.push_back(std::make_unique<Task<>>(nz(k)));
        ts.push_back(std::make_unique<Task<>>(main()));
        { vf::Watch w("starved|" + std::string(nm[watch]) + " never completes", 25); for (auto& t : ts) loop.start(*t); loop.run(); }
        vf::check(stop, "exit-early", "run() returned although work was pending");
        for (int k = 0; k < 4; ++k) if (noise & (1 << k)) { vf::check(ticks[k] > 0, "starved", std::string(nm[k]) + " noise made no step"); vf::note(std::string("ticks_") + nm[k], (std::uint64_t)ticks[k]); }
        vf::eval((std::uint64_t)(ticks[0] + ticks[1] + ticks[2] + ticks[3] + 12)); vf::sig(S(watch) + "/" + S(noise) + "/" + S(ticks[0]) + "/" + S(ticks[2]));
        for (int* p : {sv, nv}) { ::close(p[0]); ::close(p[1]); } } }
}
// the loop ends exactly when nothing is left: cancelled far timers and cancelled I/O must not keep it alive
VF_SECTION("exit", 240, 2400) {
    int kind = (int)rng.below(5); vf::setCase("exit kind " + S(kind)); int sv[2]; if (::socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return;
    { coroutine::EventLoop loop; Mon m; bool fin = false; auto t0 = std::chrono::steady_clock::now();
      auto mainT = [&]() -> Task<> {
        char b[4];
        switch (kind) {
        case 0: co_await coroutine::whenAny(msleep(loop, m, SC::now() + 1h), msleep(loop, m, SC::now() + 500us)); break;
        case 1: { auto t = msleep(loop, m, SC::now() + 1h); loop.start(t); co_await myield(loop, m); break; }
        case 2: co_await coroutine::whenAny(loop.makeAioTask().prepRecv(sv[0], b, 0), loop.makeTimer().sleepFor(300us)); break;
        case 3: { auto t = [](coroutine::EventLoop& l, int fd) -> Task<> { char b[4]; co_await l.makeAioTask().prepRecv(fd, b, 0); vf::fail("io", "a destroyed receive resumed"); }(loop, sv[0]); loop.start(t); co_await loop.makeTimer().sleepFor(300us); break; }
        default: co_await msleep(loop, m, SC::now() - 1h); co_await msleep(loop, m, SC::time_point{}); co_await myield(loop, m); break;
        }
        fin = true; };
      auto r = loop.trySync(mainT()); auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
      vf::check(fin && r.isVal(), "exit-early", "the main task did not finish"); vf::check(ms < 3000, "exit-late", "run() returned " + S((long)ms) + " ms after start although nothing was left to do");
      vf::check(m.asleep.empty() && m.yields.empty(), "exit-early", "pending timers after the end");
      // the loop is reusable
      bool again = false; auto second = [&]() -> Task<> { co_await loop.makeTimer().sleepFor(100us); again = true; }; loop.trySync(second()); vf::check(again, "reuse", "a second run on the loop did nothing"); }
    ::close(sv[0]); ::close(sv[1]); vf::eval(2); vf::sig("exit" + S(kind) + S((long)rng.below(50)));
}
// thread work resumes on the loop's thread, in every order of completion and with every mix of other work
VF_SECTION("via", 120, 1200) {
    { container::ThreadPool pool; pool.setFixedThreadNum((uint32_t)rng.range(1, 4)); pool.run<container::ThreadPool::Model::FixedSizeAndNoCheck>();
      int loops = (int)rng.range(1, 3), n = (int)rng.range(1, 30); std::atomic<int> wrong{0}, fin{0}; std::uint64_t sd = rng.next(); vf::setCase(S(loops) + " loops x " + S(n) + " futures");
      std::vector<std::thread> th; for (int l = 0; l < loops; ++l) th.emplace_back([&, l] {
        vf::Rng r(vf::mix(sd + (std::uint64_t)l)); coroutine::EventLoop loop; auto self = std::this_thread::get_id(); Mon m;
        auto one = [&](int i, long d, bool thr, bool pre) -> Task<> {
            if (pre) co_await loop.makeTimer().sleepFor(std::chrono::microseconds(d)); bool ok = false;
            try { std::string s = co_await pool.addTask([i, d, thr] { if (d % 3) std::this_thread::sleep_for(std::chrono::microseconds(d)); if (thr) throw std::runtime_error("e" + S(i)); return std::string("v") + S(i); }).via(loop); ok = !thr && s == "v" + S(i); }
            catch (std::runtime_error& e) { ok = thr && e.what() == "e" + S(i); }
            if (!ok || std::this_thread::get_id() != self) ++wrong;
            if (i % 4 == 0) co_await loop.makeTimer().yield();
            ++fin; };
        std::vector<std::unique_ptr<Task<>>> ts; for (int i = 0; i < n; ++i) ts.push_back(std::make_unique<Task<>>(one(i, (long)r.below(600), r.chance(0.3), r.chance(0.5))));
        for (auto& t : ts) loop.start(*t); loop.run(); });
      { vf::Watch w("via-hang|a loop waiting for thread work never returns", 30); for (auto& t : th) t.join(); }
      vf::check(wrong == 0, "via-wrong", S(wrong) + " futures gave a wrong outcome or resumed on a foreign thread"); vf::check(fin == loops * n, "via-lost", S(loops * n - fin) + " coroutines were never resumed"); vf::eval((std::uint64_t)(loops * n)); vf::sig("via" + S((long)sd)); }
}

// deadlines at the ends of the clock's range: those in the past resume at once, those in the far future never do
VF_SECTION("limits", 240, 2400) {
    using D = SC::duration; using TP = SC::time_point; int kind = (int)rng.below(6); vf::setCase("limits kind " + S(kind));
    { coroutine::EventLoop loop; Mon m; bool fin = false; int early = 0; auto t0 = std::chrono::steady_clock::now(); bool first = rng.chance(0.5);
      auto far = [&](int k) -> Task<> { Tracked live(1); D d = k % 3 == 0 ? D::max() : k % 3 == 1 ? D::max() - D(rng.below(1000000)) : std::chrono::duration_cast<D>(std::chrono::hours(24 * 365 * 100)); if (k & 4) co_await loop.makeTimer().sleepUntil(k & 1 ? TP::max() : TP(D::max() - D(5))); else co_await loop.makeTimer().sleepFor(d); ++early; };
      auto past = [&](int k) -> Task<> { if (k % 3 == 0) co_await loop.makeTimer().sleepUntil(TP::min()); else if (k % 3 == 1) co_await loop.makeTimer().sleepFor(D::min()); else co_await loop.makeTimer().sleepFor(-std::chrono::hours(rng.below(1000000))); };
      auto mainT = [&]() -> Task<> { Tracked live(1); if (!first) co_await msleep(loop, m, SC::now() + std::chrono::microseconds(rng.below(800)));
        std::vector<std::unique_ptr<Task<>>> fs; for (int i = 0; i < kind; ++i) { fs.push_back(std::make_unique<Task<>>(far((int)rng.below(8)))); loop.start(*fs.back()); }
        for (int i = 0; i < 4; ++i) { co_await past((int)rng.below(3)); if (rng.chance(0.5)) co_await msleep(loop, m, SC::now() + std::chrono::microseconds(rng.below(400))); }
        if (rng.chance(0.5)) co_await coroutine::whenAny(far((int)rng.below(8)), msleep(loop, m, SC::now() + 300us));
        fin = true; };
      { vf::Watch w("late|a deadline in the past keeps the loop waiting", 20); auto r = loop.trySync(mainT()); vf::check(fin && r.isVal(), "exit-early", "the main task did not finish"); }
      auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count(); vf::check(ms < 3000, "late", "a deadline in the past took " + S((long)ms) + " ms"); vf::check(early == 0, "early", S(early) + " sleepers until the end of time resumed"); }
    vf::noneLive("limits"); vf::eval(6); vf::sig("limits" + S(kind) + S((long)rng.below(1000)));
}
// each step can only end after the one before it has been continued: whatever the loop waits for, what becomes ready is continued
VF_SECTION("rely", 160, 2000) { auto& r = rng;
    int n = (int)r.range(2, 12); std::vector<int> kind; std::string plan; for (int i = 0; i < n; ++i) { kind.push_back((int)r.below(4)); plan += "tyix"[kind.back()]; } bool sig = r.chance(0.5); vf::setCase("chain " + plan + (sig ? " with signals" : "")); if (sig) { struct sigaction sa{}; sa.sa_handler = [](int) {}; ::sigaction(SIGUSR2, &sa, nullptr); }
    { container::ThreadPool pool; pool.setFixedThreadNum((uint32_t)(2 * n + 1)); pool.run<container::ThreadPool::Model::FixedSizeAndNoCheck>(); /* a continuation waits on a worker of its own */ std::vector<std::array<int, 2>> sv((std::size_t)n); for (auto& s : sv) if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, s.data())) return;
      std::deque<std::atomic_bool> flag((std::size_t)n); int done = 0; std::string order; std::atomic_bool end{false}; auto loopThread = ::pthread_self(); std::thread sigs; std::uint64_t sd = r.next(); auto release = [&](std::size_t i) { if (i < (std::size_t)n) { flag[i] = true; char c = 'g'; if (::write(sv[i][1], &c, 1) != 1) vf::fail("harness", "write"); } };
      { coroutine::EventLoop loop; auto step = [&](std::size_t i) -> Task<> { Tracked live(1); switch (kind[i]) {
            case 0: while (!flag[i]) co_await loop.makeTimer().sleepFor(std::chrono::milliseconds(vf::mix(sd + i) % 20)); break;
            case 1: while (!flag[i]) { co_await loop.makeTimer().yield(); if (vf::mix(sd + i) % 3 == 0) co_await loop.makeTimer().sleepFor(50us); } break;
            case 2: { char c = 0; std::span<char> sp{&c, 1}; int x = co_await loop.makeAioTask().prepRecv(sv[i][0], sp, 0); if (x != 1 || c != 'g') vf::fail("io", "recv " + S(x)); break; }
            default: { long v = co_await pool.addTask([&f = flag[i], i] { while (!f) std::this_thread::sleep_for(100us); return (long)i; }).via(loop); if (v != (long)i) vf::fail("via", "wrong value"); } }
            ++done; order += (char)('a' + i); release(i + 1); };
        std::vector<std::unique_ptr<Task<>>> ts; for (int i = 0; i < n; ++i) ts.push_back(std::make_unique<Task<>>(step((std::size_t)i))); r.shuffle(ts); bool pre = r.chance(0.5); std::thread ext; if (pre) release(0); else ext = std::thread([&] { std::this_thread::sleep_for(2ms); release(0); });
        if (sig) sigs = std::thread([&] { while (!end) { ::pthread_kill(loopThread, SIGUSR2); std::this_thread::sleep_for(300us); } });
        { vf::Watch w("rely|a step that became ready is not continued while others are pending: " + plan, 30); for (auto& t : ts) loop.start(*t); loop.run(); } end = true; if (sigs.joinable()) sigs.join(); if (ext.joinable()) ext.join(); }
      std::string want; for (int i = 0; i < n; ++i) want += (char)('a' + i); vf::check(order == want, "rely-order", [&] { return "the steps ended in the order " + order; }); for (auto& s : sv) { ::close(s[0]); ::close(s[1]); } }
    vf::noneLive("rely"); vf::eval((std::uint64_t)n); vf::sig(plan);
}
// a pool goes away with work queued that a loop waits for: that work is dropped, and the loop is not kept waiting for it
VF_SECTION("dropped", 60, 700) { auto& r = rng;
    int n = (int)r.range(1, 8), busyUs = (int)r.below(4000); bool other = r.chance(0.4); vf::setCase(S(n) + " queued pieces of thread work dropped"); std::atomic_int ran{0}; int resumed = 0;
    { coroutine::EventLoop loop; auto pool = std::make_unique<container::ThreadPool>(); pool->setFixedThreadNum(1); pool->run<container::ThreadPool::Model::FixedSizeAndNoCheck>(); std::atomic_bool started{false}; (void)pool->addTask([&] { started = true; std::this_thread::sleep_for(std::chrono::microseconds(busyUs)); }); while (!started) std::this_thread::yield();
      auto one = [&]() -> Task<> { Tracked live(1); long v = co_await pool->addTask([&, t = Tracked(2)] { ++ran; return 7L; }).via(loop); resumed += v == 7; }; auto side = [&]() -> Task<> { co_await loop.makeTimer().sleepFor(1ms); };
      std::vector<std::unique_ptr<Task<>>> ts; for (int i = 0; i < n; ++i) ts.push_back(std::make_unique<Task<>>(one())); if (other) ts.push_back(std::make_unique<Task<>>(side()));
      vf::Watch w("dropped|run() waits for thread work that was dropped with its pool", 30); for (auto& t : ts) loop.start(*t); std::thread killer([&, us = (int)r.below(3000)] { std::this_thread::sleep_for(std::chrono::microseconds(us)); pool.reset(); }); loop.run(); killer.join(); loop.run(); }
    vf::check(resumed <= ran /* the continuation may be dropped as well */, "via-lost", [&] { return S(ran) + " pieces of thread work were done, " + S(resumed) + " coroutines resumed"; }); vf::noneLive("dropped"); vf::eval((std::uint64_t)n); vf::sig(S(n) + "/" + S(resumed)); vf::note("thread work dropped", (std::uint64_t)(n - ran));
}
