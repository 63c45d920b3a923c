// C05: random histories of submissions to a serial executor, judged online against a FIFO model.
#include "tracked.hpp"
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <HXLibs/coroutine/executor/SerialExecutor.hpp>
#include <HXLibs/coroutine/executor/SerialExecutorPro.hpp>
#include <deque>
using namespace HX; using coroutine::Task; using vf::Tracked; using namespace std::chrono_literals;
namespace {
std::string S(long v) { return std::to_string(v); }
struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };
struct Mon {
    std::deque<long> waiting; long active = -1, ids = 0, events = 0, started = 0, dropped = 0, resumed = 0; std::uint64_t h = 0; std::map<long, int> state;   // 0 submitted 1 running 2 done 3 resumed 4 dropped
    long submit() { long id = ids++; waiting.push_back(id); state[id] = 0; return id; }
    void start(long id) { ++events; ++started; h = vf::mix(h * 7 + (std::uint64_t)id);
        if (state[id] == 4) vf::fail("dropped-ran", "task " + S(id) + " was dropped by clear() and still ran");
        else if (state[id] != 0) vf::fail("twice", "task " + S(id) + " started twice");
        if (active >= 0) vf::fail("overlap", "task " + S(id) + " started while task " + S(active) + " was running");
        if (waiting.empty() || waiting.front() != id) vf::fail("order", "task " + S(id) + " started before " + (waiting.empty() ? "?" : S(waiting.front())));
        else waiting.pop_front(); active = id; state[id] = 1; }
    void end(long id) { ++events; h = vf::mix(h * 5 + (std::uint64_t)id); if (active != id) vf::fail("overlap", "task " + S(id) + " ended while " + S(active) + " was the running one"); active = -1; state[id] = 2; }
    void back(long id) { ++events; ++resumed; h = vf::mix(h * 3 + (std::uint64_t)id); if (state[id] != 2) vf::fail("early-resume", "the submitter of task " + S(id) + " resumed in state " + S(state[id])); state[id] = 3; }
    void clear() { for (long id : waiting) { state[id] = 4; ++dropped; } waiting.clear(); }
};
template <class Ex> struct World { coroutine::EventLoop& loop; vf::Rng& rng; std::unique_ptr<Ex> ex; Mon m; bool gone = false; int live = 0; };
template <class Ex> Task<> sub(World<Ex>& w, long d) { switch (d % 4) { case 0: break; case 1: co_await w.loop.makeTimer().yield(); break; case 2: co_await w.loop.makeTimer().sleepFor(std::chrono::microseconds(d)); break; default: co_await w.loop.makeTimer().yield(); co_await w.loop.makeTimer().sleepFor(std::chrono::microseconds(d / 2)); } }
template <class Ex> Task<> job(World<Ex>& w, long id, int steps, bool thr, Tracked tk) {
    w.m.start(id); struct E { World<Ex>& w; long id; bool armed = true; ~E() { if (armed) { if (!w.gone) vf::fail("cut", "task " + S(id) + " was destroyed while running"); } } } e{w, id};
    for (int i = 0; i < steps; ++i) co_await sub(w, (long)w.rng.below(600));
    tk.self(); e.armed = false; w.m.end(id); if (thr) throw Boom("j" + S(id));
}
template <class Ex> Task<> actor(World<Ex>& w, int n, Tracked) {
    ++w.live;
    for (int i = 0; i < n; ++i) {
        if (w.rng.chance(0.4)) co_await sub(w, (long)w.rng.below(900));
        bool thr = w.rng.chance(0.2); long id = w.m.submit(); auto t = job(w, id, (int)w.rng.below(4), thr, Tracked(id)); bool got = false;
        try { co_await w.ex->serial(t); } catch (Boom& b) { got = true; if (b.what() != "j" + S(id)) vf::fail("exception", "the submitter of " + S(id) + " got exception " + b.what()); }
        if (got != thr) vf::fail("exception", got ? "unexpected exception" : "the exception of a submitted task was swallowed");
        w.m.back(id);
    }
    --w.live;
}
template <class Ex> std::unique_ptr<Ex> make(coroutine::EventLoop& l) { if constexpr (std::is_constructible_v<Ex, coroutine::EventLoop&>) return std::make_unique<Ex>(l); else return std::make_unique<Ex>(); }
// mode 0 plain, 1 clears in between, 2 everything torn down mid-way
template <class Ex> Task<> control(World<Ex>& w, std::vector<std::unique_ptr<Task<>>>& as, int mode) {
    co_await sub(w, (long)w.rng.range(2, 3000) / 4 * 4 + 2);
    if (mode == 1) { for (int k = (int)w.rng.range(1, 4); k--;) { w.ex->clear(); w.m.clear(); co_await sub(w, (long)w.rng.range(100, 1200) / 4 * 4 + 2); } }
    else if (mode == 2) { w.gone = true; bool exFirst = w.rng.chance(0.5); w.m.clear(); if (w.rng.chance(0.5)) w.ex->clear(); if (exFirst) w.ex.reset(); w.rng.shuffle(as); for (auto& a : as) a.reset(); w.ex.reset();
        // a fresh executor works
        w.gone = false; w.m.active = -1; w.ex = make<Ex>(w.loop); for (int i = 0; i < 2; ++i) { long id = w.m.submit(); auto t = job(w, id, 1, false, Tracked(1)); co_await w.ex->serial(t); w.m.back(id); } }
}
template <class Ex> void history(vf::Rng& rng, int mode, char const* nm) {
    { coroutine::EventLoop loop; World<Ex> w{loop, rng, nullptr, {}, false, 0}; w.ex = make<Ex>(loop); int n = (int)rng.range(1, 10), per = (int)rng.range(1, 6); vf::setCase(std::string(nm) + " mode " + S(mode) + " actors " + S(n) + " x " + S(per));
      std::vector<std::unique_ptr<Task<>>> as; for (int i = 0; i < n; ++i) as.push_back(std::make_unique<Task<>>(actor(w, per, Tracked(1))));
      auto ct = control(w, as, mode); std::vector<Task<>*> raw; for (auto& a : as) raw.push_back(a.get()); for (auto* a : raw) loop.start(*a); loop.start(ct);
      { vf::Watch wt("serial|the loop never becomes idle", 20); loop.run(); }
      for (auto& [id, s] : w.m.state) if (s != 3 && s != 4 && !(mode == 2 && s < 3)) { vf::fail(s == 0 ? "lost" : s == 1 ? "unfinished" : "not-resumed", "task " + S(id) + " ended in state " + S(s) + " of 3"); break; }
      if (mode == 0) vf::check(w.live == 0, "lost", S(w.live) + " submitters never finished");
      // dropped submitters are still suspended: their owners destroy them
      w.gone = true; as.clear();
      vf::eval((std::uint64_t)w.m.events); vf::sig(w.m.h); vf::note("tasks", (std::uint64_t)w.m.started); vf::note("dropped", (std::uint64_t)w.m.dropped); }
    vf::noneLive(nm);
}
template struct World<coroutine::SerialExecutor>; template struct World<coroutine::SerialExecutorPro>;
} // namespace
VF_SECTION("serial", 3500, 50000) { history<coroutine::SerialExecutor>(rng, (int)(index % 3), "SerialExecutor"); }
VF_SECTION("serial-pro", 1800, 25000) { history<coroutine::SerialExecutorPro>(rng, (int)(index % 3), "SerialExecutorPro"); }
// very long queues of immediate tasks behind one that is suspended
VF_SECTION("burst", 24, 200) {
    { coroutine::EventLoop loop; World<coroutine::SerialExecutor> w{loop, rng, std::make_unique<coroutine::SerialExecutor>(), {}, false, 0}; int n = (int)rng.range(500, 20000), clearAt = rng.chance(0.3); vf::setCase("burst " + S(n));
      auto one = [](auto& w, int steps) -> Task<> { long id = w.m.submit(); auto t = job(w, id, steps, false, Tracked(1)); co_await w.ex->serial(t); w.m.back(id); };
      std::vector<std::unique_ptr<Task<>>> as; for (int i = 0; i < n; ++i) as.push_back(std::make_unique<Task<>>(one(w, i == 0 ? 3 : i % 997 == 5))); for (auto& a : as) loop.start(*a);
      if (clearAt) { w.ex->clear(); w.m.clear(); } loop.run(); vf::check(w.m.started == n - w.m.dropped && w.m.resumed == w.m.started, "lost", S(w.m.started) + " of " + S(n) + " ran, " + S(w.m.resumed) + " resumed"); w.gone = true; as.clear(); vf::eval((std::uint64_t)w.m.events); vf::sig("burst" + S(n)); }
    vf::noneLive("burst");
}
// the executor dies inside the coroutine it resumes, while others wait in it
VF_SECTION("own", 1500, 20000) {
    { coroutine::EventLoop loop; Mon m; int n = (int)rng.range(1, 6); long ran = 0; vf::setCase("executor local to its first submitter, " + S(n) + " waiting");
      auto exh = std::make_shared<std::unique_ptr<coroutine::SerialExecutor>>(std::make_unique<coroutine::SerialExecutor>()); std::vector<std::unique_ptr<Task<>>> ws;
      auto work = [&](int steps, Tracked) -> Task<> { for (int i = 0; i < steps; ++i) co_await loop.makeTimer().yield(); ++ran; };
      auto waiter = [&](int steps, bool kill, Tracked) -> Task<> { auto t = work(steps, Tracked(1)); co_await (*exh)->serial(t); if (kill) exh->reset(); };
      int killer = (int)rng.below((std::uint64_t)n) ; for (int i = 0; i < n; ++i) ws.push_back(std::make_unique<Task<>>(waiter(i == 0 ? 1 : 0, i == killer, Tracked(1)))); for (auto& x : ws) loop.start(*x); loop.run();
      // tasks queued behind the killer may already have run when its submitter resumes; the ones up to it must have
      vf::check(ran >= killer + 1 && ran <= n, "own", S(ran) + " tasks ran (killer " + S(killer) + " of " + S(n) + ")"); ws.clear(); vf::eval((std::uint64_t)n); vf::sig("own" + S(n) + "/" + S(killer)); }
    vf::noneLive("own");
}
