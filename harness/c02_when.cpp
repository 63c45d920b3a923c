// C02: whenAll / whenAny over random children; results and event order judged from the observed log.
#include "tracked.hpp"
#include <sys/socket.h>
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <HXLibs/coroutine/awaiter/WhenAll.hpp>
#include <HXLibs/coroutine/awaiter/WhenAny.hpp>
#include <HXLibs/coroutine/task/RootTask.hpp>
using namespace HX; using coroutine::Task; using vf::Tracked; using namespace std::chrono_literals;
namespace {
std::string S(long v) { return std::to_string(v); }
struct Exc { long id; };
using UP = std::unique_ptr<Tracked>;
struct Step { int kind; long us; };                       // 0 yield 1 sleep 2 nested task
struct Spec { int id; std::vector<Step> steps; int end; };// end: 0 value, 1 throw early, 2 throw at end
struct Ctx { coroutine::EventLoop* loop; std::vector<std::pair<char, int>> log; std::map<int, int> starts;
    void add(char c, int id) { log.push_back({c, id}); } };
template <class T> T val(int id) {
    if constexpr (std::is_same_v<T, long>) return id * 11L; else if constexpr (std::is_same_v<T, std::string>) return std::string((std::size_t)id % 40 + 1, (char)('a' + id % 26));
    else if constexpr (std::is_same_v<T, UP>) return std::make_unique<Tracked>(id); else if constexpr (std::is_same_v<T, Tracked>) return Tracked(id); }
template <class T> bool isVal(T const& v, int id) {
    if constexpr (std::is_same_v<T, long>) return v == id * 11L; else if constexpr (std::is_same_v<T, std::string>) return v == val<std::string>(id);
    else if constexpr (std::is_same_v<T, UP>) return v && v->val() == id; else if constexpr (std::is_same_v<T, Tracked>) return v.val() == id; else return true; }
Task<long> tiny(Ctx& c, bool y) { if (y) co_await c.loop->makeTimer().yield(); co_return 1; }
template <class T> Task<T> child(Ctx& c, Spec const& s, Tracked p) {
    c.add('b', s.id); ++c.starts[s.id]; Tracked l(s.id);
    if (s.end == 1) { c.add('f', s.id); throw Exc{s.id}; }
    for (auto& st : s.steps) {
        if (st.kind == 0) co_await c.loop->makeTimer().yield();
        else if (st.kind == 1) co_await c.loop->makeTimer().sleepFor(std::chrono::microseconds(st.us));
        else if (st.kind == 2) co_await tiny(c, st.us & 1);
        c.add('s', s.id);
    }
    if (l.val() != s.id || p.val() != s.id) vf::fail("locals", "locals of a child changed");
    c.add('f', s.id);
    if (s.end == 2) throw Exc{s.id};
    if constexpr (!std::is_void_v<T>) co_return val<T>(s.id);
}
std::vector<Spec> specs(vf::Rng& r, int n) {
    std::vector<Spec> v; int style = (int)r.below(4);
    for (int i = 0; i < n; ++i) { Spec s{i, {}, 0}; int k = style == 0 ? 0 : (int)r.below(6);
        for (int j = 0; j < k; ++j) s.steps.push_back({style == 1 ? 0 : (int)r.below(3), (long)r.below(3000)});
        s.end = r.chance(0.25) ? (int)r.range(1, 2) : 0; v.push_back(s); }
    return v;
}
std::string show(std::vector<Spec> const& v) { std::string s; for (auto& x : v) { s += "[" + S(x.id) + ":"; for (auto& t : x.steps) s += t.kind == 0 ? "y" : t.kind == 1 ? "s" + S(t.us) + "," : "n"; s += x.end ? " throws" + S(x.end) : ""; s += "]"; } return s; }
std::string logStr(Ctx& c) { std::string s; for (auto& [k, i] : c.log) { s += k; s += S(i); s += ' '; } return s; }
// ------------------------------------------------------------- judging
template <class Tr, class T> void judgeOne(Tr& t, Spec const& s, char const* how) {
    if (s.end) { bool ok = false; if (!t.isVal()) try { t.rethrow(); } catch (Exc& e) { ok = e.id == s.id; } catch (...) {}
        vf::check(ok, "whenall-exception", std::string(how) + ": position " + S(s.id) + " threw but its slot does not hold that exception"); }
    else { bool ok = t.isVal(); if constexpr (!std::is_void_v<T>) { if (ok) ok = isVal<T>(t.get(), s.id); }
        vf::check(ok, "whenall-value", std::string(how) + ": position " + S(s.id) + " does not hold the value of its operation"); }
}
template <class Tup, class... Ts, std::size_t... I> void judgeAll(Tup& r, std::vector<Spec> const& sp, char const* how, std::index_sequence<I...>) { (judgeOne<std::tuple_element_t<I, Tup>, Ts>(std::get<I>(r), sp[I], how), ...); }
template <class F> void drive(Ctx& c, F f) { // F: () -> Task<>
    auto t = f(); c.loop->start(t); c.loop->run();
    vf::check(t.getPromise().done(), "never-resumed", "the waiter was never resumed although the loop ran dry | " + logStr(c));
    if (t.getPromise().done()) { try { t.getPromise().promise().result(); } catch (std::exception& e) { vf::fail("waiter-threw", e.what()); } catch (...) { vf::fail("waiter-threw", "unknown"); } }
}
template <class... Ts> void runAll(vf::Rng& rng, int form) {
    constexpr int N = sizeof...(Ts); auto sp = specs(rng, N); vf::setCase("all form " + S(form) + " " + show(sp));
    { coroutine::EventLoop loop; Ctx c{&loop, {}, {}}; int resumed = 0;
      bool background = rng.chance(0.5);
      auto noise = [&]() -> Task<> { for (int i = 0; i < 4; ++i) { if (i % 2) co_await loop.makeTimer().sleepFor(300us); else co_await loop.makeTimer().yield(); } };
      auto ns = noise(); if (background) loop.start(ns);
      drive(c, [&]() -> Task<> { return [](Ctx& c, std::vector<Spec>& sp, int form, int& resumed) -> Task<> {
        auto doit = [&]<std::size_t... I>(std::index_sequence<I...>) -> Task<> {
            auto judge = [&](auto& r) { ++resumed; c.add('R', -1); using R = std::remove_cvref_t<decltype(r)>; judgeAll<R, Ts...>(r, sp, "whenAll", std::index_sequence<I...>{}); };
            if (form == 0) { auto r = co_await coroutine::whenAll(child<Ts>(c, sp[I], Tracked((long)I))...); judge(r); }
            else if constexpr (N >= 2) { auto r = co_await (child<Ts>(c, sp[I], Tracked((long)I)) && ...); judge(r); }
            else { auto r = co_await coroutine::whenAll(child<Ts>(c, sp[I], Tracked((long)I))...); judge(r); }
        };
        co_await doit(std::make_index_sequence<N>{});
      }(c, sp, form, resumed); });
      std::set<int> fin; bool seenR = false;
      for (auto& [k, i] : c.log) { if (k == 'f') { vf::check(fin.insert(i).second, "ran-twice", "operation " + S(i) + " finished twice"); vf::check(!seenR, "whenall-early", "the waiter resumed before operation " + S(i) + " finished"); } if (k == 'R') seenR = true; }
      vf::check(resumed == 1, "resumed-count", "the waiter of whenAll resumed " + S(resumed) + " times");
      vf::check((int)fin.size() == N, "not-run", S(N - (long)fin.size()) + " operations did not finish");
      for (int i = 0; i < N; ++i) vf::check(c.starts[i] == 1, "started-count", "operation " + S(i) + " started " + S(c.starts[i]) + " times");
      vf::eval((std::uint64_t)c.log.size()); vf::sig(logStr(c) + show(sp)); vf::note("whenall"); if (N > 2) vf::sample(show(sp) + " -> " + logStr(c)); }
    vf::noneLive("whenAll");
}
template <class... Ts> void runAny(vf::Rng& rng, int form) {
    constexpr int N = sizeof...(Ts); auto sp = specs(rng, N); vf::setCase("any form " + S(form) + " " + show(sp));
    { coroutine::EventLoop loop; Ctx c{&loop, {}, {}}; int resumed = 0; long winner = -2; bool threw = false, valueOk = true;
      drive(c, [&]() -> Task<> { return [](Ctx& c, std::vector<Spec>& sp, int form, int& resumed, long& winner, bool& threw, bool& valueOk, coroutine::EventLoop& loop) -> Task<> {
        auto doit = [&]<std::size_t... I>(std::index_sequence<I...>) -> Task<> {
            auto judge = [&](auto& r) { winner = (long)r.index();
                auto one = [&]<std::size_t J, class T>() { if (r.index() == J) { if constexpr (!std::is_void_v<T>) valueOk = isVal<T>(r.template get<J>(), (int)J); } };
                (one.template operator()<I, Ts>(), ...); };
            bool ok = false;
            try {
                if (form == 0) { auto r = co_await coroutine::whenAny(child<Ts>(c, sp[I], Tracked((long)I))...); c.add('R', -1); ok = true; judge(r); }
                else { auto r = co_await (child<Ts>(c, sp[I], Tracked((long)I)) || ...); c.add('R', -1); ok = true; judge(r); }
            } catch (Exc& e) { if (!ok) c.add('R', -1); threw = true; winner = e.id; }
            ++resumed;
        };
        co_await doit(std::make_index_sequence<N>{});
        co_await loop.makeTimer().sleepFor(4ms);    // losers would show up here
      }(c, sp, form, resumed, winner, threw, valueOk, loop); });
      int first = -1; bool seenR = false;
      for (auto& [k, i] : c.log) { if (k == 'f' && first < 0) first = i; if (k == 'R') seenR = true; else if (seenR) vf::fail("loser-ran", "operation " + S(i) + " ran after the waiter of whenAny had resumed"); }
      vf::check(resumed == 1, "resumed-count", "the waiter of whenAny resumed " + S(resumed) + " times");
      vf::check(first >= 0 && winner == first, "wrong-winner", "whenAny reported " + S(winner) + " but " + S(first) + " finished first");
      if (first >= 0) { vf::check(threw == (sp[(std::size_t)first].end != 0), "whenany-outcome", threw ? "an exception was reported, the winner returned a value" : "a value was reported, the winner threw"); vf::check(valueOk, "whenany-value", "the reported value is not the winner's"); }
      for (int i = 0; i < N; ++i) vf::check(c.starts[i] <= 1, "started-count", "operation " + S(i) + " started twice");
      vf::eval((std::uint64_t)c.log.size()); vf::sig(logStr(c) + show(sp)); vf::note("whenany"); }
    vf::noneLive("whenAny");
}
} // namespace
VF_SECTION("all", 9000, 120000) {
    int form = (int)rng.below(2);
    switch (rng.below(9)) {
    case 0: runAll<long>(rng, form); break; case 1: runAll<void, void>(rng, form); break; case 2: runAll<long, std::string>(rng, form); break;
    case 3: runAll<UP, void, Tracked>(rng, form); break; case 4: runAll<Tracked, Tracked, long, UP>(rng, form); break; case 5: runAll<void, long, void, std::string, UP>(rng, form); break;
    case 6: runAll<std::string, UP, void, long, Tracked, void, long, std::string>(rng, form); break; case 7: runAll<UP>(rng, form); break;
    default: runAll<long, long, long, long, long, long>(rng, form); }
}
VF_SECTION("any", 9000, 120000) {
    int form = (int)rng.below(2);
    switch (rng.below(7)) {
    case 0: runAny<void, void>(rng, form); break; case 1: runAny<long, std::string>(rng, form); break; case 2: runAny<UP, void, Tracked>(rng, form); break;
    case 3: runAny<Tracked, Tracked, long, UP>(rng, form); break; case 4: runAny<void, long, void, std::string, UP>(rng, form); break;
    case 5: runAny<std::string, UP, void, long, Tracked, void, long, std::string>(rng, form); break; default: runAny<long, long, long>(rng, form); }
}
// nesting: all inside any, any inside all, operators mixed with calls, plain awaiters as operands
VF_SECTION("nested", 5000, 60000) {
    auto sp = specs(rng, 4); for (auto& s : sp) s.end = 0; int shape = (int)rng.below(6); vf::setCase("nested " + S(shape) + " " + show(sp));
    { coroutine::EventLoop loop; Ctx c{&loop, {}, {}}; int resumed = 0;
      auto pos = [&](char k, int id) { for (std::size_t i = 0; i < c.log.size(); ++i) if (c.log[i] == std::pair<char, int>(k, id)) return (long)i; return 1000000L; };
      drive(c, [&]() -> Task<> { return [](Ctx& c, std::vector<Spec>& sp, int shape, int& resumed, coroutine::EventLoop& loop, decltype(pos)& pos) -> Task<> {
        auto mk = [&]<class T>(int i) { return child<T>(c, sp[(std::size_t)i], Tracked(i)); };
        switch (shape) {
        case 0: { auto [a, b] = co_await coroutine::whenAll(coroutine::whenAny(mk.operator()<long>(0), mk.operator()<std::string>(1)), coroutine::whenAny(mk.operator()<UP>(2), mk.operator()<void>(3)));
            c.add('R', -1); int w = pos('f', 0) < pos('f', 1) ? 0 : 1, x = pos('f', 2) < pos('f', 3) ? 2 : 3;
            vf::check(a.isVal() && (int)a.get().index() == w, "nested-any", "inner whenAny reports the wrong winner"); vf::check(b.isVal() && (int)b.get().index() == x - 2, "nested-any", "inner whenAny reports the wrong winner"); break; }
        case 1: { auto r = co_await coroutine::whenAny(coroutine::whenAll(mk.operator()<long>(0), mk.operator()<std::string>(1)), coroutine::whenAll(mk.operator()<UP>(2), mk.operator()<Tracked>(3)));
            c.add('R', -1); long e0 = std::max(pos('f', 0), pos('f', 1)), e1 = std::max(pos('f', 2), pos('f', 3));
            vf::check((r.index() == 0) == (e0 < e1), "nested-all", "whenAny over two whenAlls reports the wrong one");
            if (r.index() == 0) { auto& t = r.get<0>(); vf::check(isVal<long>(std::get<0>(t).get(), 0) && isVal<std::string>(std::get<1>(t).get(), 1), "nested-all", "values of the inner whenAll are wrong"); }
            else { auto& t = r.get<1>(); vf::check(isVal<UP>(std::get<0>(t).get(), 2) && isVal<Tracked>(std::get<1>(t).get(), 3), "nested-all", "values of the inner whenAll are wrong"); } break; }
        case 2: { auto t0 = std::chrono::steady_clock::now(); auto r = co_await coroutine::whenAny(mk.operator()<long>(0), loop.makeTimer().sleepFor(1500us));
            c.add('R', -1); bool fin = pos('f', 0) < pos('R', -1); vf::check((r.index() == 0) == fin, "timer-any", "whenAny of a task and a timer reports the wrong winner");
            if (r.index() == 1) vf::check(std::chrono::steady_clock::now() - t0 >= 1400us, "timer-early", "the timer won before its time"); break; }
        case 3: { auto t0 = std::chrono::steady_clock::now(); auto [a, b] = co_await coroutine::whenAll(loop.makeTimer().sleepFor(700us), mk.operator()<long>(0));
            c.add('R', -1); vf::check(a.isVal() && b.isVal() && isVal<long>(b.get(), 0), "timer-all", "whenAll of a timer and a task loses the value"); vf::check(std::chrono::steady_clock::now() - t0 >= 600us, "timer-early", "whenAll did not wait for the timer"); break; }
        case 5: { auto a = mk.operator()<long>(0); auto b = mk.operator()<std::string>(1);     // named: the loser stays with its owner
            auto r = co_await coroutine::whenAny(a, b); int w = pos('f', 0) < pos('f', 1) ? 0 : 1; vf::check((int)r.index() == w, "nested-any", "whenAny of named tasks reports the wrong winner");
            if (w == 0) vf::check(isVal<long>(r.get<0>(), 0), "nested-any", "wrong value"); else vf::check(isVal<std::string>(r.get<1>(), 1), "nested-any", "wrong value");
            co_await loop.makeTimer().sleepFor(2ms); break; }
        default: { auto left = mk.operator()<long>(0) && mk.operator()<std::string>(1); auto [a, b, d, e] = co_await (std::move(left) && (mk.operator()<UP>(2) && mk.operator()<void>(3)));
            c.add('R', -1); vf::check(a.isVal() && isVal<long>(a.get(), 0) && isVal<std::string>(b.get(), 1) && isVal<UP>(d.get(), 2) && e.isVal(), "operator-all", "values chained with && are at the wrong positions"); break; }
        }
        ++resumed; co_await loop.makeTimer().sleepFor(3500us);
      }(c, sp, shape, resumed, loop, pos); });
      bool seenR = false; for (auto& [k, i] : c.log) { if (k == 'R') seenR = true; else if (seenR) vf::fail("loser-ran", "operation " + S(i) + " ran after the waiter had resumed"); }
      vf::check(resumed == 1, "resumed-count", "nested waiter resumed " + S(resumed) + " times"); vf::eval(c.log.size()); vf::sig(S(shape) + logStr(c)); }
    vf::noneLive("nested");
}
// losers that are kernel operations: they must be gone when the waiter resumes, data arriving later must go to nobody
VF_SECTION("io", 800, 8000) {
    int n = (int)rng.range(1, 24); struct P { int fd[2]; long writeAt, timeout; int form; int res = 0; long idx = -1; bool wrote = false; };
    std::vector<P> ps; for (int i = 0; i < n; ++i) { P p{}; if (::socketpair(AF_UNIX, SOCK_STREAM, 0, p.fd)) return; p.timeout = (long)rng.below(4) * 500 + 200;
        p.writeAt = rng.pick({0L, 1L, p.timeout - 20, p.timeout, p.timeout + 30, p.timeout + 1500}); p.form = (int)rng.below(3); ps.push_back(p); }
    std::string cs = "io " + S(n); for (auto& p : ps) cs += " (" + S(p.form) + " w" + S(p.writeAt) + " t" + S(p.timeout) + ")"; vf::setCase(cs);
    { coroutine::EventLoop loop; int done = 0;
      auto one = [&](P& p) -> Task<> {
        { auto buf = std::make_unique<char[]>(8); std::span<char> sp{buf.get(), 8};
          if (p.form == 0) { auto r = co_await coroutine::whenAny(loop.makeAioTask().prepRecv(p.fd[0], sp, 0), loop.makeTimer().sleepFor(std::chrono::microseconds(p.timeout))); p.idx = (long)r.index(); if (p.idx == 0) p.res = r.get<0>(); }
          else if (p.form == 1) { __kernel_timespec ts{0, p.timeout * 1000}; auto r = co_await coroutine::AioTask::linkTimeout(loop.makeAioTask().prepRecv(p.fd[0], sp, 0), loop.makeAioTask().prepLinkTimeout(&ts, 0)); p.idx = (long)r.index(); if (p.idx == 0) p.res = r.get<0>(); else vf::check(r.get<1>() == -ETIME, "link-timeout", "a linked timeout completed with " + S(r.get<1>())); }
          else { Tracked keep(1); auto task = [](coroutine::EventLoop& loop, int fd, Tracked) -> Task<int> { char b[8]; int r = co_await loop.makeAioTask().prepRecv(fd, b, 0); co_return r; }(loop, p.fd[0], Tracked(2));
              auto r = co_await coroutine::whenAny(std::move(task), loop.makeTimer().sleepFor(std::chrono::microseconds(p.timeout))); p.idx = (long)r.index(); if (p.idx == 0) p.res = r.get<0>(); }
          if (p.idx == 0) { vf::check(p.res == 3 && (p.form == 2 || !std::memcmp(buf.get(), "abc", 3)), "io-result", "the receive that won reports " + S(p.res)); vf::check(p.wrote, "io-result", "a receive won before anything was sent"); }
          std::memset(buf.get(), 0x5a, 8); }
        ++done; };
      auto writer = [&](P& p) -> Task<> { if (p.writeAt) co_await loop.makeTimer().sleepFor(std::chrono::microseconds(p.writeAt)); p.wrote = true; if (::write(p.fd[1], "abc", 3) != 3) vf::fail("harness", "write"); };
      std::vector<Task<>> ts; for (auto& p : ps) { ts.push_back(one(p)); loop.start(ts.back()); ts.push_back(writer(p)); loop.start(ts.back()); }
      auto t0 = std::chrono::steady_clock::now(); loop.run(); auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
      vf::check(done == n, "never-resumed", S(n - done) + " waiters were never resumed"); vf::check(ms < 5000, "io-hang", "the loop needed " + S((long)ms) + " ms");
      for (auto& p : ps) vf::note(p.idx == 0 ? "io_won" : "timer_won"); }
    for (auto& p : ps) { ::close(p.fd[0]); ::close(p.fd[1]); vf::sig(S(p.form) + S(p.writeAt) + "/" + S(p.timeout) + ":" + S(p.idx)); }
    vf::eval((std::uint64_t)n); vf::noneLive("io");
}
// more timed operations at once than the submission queue holds: none loses its timeout, none times out early
VF_SECTION("burst", 8, 80) {
    int n = (int)rng.range(500, 1400); long to = 60000; std::vector<std::array<int, 2>> ps((std::size_t)n); for (auto& p : ps) if (::socketpair(AF_UNIX, SOCK_STREAM, 0, p.data())) return;
    int single = (int)rng.below(3); double ready = rng.pick({0.0, 0.5, 1.0}); vf::setCase("burst of " + S(n) + " timed receives after " + S(single) + " single ops");
    { coroutine::EventLoop loop; int won = 0, timed = 0, bad = 0, early = 0; int extra[2]; if (::socketpair(AF_UNIX, SOCK_STREAM, 0, extra)) return;
      auto sg = [&]() -> Task<> { char b[4]; co_await loop.makeAioTask().prepRecv(extra[0], b, 0); };
      auto one = [&](int fd) -> Task<> { char b[8]; __kernel_timespec ts{0, to * 1000}; auto t0 = std::chrono::steady_clock::now();
        auto r = co_await coroutine::AioTask::linkTimeout(loop.makeAioTask().prepRecv(fd, b, 0), loop.makeAioTask().prepLinkTimeout(&ts, 0));
        if (r.index() == 0) { ++won; if (r.get<0>() != 1) ++bad; } else { ++timed; if (r.get<1>() != -ETIME) ++bad; if (std::chrono::steady_clock::now() - t0 < std::chrono::microseconds(to - 5000)) ++early; } };
      std::vector<Task<>> ts; for (int i = 0; i < single; ++i) { ts.push_back(sg()); loop.start(ts.back()); }
      int sent = 0; for (auto& p : ps) { ts.push_back(one(p[0])); if (rng.chance(ready)) { ++sent; if (::write(p[1], "y", 1) != 1) return; } loop.start(ts.back()); }
      if (::write(extra[1], "abcdefgh", 8) != 8) return;
      auto t0 = std::chrono::steady_clock::now(); loop.run(); auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
      vf::check(won == sent && timed == n - sent && !bad && !early, "burst", S(n) + " timed receives, " + S(sent) + " with data: " + S(won) + " received, " + S(timed) + " timed out (" + S(early) + " early), " + S(bad) + " with a wrong result");
      vf::check(ms < 6000, "io-hang", "the loop needed " + S((long)ms) + " ms"); ::close(extra[0]); ::close(extra[1]); }
    for (auto& p : ps) { ::close(p[0]); ::close(p[1]); } vf::eval((std::uint64_t)n); vf::sig("burst" + S(n)); vf::noneLive("burst");
}
