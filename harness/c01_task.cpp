// C01: random trees of tasks, run by the real coroutine machinery and compared with a plain recursive evaluation.
#include "tracked.hpp"
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <HXLibs/coroutine/task/RootTask.hpp>
#include <HXLibs/coroutine/task/Task.hpp>
using namespace HX; using coroutine::Task; using vf::Tracked;
using namespace std::chrono_literals;
namespace {
struct Exc { long id; };
struct Exc2 : std::runtime_error { using runtime_error::runtime_error; };
struct alignas(64) Wide { long a[8]; };
enum Kind { KVoid, KInt, KStr, KUptr, KTracked, KWide, KVec, KBool, KCount };
enum Op { OSleep, OYield, OAwait, OAwaitCatch, OTry, OThrow, ONever, OMoved, OGen, OLocal, OTwice };
struct Node { struct Act { Op op; long arg = 0; std::unique_ptr<Node> child; };
    long id = 0; Kind kind = KInt; bool end_throws = false, exc2 = false; std::vector<Act> acts; };

struct Gen { vf::Rng& r; long id = 0; bool suspend; int budget;
    std::unique_ptr<Node> make(int depth) {
        auto n = std::make_unique<Node>(); n->id = ++id; n->kind = (Kind)r.below(KCount); --budget;
        int k = (int)r.below(5);
        for (int i = 0; i < k; ++i) {
            Node::Act a; a.op = (Op)r.below(11);
            if (!suspend && (a.op == OSleep || a.op == OYield)) a.op = OLocal;
            if (a.op == OThrow && !r.chance(0.3)) a.op = OYield;
            if (!suspend && a.op == OYield) a.op = OLocal;
            bool child = a.op == OAwait || a.op == OAwaitCatch || a.op == OTry || a.op == ONever || a.op == OMoved || a.op == OTwice;
            if (child && (depth <= 0 || budget <= 0)) { a.op = OLocal; child = false; }
            if (a.op == OGen) a.arg = (long)r.below(8);
            if (a.op == OSleep) a.arg = (long)r.below(400);
            if (child) a.child = make(depth - 1);
            n->acts.push_back(std::move(a));
        }
        n->end_throws = r.chance(0.2); n->exc2 = r.chance(0.5);
        return n;
    } };

struct Ctx { coroutine::EventLoop* loop; std::vector<std::string> log; bool suspend = true;
    void add(std::string s) { log.push_back(std::move(s)); } };
std::string S(long v) { return std::to_string(v); }
std::string bigText(long id) { return "r" + S(id) + std::string((std::size_t)(id * 7 % 50), 'x'); }

template <class T> T makeVal(long id) {
    if constexpr (std::is_same_v<T, long>) return id * 3 + 1;
    else if constexpr (std::is_same_v<T, std::string>) return bigText(id);
    else if constexpr (std::is_same_v<T, std::unique_ptr<Tracked>>) return std::make_unique<Tracked>(id);
    else if constexpr (std::is_same_v<T, Tracked>) return Tracked(id);
    else if constexpr (std::is_same_v<T, Wide>) { Wide w; for (int i = 0; i < 8; ++i) w.a[i] = id * 10 + i; return w; }
    else if constexpr (std::is_same_v<T, std::vector<Tracked>>) { std::vector<Tracked> v; for (int i = 0; i < id % 4; ++i) v.emplace_back(id + i); return v; }
    else if constexpr (std::is_same_v<T, bool>) return id % 2 == 0;
}
template <class T> std::string show(T const& v) {
    if constexpr (std::is_same_v<T, long>) return S(v);
    else if constexpr (std::is_same_v<T, std::string>) return v;
    else if constexpr (std::is_same_v<T, std::unique_ptr<Tracked>>) return v ? "u" + S(v->val()) : "null";
    else if constexpr (std::is_same_v<T, Tracked>) return "t" + S(v.val());
    else if constexpr (std::is_same_v<T, Wide>) { std::string s = (std::uintptr_t)&v % 64 ? "misaligned" : "w"; for (long a : v.a) s += S(a) + ","; return s; }
    else if constexpr (std::is_same_v<T, std::vector<Tracked>>) { std::string s = "v"; for (auto& a : v) s += S(a.val()) + ","; return s; }
    else if constexpr (std::is_same_v<T, bool>) return v ? "T" : "F";
    else return "void";
}
std::string expectShow(Kind k, long id) {
    switch (k) {
    case KVoid: return "void"; case KInt: return show(makeVal<long>(id)); case KStr: return show(makeVal<std::string>(id));
    case KUptr: return "u" + S(id); case KTracked: return "t" + S(id); case KWide: return show(makeVal<Wide>(id));
    case KVec: { std::string s = "v"; for (int i = 0; i < id % 4; ++i) s += S(id + i) + ","; return s; }
    default: return show(makeVal<bool>(id)); }
}
template <class F> auto byKind(Kind k, F f) {
    switch (k) {
    case KVoid: return f.template operator()<void>(); case KInt: return f.template operator()<long>(); case KStr: return f.template operator()<std::string>();
    case KUptr: return f.template operator()<std::unique_ptr<Tracked>>(); case KTracked: return f.template operator()<Tracked>();
    case KWide: return f.template operator()<Wide>(); case KVec: return f.template operator()<std::vector<Tracked>>(); default: return f.template operator()<bool>(); }
}
void boom(Node const& n) { if (n.exc2) throw Exc2("E" + S(n.id)); throw Exc{n.id}; }
std::string curExc() { try { throw; } catch (Exc const& e) { return "X" + S(e.id); } catch (Exc2 const& e) { return std::string("E") + e.what(); } catch (std::exception const& e) { return std::string("other ") + e.what(); } }

Task<std::string> genTask(Ctx& c, long id, long n, Tracked) {
    Tracked local(id);
    for (long i = 0; i < n; ++i) { std::string s = bigText(id + i); if (i % 2) co_yield s; else co_yield std::move(s);
        if (c.suspend && i % 3 == 2) co_await c.loop->makeTimer().yield(); }
    if (id % 3 == 0) throw Exc{id};
    co_return "end" + S(id);
}
template <class T> Task<T> run(Ctx& c, Node const& n, Tracked param, std::unique_ptr<Tracked> mp);
template <class T> Task<T> mk(Ctx& c, Node const& n) { return run<T>(c, n, Tracked(n.id), std::make_unique<Tracked>(n.id)); }
Task<> doAwait(Ctx& c, Node const& ch, Op op) {
    auto go = [&]<class T>() -> Task<> {
        return [](Ctx& c, Node const& ch, Op op) -> Task<> {
            std::string s;
            if (op == OTry) {
                auto t = co_await c.loop->tryAsync(mk<T>(c, ch));
                if (t) { if constexpr (std::is_void_v<T>) s = "void"; else s = show<T>(t.get()); }
                else { try { t.rethrow(); } catch (...) { s = curExc(); } }
            } else if (op == OMoved) {
                auto t = mk<T>(c, ch); std::vector<Task<T>> v; v.push_back(std::move(t)); if (ch.id % 3 == 0) v.emplace_back(); else v.push_back(mk<T>(c, ch)); /* one that is never started gives way */ v[1] = std::move(v[0]); if (ch.id % 2) v.erase(v.begin()), v.insert(v.begin(), mk<T>(c, ch));
                if constexpr (std::is_void_v<T>) { co_await v[1]; s = "void"; } else { T r = co_await v[1]; s = show<T>(r); }
            } else {
                auto t = mk<T>(c, ch); c.add("made" + S(ch.id));
                if constexpr (std::is_void_v<T>) { co_await t; s = "void"; } else { T r = co_await t; s = show<T>(r); }
            }
            c.add("got" + S(ch.id) + "=" + s);
        }(c, ch, op);
    };
    return byKind(ch.kind, go);
}
template <class T> Task<T> run(Ctx& c, Node const& n, Tracked param, std::unique_ptr<Tracked> mp) {
    c.add("b" + S(n.id) + "p" + S(param.val()) + "m" + S(mp->val()));
    Tracked l1(n.id);
    for (auto& a : n.acts) {
        switch (a.op) {
        case OSleep: co_await c.loop->makeTimer().sleepFor(std::chrono::microseconds(a.arg)); break;
        case OYield: co_await c.loop->makeTimer().yield(); break;
        case OLocal: { Tracked x(5), y = x; l1 = y; l1 = Tracked(n.id); break; }
        case OAwait: case OTry: case OMoved: co_await doAwait(c, *a.child, a.op); break;
        case OTwice: { co_await doAwait(c, *a.child, OAwait); auto t = doAwait(c, *a.child, OTry); co_await t; break; }
        case OAwaitCatch: { std::string e; try { co_await doAwait(c, *a.child, OAwait); } catch (...) { e = curExc(); }
            if (!e.empty()) { c.add("caught " + e); if (c.suspend) co_await c.loop->makeTimer().yield(); } break; }
        case OThrow: boom(n); break;
        case ONever: { auto go = [&]<class U>() { auto t = mk<U>(c, *a.child); auto u = std::move(t); if (n.id % 2) { t = mk<U>(c, *a.child); u = std::move(t); } return 0; }; byKind(a.child->kind, go); c.add("never" + S(a.child->id)); break; }
        case OGen: { auto g = genTask(c, n.id, a.arg, Tracked(1)); bool threw = false;
            try { for (long i = 0; i <= a.arg; ++i) c.add("g" + (co_await g)); } catch (Exc const& e) { threw = true; c.add("gx" + S(e.id)); }
            if (threw && n.id % 2) co_await doAwait(c, Node{n.id + 100000, KInt, false, false, {}}, OAwait); break; }
        }
    }
    if (param.val() != n.id || mp->val() != n.id || l1.val() != n.id) c.add("locals changed in " + S(n.id));
    if (n.end_throws) boom(n);
    c.add("e" + S(n.id));
    if constexpr (!std::is_void_v<T>) {
        if (n.id % 2 && std::is_copy_constructible_v<T>) { T const v = makeVal<T>(n.id); if constexpr (std::is_copy_constructible_v<T>) co_return v; }
        co_return makeVal<T>(n.id);
    }
}
#define INST(T) template Task<T> run<T>(Ctx&, Node const&, Tracked, std::unique_ptr<Tracked>);
INST(void) INST(long) INST(std::string) INST(std::unique_ptr<Tracked>) INST(Tracked) INST(Wide) INST(std::vector<Tracked>) INST(bool)
// ---- reference: the same program evaluated by plain recursion
struct RefExc { std::string s; };
std::string excName(Node const& n) { return n.exc2 ? "EE" + S(n.id) : "X" + S(n.id); }
void ref(std::vector<std::string>& L, Node const& n);
void refAwait(std::vector<std::string>& L, Node const& ch, Op op) {
    std::string s;
    if (op == OTry) { try { ref(L, ch); s = expectShow(ch.kind, ch.id); } catch (RefExc& e) { s = e.s; } }
    else { if (op == OAwait) L.push_back("made" + S(ch.id)); ref(L, ch); s = expectShow(ch.kind, ch.id); }
    L.push_back("got" + S(ch.id) + "=" + s);
}
void ref(std::vector<std::string>& L, Node const& n) {
    L.push_back("b" + S(n.id) + "p" + S(n.id) + "m" + S(n.id));
    for (auto& a : n.acts) {
        switch (a.op) {
        case OAwait: case OTry: case OMoved: refAwait(L, *a.child, a.op); break;
        case OTwice: refAwait(L, *a.child, OAwait); refAwait(L, *a.child, OTry); break;
        case OAwaitCatch: try { refAwait(L, *a.child, OAwait); } catch (RefExc& e) { L.push_back("caught " + e.s); } break;
        case OThrow: throw RefExc{excName(n)};
        case ONever: L.push_back("never" + S(a.child->id)); break;
        case OGen: { bool t = false; for (long i = 0; i < a.arg; ++i) L.push_back("g" + bigText(n.id + i));
            if (n.id % 3 == 0) { L.push_back("gx" + S(n.id)); t = true; } else L.push_back("gend" + S(n.id));
            if (t && n.id % 2) refAwait(L, Node{n.id + 100000, KInt, false, false, {}}, OAwait); break; }
        default: break;
        }
    }
    if (n.end_throws) throw RefExc{excName(n)};
    L.push_back("e" + S(n.id));
}
std::pair<std::vector<std::string>, std::string> refRoot(Node const& n) {
    std::vector<std::string> L; std::string r;
    try { ref(L, n); r = expectShow(n.kind, n.id); } catch (RefExc& e) { r = e.s; }
    return {L, r};
}
std::string join(std::vector<std::string> const& v) { std::string s; for (auto& x : v) s += x + ";"; return s; }
void compare(std::vector<std::string> const& got, std::string const& gr, Node const& n, char const* how) {
    auto [L, r] = refRoot(n);
    vf::check(gr == r, "wrong-outcome", std::string(how) + ": outcome " + gr + ", the body produced " + r);
    if (got != L) { std::size_t i = 0; while (i < got.size() && i < L.size() && got[i] == L[i]) ++i;
        vf::fail("wrong-history", std::string(how) + ": event " + S((long)i) + " is " + (i < got.size() ? got[i] : "<none>") + ", expected " + (i < L.size() ? L[i] : "<none>") + " | got " + join(got)); }
    vf::eval(L.size() + 1); vf::sig(join(L) + r); vf::note("events", L.size());
    if (L.size() > 6) vf::sample(join(L) + " -> " + r);
}
template <class T> std::string tryShow(container::Try<T>& t) {
    if (t) { if constexpr (std::is_void_v<T>) return "void"; else return show<T>(t.get()); }
    try { t.rethrow(); } catch (...) { return curExc(); }
    return "?";
}
} // namespace

VF_SECTION("trees", 30000, 600000) {
    bool susp = rng.chance(0.75);
    Gen g{rng, 0, susp, 40}; auto n = g.make((int)rng.range(1, 6));
    vf::setCase("tree with " + S(g.id) + " tasks, suspending " + S(susp));
    Ctx c; c.suspend = susp; std::string out; int mode = (int)rng.below(susp ? 4 : 6);
    {
        coroutine::EventLoop loop; c.loop = &loop;
        auto go = [&]<class T>() {
            switch (mode) {
            case 0: { auto t = loop.trySync(mk<T>(c, *n)); out = tryShow<T>(t); break; }
            case 1: try { if constexpr (std::is_void_v<T>) { loop.sync(mk<T>(c, *n)); out = "void"; } else { T v = loop.sync(mk<T>(c, *n)); out = show<T>(v); } } catch (...) { out = curExc(); } break;
            case 2: { bool ran = false;
                auto root = [](coroutine::EventLoop& loop, Ctx& c, Node const& n, std::string& out, bool& ran, Tracked) -> coroutine::RootTask<> {
                    auto t = co_await loop.tryAsync(mk<T>(c, n)); out = tryShow<T>(t); ran = true; };
                root(loop, c, *n, out, ran, Tracked(3)).detach(); loop.run(); vf::check(ran, "root-not-finished", "run() returned before the detached root task finished"); break; }
            case 3: { auto src = mk<T>(c, *n); auto t = loop.tryAsync(std::move(src)); vf::check(c.log.empty(), "eager-start", "a task ran before it was started"); loop.start(t); loop.run();
                auto h = t.getPromise(); if (!h.done()) { vf::fail("run-early", "run() returned before the started task finished"); break; }
                auto r = h.promise().result(); out = tryShow<T>(r); break; }
            default: try { if constexpr (std::is_void_v<T>) { mk<T>(c, *n).runSync(); out = "void"; } else { T v = mk<T>(c, *n).runSync(); out = show<T>(v); } } catch (...) { out = curExc(); } break;
            }
            return 0; };
        byKind(n->kind, go);
    }
    const char* names[] = {"trySync", "sync", "RootTask", "start+run", "runSync", "runSync"};
    compare(c.log, out, *n, names[mode]);
    vf::noneLive(names[mode]);
}
// several roots share one loop: each must still behave as if it were alone
VF_SECTION("shared-loop", 4000, 80000) {
    int k = (int)rng.range(2, 8); std::vector<std::unique_ptr<Node>> ns; std::vector<Ctx> cs((std::size_t)k); std::vector<std::string> outs((std::size_t)k);
    { coroutine::EventLoop loop; int done = 0;
      for (int i = 0; i < k; ++i) { Gen g{rng, 0, true, 25}; ns.push_back(g.make((int)rng.range(1, 5))); cs[(std::size_t)i].loop = &loop; }
      vf::setCase(S(k) + " roots on one loop");
      for (std::size_t i = 0; i < ns.size(); ++i) {
        auto go = [&]<class T>() { [](coroutine::EventLoop& loop, Ctx& c, Node const& n, std::string& out, int& done, Tracked) -> coroutine::RootTask<> {
            auto t = co_await loop.tryAsync(mk<T>(c, n)); out = tryShow<T>(t); ++done; }(loop, cs[i], *ns[i], outs[i], done, Tracked(1)).detach(); return 0; };
        byKind(ns[i]->kind, go); }
      loop.run(); vf::check(done == k, "run-early", "run() returned with " + S(k - done) + " roots unfinished"); }
    for (std::size_t i = 0; i < ns.size(); ++i) compare(cs[i].log, outs[i], *ns[i], "shared");
    vf::noneLive("shared");
}
// suspended for ever, then destroyed: everything is released
VF_SECTION("abandoned", 6000, 80000) {
    Gen g{rng, 0, true, 30}; auto n = g.make((int)rng.range(2, 6)); Ctx c;
    { coroutine::EventLoop loop; c.loop = &loop;
      auto go = [&]<class T>() { auto t = mk<T>(c, *n); if (rng.chance(0.8)) loop.start(t); return 0; };   // destroyed at its first suspension, timers pending
      byKind(n->kind, go);
      loop.run(); }
    auto L = refRoot(*n).first;
    for (std::size_t i = 0; i < c.log.size(); ++i) if (i >= L.size() || c.log[i] != L[i]) { vf::fail("wrong-history", "abandoned task: event " + S((long)i) + " is " + c.log[i]); break; }
    vf::eval(c.log.size() + 1); vf::sig(join(c.log)); vf::noneLive("abandoned");
}
// depth and repetition: no stack growth, outcome passes through every level
VF_SECTION("deep", 24, 200) {
    struct D { static Task<long> down(coroutine::EventLoop& l, long d, long at, Tracked t) {
        if (d == 0) { if (at == 1) throw Exc{77}; if (at == 2) co_await l.makeTimer().yield(); co_return 1; }
        long r = co_await down(l, d - 1, at, Tracked(d)); if (t.val() != d + 1) co_return -1; co_return r + 1; }
      static Task<long> wide(coroutine::EventLoop& l, long n, bool y) { long s = 0; for (long i = 0; i < n; ++i) { s += co_await [](long i) -> Task<long> { co_return i; }(i); if (y && i % 4096 == 0) co_await l.makeTimer().yield(); } co_return s; } };
    coroutine::EventLoop loop; long d = rng.range(10, 3000), at = index % 3; vf::setCase("depth " + S(d) + " mode " + S(at));
    auto t = loop.trySync(D::down(loop, d, at, Tracked(d + 1)));
    if (at == 1) { bool ok = false; try { t.rethrow(); } catch (Exc& e) { ok = e.id == 77; } catch (...) {} vf::check(!t && ok, "deep-exception", "exception lost on its way up " + S(d) + " levels"); }
    else vf::check(t && t.get() == d + 1, "deep-value", "wrong value through " + S(d) + " levels");
    long n = rng.range(100000, 300000); long s = loop.sync(D::wide(loop, n, at == 2)); vf::check(s == n * (n - 1) / 2, "wide", "sum of " + S(n) + " awaited values is wrong");
    vf::eval((std::uint64_t)(d + n)); vf::sig(S(d) + ":" + S(n)); vf::noneLive("deep");
}
// tasks that are moved about before they are awaited and after they have finished
VF_SECTION("moved", 4000, 60000) {
    struct M { static Task<Tracked> val(coroutine::EventLoop& l, long v, int how, Tracked a) { if (how == 1) co_await l.makeTimer().yield(); if (how == 2) throw Exc{v}; Tracked mine(v); co_return Tracked(a.val() == v ? mine.val() : -1); }
      static Task<> go(coroutine::EventLoop& l, vf::Rng& r, long& ok, long& n) { std::vector<Task<Tracked>> finished; for (int k = (int)r.range(1, 6); k--;) { long v = (long)r.below(1000); int how = (int)r.below(3); auto t = val(l, v, how, Tracked(v)); for (int m = (int)r.below(3); m--;) { auto u = std::move(t); t = std::move(u); } ++n;
          try { Tracked got = co_await t; ok += how != 2 && got.val() == v; } catch (Exc const& e) { ok += how == 2 && e.id == v; }
          switch (r.below(4)) { case 0: finished.push_back(std::move(t)); break; case 1: { auto u = std::move(t); (void)u; break; } case 2: { auto u = val(l, v, 0, Tracked(v)); std::swap(t, u); ++n; Tracked got = co_await t; ok += got.val() == v; break; } default: break; } if (r.chance(0.3)) { r.shuffle(finished); co_await l.makeTimer().yield(); } } } };
    long ok = 0, n = 0; { coroutine::EventLoop loop; vf::setCase("moved tasks"); loop.sync(M::go(loop, rng, ok, n)); }
    vf::check(ok == n, "moved", [&] { return S(n - ok) + " of " + S(n) + " tasks that were moved had another outcome"; }); vf::eval((std::uint64_t)n); vf::sig(S(n)); vf::noneLive("moved");
}
