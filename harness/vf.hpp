#pragma once
// Common runtime of the monitoring harnesses: seeded cases, verdict stream, counters, watchdog.
// Verdicts go to a dedicated file (--out), so nothing the library prints can be mistaken for one.
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <signal.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void));

namespace vf {

inline std::uint64_t mix(std::uint64_t x) {
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}
inline std::uint64_t hashStr(std::string_view s, std::uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return mix(h);
}

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1) : s(seed) {}
    std::uint64_t next() { s += 0x9E3779B97F4A7C15ULL; std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    std::int64_t range(std::int64_t a, std::int64_t b) { return a + (std::int64_t)below((std::uint64_t)(b - a + 1)); }
    bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class C> auto const& pick(C const& c) { return c[below(c.size())]; }
    template <class T> T pick(std::initializer_list<T> c) { return *(c.begin() + below(c.size())); }
    std::string bytes(std::size_t n) { std::string r(n, 0); for (auto& c : r) c = (char)next(); return r; }
    std::string text(std::size_t n, std::string_view alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") {
        std::string r(n, 0); for (auto& c : r) c = alpha[below(alpha.size())]; return r; }
    template <class V> void shuffle(V& v) { for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
};

struct State {
    std::uint64_t seed = 1;
    int shard = 0, shards = 1;
    bool thorough = false;
    double budget = 1e9;
    double scale = 1.0;
    std::string onlySection; long onlyIndex = -1;
    std::string probe;
    FILE* out = nullptr;
    std::mutex mtx;
    std::uint64_t evals = 0, fails = 0;
    std::unordered_set<std::uint64_t> sigs;
    std::vector<std::string> samples;
    std::map<std::string, std::uint64_t> notes;
    char curCase[4096] = "";
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
};
inline State& st() { static State* s = new State; return *s; }

inline std::string esc(std::string_view s, std::size_t max = 600) {
    std::string r; char b[8];
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (r.size() > max) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
        unsigned char c = (unsigned char)s[i];
        if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t";
        else if (c < 32 || c >= 127) { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += (char)c;
    }
    return r;
}
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - st().t0).count(); }
inline bool over() { return elapsed() > st().budget; }

inline void setCase(std::string_view s) {
    auto& S = st(); std::size_t n = std::min(s.size(), sizeof(S.curCase) - 1);
    std::memcpy(S.curCase, s.data(), n); S.curCase[n] = 0;
}
inline std::string sectionTag;   // "section:index" of the running case
inline void emitRaw(std::string const& line) { auto& S = st(); std::fputs(line.c_str(), S.out); std::fputc('\n', S.out); std::fflush(S.out); }
inline void emitStats();

// A violation observed by a monitor. key identifies the kind (matched against the known findings).
inline void fail(std::string const& key, std::string const& detail) {
    auto& S = st();
    std::lock_guard l(S.mtx);
    if (++S.fails <= 40) emitRaw("@FAIL\t" + esc(key) + "\t" + sectionTag + "\t" + esc(detail, 3000) + " | case: " + esc(S.curCase, 1500));
}
inline bool check(bool ok, std::string const& key, std::string const& detail = "") { if (!ok) fail(key, detail); return ok; }
template <class F> requires std::is_invocable_r_v<std::string, F> inline bool check(bool ok, std::string const& key, F&& detail) { if (!ok) fail(key, detail()); return ok; }
inline void eval(std::uint64_t n = 1) { auto& S = st(); std::lock_guard l(S.mtx); S.evals += n; }
inline void sig(std::uint64_t h) { auto& S = st(); std::lock_guard l(S.mtx); S.sigs.insert(h); }
inline void sig(std::string_view s) { sig(hashStr(s)); }
inline void sample(std::string const& s) { auto& S = st(); std::lock_guard l(S.mtx); if (S.samples.size() < 3) S.samples.push_back(esc(s, 400)); }
inline void note(std::string const& k, std::uint64_t n = 1) { auto& S = st(); std::lock_guard l(S.mtx); S.notes[k] += n; }

inline std::string jstr(std::string_view s) {
    std::string r = "\""; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c >= 127) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; }
    return r + "\"";
}
inline void emitStats() {
    auto& S = st(); std::lock_guard l(S.mtx);
    std::string r = "@STATS\t{\"evals\":" + std::to_string(S.evals) + ",\"sigs\":[";
    bool f = true; std::size_t n = 0;
    for (auto h : S.sigs) { if (++n > 200000) break; if (!f) r += ','; f = false; char b[24]; std::snprintf(b, sizeof b, "\"%" PRIx64 "\"", h); r += b; }
    r += "],\"samples\":["; f = true;
    for (auto& s : S.samples) { if (!f) r += ','; f = false; r += jstr(s); }
    r += "],\"notes\":{"; f = true;
    for (auto& [k, v] : S.notes) { if (!f) r += ','; f = false; r += jstr(k) + ":" + std::to_string(v); }
    r += "}}";
    emitRaw(r);
}
inline void onDeath() {   // sanitizer is about to abort: say which case was running
    auto& S = st(); char b[5000];
    int n = std::snprintf(b, sizeof b, "@DEATH\t%s\t%s\n", sectionTag.c_str(), esc(S.curCase, 1500).c_str());
    if (S.out) { if (::write(fileno(S.out), b, (std::size_t)n) < 0) {} }
}
inline void onTerm() {
    static bool once = false; if (once) _exit(1); once = true;
    onDeath();
    std::string what = "terminate";
    if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception& x) { what = std::string("uncaught exception: ") + x.what(); } catch (...) { what = "uncaught non-std exception"; } }
    fail("terminate", what);
    std::fflush(nullptr); _exit(77);
}

// Bounded-wait monitor: if the guarded scope is still active after `sec`, report a hang and end the process.
struct Watch {
    struct Hub {
        std::mutex m; std::map<int, std::pair<std::chrono::steady_clock::time_point, std::string>> w; int id = 0;
        Hub() { std::thread([this] { for (;;) { std::this_thread::sleep_for(std::chrono::milliseconds(100));
            std::string hung; { std::lock_guard l(m); auto n = std::chrono::steady_clock::now(); for (auto& [k, v] : w) if (v.first < n) hung = v.second; }
            if (!hung.empty()) { fail("hang:" + hung.substr(0, hung.find('|')), "no progress within the bound: " + hung); emitStats(); std::fflush(nullptr); _exit(78); } } }).detach(); }
    };
    static Hub& hub() { static Hub* h = new Hub; return *h; }
    int id;
    Watch(std::string what, double sec = 25) { auto& h = hub(); std::lock_guard l(h.m); id = ++h.id; h.w[id] = {std::chrono::steady_clock::now() + std::chrono::milliseconds((long)(sec * 1000)), std::move(what)}; }
    ~Watch() { auto& h = hub(); std::lock_guard l(h.m); h.w.erase(id); }
};

struct Section { std::string name; long n; long nThorough; std::function<void(Rng&, long)> fn; double bound = 60; };
inline std::vector<Section>& sections() { static auto* v = new std::vector<Section>; return *v; }
inline std::map<std::string, std::function<void()>>& probes() { static auto* v = new std::map<std::string, std::function<void()>>; return *v; }
struct RegS { RegS(std::string n, long q, long t, std::function<void(Rng&, long)> f) { sections().push_back({std::move(n), q, t, std::move(f)}); } };
struct RegB { RegB(double b) { sections().back().bound = b; } };   // VF_BOUND: per-case time bound of the section above
#define VF_BOUND(sec) static vf::RegB VF_CAT(vf_b_, __LINE__){sec};
struct RegP { RegP(std::string n, std::function<void()> f) { probes()[std::move(n)] = std::move(f); } };
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
// VF_SECTION(name, casesQuick, casesThorough) { body using rng, index }
#define VF_SECTION(name, q, t) static void VF_CAT(vf_s_, __LINE__)(vf::Rng&, long); static vf::RegS VF_CAT(vf_r_, __LINE__){name, q, t, VF_CAT(vf_s_, __LINE__)}; \
    static void VF_CAT(vf_s_, __LINE__)([[maybe_unused]] vf::Rng& rng, [[maybe_unused]] long index)
#define VF_PROBE(name) static void VF_CAT(vf_p_, __LINE__)(); static vf::RegP VF_CAT(vf_q_, __LINE__){name, VF_CAT(vf_p_, __LINE__)}; static void VF_CAT(vf_p_, __LINE__)()

// Open descriptors. Pipes are left out: the symbolizer of a sanitizer holds two, and the library opens none.
inline int countFds() {
    int n = 0;
    if (DIR* d = ::opendir("/proc/self/fd")) {
        while (auto* e = ::readdir(d)) {
            char buf[64]; auto len = ::readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), buf, sizeof buf - 1);
            if (len > 0) { buf[len] = 0; if (std::strncmp(buf, "pipe:", 5) == 0) continue; }
            ++n;
        }
        ::closedir(d);
    }
    return n;
}
inline int countThreads() { int n = 0; if (DIR* d = ::opendir("/proc/self/task")) { while (auto* e = ::readdir(d)) if (e->d_name[0] != '.') ++n; ::closedir(d); } return n; }
template <class F> bool waitUntil(F f, double sec) { auto e = std::chrono::steady_clock::now() + std::chrono::milliseconds((long)(sec * 1000));
    while (!f()) { if (std::chrono::steady_clock::now() > e) return f(); std::this_thread::sleep_for(std::chrono::microseconds(300)); } return true; }

inline std::string scratch() { const char* p = std::getenv("VF_SCRATCH"); return p ? p : "/tmp"; }

inline int mainImpl(int argc, char** argv) {
    auto& S = st(); std::string outp;
    for (int i = 1; i + 1 < argc; i += 2) { std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") S.seed = std::stoull(v); else if (a == "--shard") S.shard = std::stoi(v); else if (a == "--shards") S.shards = std::stoi(v);
        else if (a == "--tier") S.thorough = v == "thorough"; else if (a == "--budget") S.budget = std::stod(v); else if (a == "--out") outp = v;
        else if (a == "--scale") S.scale = std::stod(v);
        else if (a == "--only") { auto p = v.rfind(':'); S.onlySection = v.substr(0, p); if (p != v.npos) S.onlyIndex = std::stol(v.substr(p + 1)); }
        else if (a == "--probe") S.probe = v; }
    S.out = outp.empty() ? stderr : std::fopen(outp.c_str(), "w");
    if (!S.out) return 99;
    ::fcntl(fileno(S.out), F_SETFD, FD_CLOEXEC);
    ::signal(SIGPIPE, SIG_IGN);
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
    __sanitizer_set_death_callback(onDeath);
#endif
#endif
    std::set_terminate(onTerm);
    if (!S.probe.empty()) {
        sectionTag = "probe:" + S.probe; setCase(S.probe);
        auto it = probes().find(S.probe);
        if (it == probes().end()) { emitRaw("@NOPROBE"); return 98; }
        it->second(); emitStats(); emitRaw("@DONE"); std::fflush(nullptr); return 0;
    }
    for (auto& s : sections()) {
        if (!S.onlySection.empty() && ("," + S.onlySection + ",").find("," + std::string(s.name) + ",") == std::string::npos) continue;
        long n = S.thorough ? s.nThorough : s.n; double scale = n > 1 ? S.scale : 1.0; n = std::max(1L, (long)(n * scale));
        auto b = std::chrono::steady_clock::now();
        for (long i = 0; i < n; ++i) {
            if (S.onlyIndex >= 0 ? i != S.onlyIndex : (i + (long)(hashStr(s.name) % 1000)) % S.shards != S.shard) continue;
            if (over()) { note("budget_stops"); break; }
            Rng r(mix(S.seed * 1000003ULL + hashStr(s.name) + (std::uint64_t)i * 7919ULL));
            sectionTag = s.name + ":" + std::to_string(i); setCase("");
            Watch autoWatch(s.name + "|whole case", s.bound);
            try { s.fn(r, i); }
            catch (std::exception& e) { fail("exception:" + s.name, std::string("unexpected exception: ") + e.what()); }
            catch (...) { fail("exception:" + s.name, "unexpected exception"); }
            if (S.fails >= 10) break;
        }
        note("ms_" + s.name, (std::uint64_t)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - b).count());
        if (S.fails >= 10) break;
    }
    sectionTag = "end"; setCase("process end");
    emitStats(); emitRaw("@DONE"); std::fflush(nullptr);
    return 0;
}
} // namespace vf

#ifndef VF_NO_MAIN
int main(int argc, char** argv) {
    int r = vf::mainImpl(argc, argv);
#ifdef VF_QUICK_EXIT
    std::fflush(nullptr); _exit(r);
#endif
    return r;
}
#endif
