// C07: perfect-hash maps of many sizes and key families against std::map; prefix tree and fixed buffers against models.
#include "vf.hpp"
#include <array>
#include <deque>
#include <memory>
#include <optional>
#include <span>
#include <HXLibs/container/CHashMap.hpp>
#include <HXLibs/container/CVector.hpp>
#include <HXLibs/container/RadixTree.hpp>
#include <HXLibs/container/ArrayBuf.hpp>
using namespace HX;
namespace {
std::string S(long v) { return std::to_string(v); }
enum class E16 : std::int16_t {};
template <class K> K rndKey(vf::Rng& r, int fam, long i) {
    std::uint64_t v = 0;
    switch (fam) { case 0: v = (std::uint64_t)i; break; case 1: v = r.next(); break; case 2: v = 1ULL << (r.below(64)); break; case 3: v = (std::uint64_t)(-(long)i); break; case 4: v = (std::uint64_t)i * 4096; break; case 5: v = r.below(256); break; default: v = 0x8000000000000000ULL + r.below(512); }
    return (K)v;
}
template <class K, std::size_t N> void ints(vf::Rng& rng) {
    int fam = (int)rng.below(7); std::set<K> ks; std::vector<K> order; long i = 0, guard = 0; while (ks.size() < N) { K k = rndKey<K>(rng, fam, i++); if (++guard > 400) k = (K)rng.next(); if (ks.insert(k).second) order.push_back(k); }
    vf::setCase("N=" + S(N) + " int family " + S(fam) + " first " + S((long)order[0])); rng.shuffle(order); std::array<std::pair<K, long>, N> a{}; std::map<K, long> ref; for (std::size_t j = 0; j < N; ++j) { a[j] = {order[j], (long)j * 7 + 1}; ref[order[j]] = (long)j * 7 + 1; }
    using Mp = container::CHashMap<K, long, N>; auto up = std::make_unique<Mp>(a); Mp& m = *up; std::uint64_t q = 0;
    auto probe = [&](K k) { ++q; auto it = ref.find(k); auto f = std::as_const(m).find(k); auto g = m.find(k); bool in = f != m.end(); if ((f == std::as_const(m).end()) != (g == m.end())) vf::fail("find", "const and mutable find disagree"); if (in != (it != ref.end())) { vf::fail("find", "key " + S((long)k) + (in ? " found although absent" : " not found")); return; }
        if (in) { if (f->first != k || f->second != it->second) vf::fail("find", "key " + S((long)k) + " has value " + S(f->second) + " instead of " + S(it->second)); }
        long v = -1; bool thr = false; try { v = std::as_const(m).at(k); if (m.at(k) != v) vf::fail("at", "at() disagrees"); } catch (std::out_of_range&) { thr = true; } if (thr == in || (in && v != it->second)) vf::fail("at", "at(" + S((long)k) + ") gave " + (thr ? "an error" : S(v))); };
    for (K k : order) { probe(k); for (int b = 0; b < 5; ++b) probe((K)((std::uint64_t)k ^ (1ULL << rng.below(64)))); probe((K)((std::uint64_t)k + 1)); probe((K)((std::uint64_t)k - 1)); } for (int j = 0; j < 40; ++j) probe((K)rng.next()); probe((K)0); probe((K)-1);
    std::map<K, long> seen; for (auto& [k, v] : m) if (!seen.emplace(k, v).second) vf::fail("iterate", "an entry appears twice"); vf::check(seen == ref && m.size() == N && !m.empty(), "iterate", "iteration gives " + S((long)seen.size()) + " entries of " + S(N));
    K w = order[rng.below(N)]; m.at(w) = 424242; ref[w] = 424242; probe(w); Mp c = m; vf::check(c.at(w) == 424242, "copy", "a copied map lost a value");
    vf::eval(q + N); vf::sig(vf::mix((std::uint64_t)order[0] * 131 + (std::uint64_t)order[N / 2] + N * 7919));
}
std::string rndStr(vf::Rng& r, int fam, long i) {
    switch (fam) { case 0: return "key" + S(i); case 1: return r.bytes(r.below(12)); case 2: return std::string((std::size_t)i, 'a'); case 3: { std::string s = "abcdefgh"; r.shuffle(s); return s; } case 4: return r.text(r.below(5), "ab"); case 5: return "averyveryverylongcommonprefix_" + r.text(3); case 6: { std::string s = "Content-Type"; for (auto& c : s) if (r.chance(0.3)) c ^= 0x20; return s; } default: return std::string(r.below(6), '\0') + r.text(r.below(2)); }
}
struct Exact { std::unique_ptr<char[]> p; std::size_t n; explicit Exact(std::string const& s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p.get(), s.data(), n); } std::string_view v() const { return {p.get(), n}; } };
template <std::size_t N> void strs(vf::Rng& rng) {
    int fam = (int)rng.below(8); std::set<std::string> ks; long i = 0, guard = 0; while (ks.size() < N) { ks.insert(++guard > 400 ? rng.text(6) : rndStr(rng, fam, i++)); } std::vector<std::string> order(ks.begin(), ks.end()); rng.shuffle(order); vf::setCase("N=" + S(N) + " string family " + S(fam) + " first " + order[0]);
    std::deque<Exact> keep; std::array<std::pair<std::string_view, int>, N> a{}; std::map<std::string, int> ref; for (std::size_t j = 0; j < N; ++j) { keep.emplace_back(order[j]); a[j] = {keep.back().v(), (int)j + 3}; ref[order[j]] = (int)j + 3; }
    using Mp = container::CHashMap<std::string_view, int, N>; auto up = std::make_unique<Mp>(a); Mp& m = *up; std::uint64_t q = 0;
    auto probe = [&](std::string const& k) { ++q; Exact e(k); auto it = ref.find(k); auto f = std::as_const(m).find(e.v()); bool in = f != std::as_const(m).end(); if (in != (it != ref.end())) { vf::fail("find", "key '" + k + (in ? "' found although absent" : "' not found")); return; } if (in && (f->second != it->second || f->first != k)) vf::fail("find", "wrong value for '" + k + "'");
        bool thr = false; int v = 0; try { v = m.at(e.v()); } catch (std::out_of_range&) { thr = true; } if (thr == in || (in && v != it->second)) vf::fail("at", "at('" + k + "')"); };
    for (auto& k : order) { probe(k); probe(k + "x"); probe(k + std::string(1, '\0')); if (!k.empty()) { probe(k.substr(1)); probe(k.substr(0, k.size() - 1)); auto t = k; t[rng.below(t.size())] ^= (char)(1 << rng.below(8)); probe(t); std::swap(t = k, t); std::reverse(t.begin(), t.end()); probe(t); } } for (int j = 0; j < 30; ++j) probe(rndStr(rng, (int)rng.below(8), (long)rng.below(80))); probe("");
    std::map<std::string, int> seen; for (auto& [k, v] : m) seen.emplace(std::string(k), v); vf::check(seen == ref, "iterate", "iteration does not give the entries");
    vf::eval(q + N); vf::sig(vf::hashStr(order[0] + "|" + order[N - 1] + S(N)));
}
template <std::size_t... N> void spread(vf::Rng& rng, long index, std::index_sequence<N...>) { long k = 0, pick = index % (long)sizeof...(N); ((k++ == pick ? (void)([&] { if constexpr (N % 3 == 0) ints<E16, N>(rng); else if constexpr (N % 3 == 1) ints<std::int64_t, N>(rng); else if (index / (long)sizeof...(N) % 2) ints<std::uint32_t, N>(rng); else ints<std::int8_t, N>(rng); strs<N>(rng); }()) : (void)0), ...); }
constexpr auto table = container::makeCHashMap(std::pair{std::string_view{"http"}, 80}, std::pair{std::string_view{"https"}, 443}, std::pair{std::string_view{"ws"}, 81}, std::pair{std::string_view{"wss"}, 444}, std::pair{std::string_view{""}, 5});
static_assert(table.at(std::string_view{"wss"}) == 444 && table.find(std::string_view{"wsss"}) == table.end());
constexpr auto itable = container::makeCHashMap(std::pair{5, 1}, std::pair{-5, 2}, std::pair{0, 3});
static_assert(itable.at(-5) == 2 && itable.at(0) == 3);
} // namespace
VF_SECTION("perfect-hash", 7000, 60000) { spread(rng, index, std::index_sequence<1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 33, 48, 64>{}); }
VF_SECTION("constexpr-map", 2000, 20000) {
    std::string k = rng.text(rng.below(6), "htpsw"); static const std::map<std::string, int> ref{{"http", 80}, {"https", 443}, {"ws", 81}, {"wss", 444}, {"", 5}}; Exact e(k); auto it = table.find(e.v()); auto r = ref.find(k); vf::check((it != table.end()) == (r != ref.end()) && (it == table.end() || it->second == r->second), "constexpr", "lookup of '" + k + "'");
    int q = (int)rng.range(-9, 9); int got = 0; try { got = itable.at(q); } catch (std::out_of_range&) {} vf::check(got == (q == 5 ? 1 : q == -5 ? 2 : q == 0 ? 3 : 0), "constexpr", "lookup of " + S(q)); vf::eval(2); vf::sig(k + S(q));
}
VF_SECTION("prefix-tree", 3000, 40000) {
    container::RadixTree<long> t; std::map<std::vector<std::string>, long> ref; auto link = [&] { std::vector<std::string> l; for (auto n = rng.below(5); n--;) l.push_back(rng.chance(0.1) ? "" : rng.text(rng.range(1, 2), "abA")); return l; }; std::uint64_t h = 0; int len = (int)rng.range(5, 80);
    for (int i = 0; i < len; ++i) { auto l = link(); h = vf::mix(h + l.size()); for (auto& x : l) h = vf::hashStr(x, h); if (rng.chance(0.4)) { t.insert(l, i); ref[l] = i; } auto g = link(); for (auto* x : {&l, &g}) { auto f = t.find(*x); auto r = ref.find(*x); if (f.has_value() != (r != ref.end()) || (f && *f != r->second)) { vf::fail("tree", "find of a " + S((long)x->size()) + "-segment path gives " + (f ? S(*f) : "nothing")); return; } } }
    vf::eval((std::uint64_t)len * 2); vf::sig(h);
}
VF_SECTION("buffers", 3000, 40000) {
    auto cv = std::make_unique<container::CVector<std::string, 24>>(); std::vector<std::string> r; std::uint64_t h = 1;
    for (int i = 0; i < 60; ++i) { int op = (int)rng.below(8); if (op < 4 && r.size() < 24) { auto s = rng.text(rng.below(3), "ab"); if (op & 1) cv->push_back(s); else { auto s2 = s; cv->push_back(std::move(s2)); } r.push_back(s); } else if (op == 4 && rng.chance(0.2)) { cv->clear(); r.clear(); } else if (op == 5 && !r.empty()) { std::size_t k = rng.below(r.size()); (*cv)[k] = "zz"; r[k] = "zz"; }
        auto q = rng.text(rng.below(3), "ab"); auto f = std::as_const(*cv).find(q); auto rf = std::find(r.begin(), r.end(), q); if (f - std::as_const(*cv).begin() != rf - r.begin()) vf::fail("cvector", "find"); if (cv->size() != r.size() || !std::equal(cv->begin(), cv->end(), r.begin(), r.end())) { vf::fail("cvector", "contents"); return; } if (!r.empty() && (cv->front() != r.front() || cv->back() != r.back())) vf::fail("cvector", "front/back"); h = vf::mix(h + (std::uint64_t)op); }
    auto ab = std::make_unique<container::ArrayBuf<char, 512>>(); std::string b;
    for (int i = 0; i < 60; ++i) { int op = (int)rng.below(5); switch (op) {
        case 0: { auto n = rng.below(512 - b.size() + 1); auto d = rng.bytes(n); std::memcpy(ab->data() + ab->size(), d.data(), n); ab->addSize(n); b += d; break; }
        case 1: { auto k = rng.below(b.size() + 1); ab->moveToHead(std::span<char const>(ab->data() + k, b.size() - k)); b.erase(0, k); break; }
        case 2: { auto k = rng.below(b.size() + 1); ab->resetSize(k); b.resize(k); break; }
        case 3: { auto d = rng.bytes(rng.below(513)); ab->moveToHead(std::span<char const>(d.data(), d.size())); b = d; break; }
        default: if (rng.chance(0.2)) { ab->clear(); b.clear(); } }
        if (ab->size() != b.size() || std::memcmp(ab->data(), b.data(), b.size())) { vf::fail("arraybuf", "contents after op " + S(op)); return; } }
    vf::eval(120); vf::sig(h);
}
