// C23: arbitrary bytes as JSON: memory safety, rejection of truncated/mistyped documents, no silent misreading.
#include "json_types.hpp"
using namespace jt;
template <class T> struct Res { bool ok; Dom d; };
// the text lives in a heap block of exactly its size, so one byte of over-read is seen by AddressSanitizer
template <class T> static Res<T> read(std::string const& t) {
    std::unique_ptr<char[]> ex(new char[t.size()]); std::memcpy(ex.get(), t.data(), t.size()); vf::setCase(t); vf::eval();
    T r{}; try { HX::reflection::fromJson(r, std::string_view{ex.get(), t.size()}); } catch (std::exception&) { vf::note("rejected"); return {false, {}}; }
    vf::note("accepted"); return {true, td(r)};
}
static bool dup(Dom const& d) { std::set<std::string> s; for (auto& m : d.o) if (!s.insert(m.first).second || dup(m.second)) return true; for (auto& x : d.a) if (dup(x)) return true; return false; }
// every element the document gives must be in the value read, unchanged ("" if so)
static std::string misread(Dom const& doc, Dom const& got, bool fixedArr = false) {
    if (doc.k == Dom::Null) return got.k == Dom::Null ? "" : "null read as " + dom::str(got);
    if (doc.k == Dom::Num && got.k == Dom::Bool) return doc.s[0] == (got.b ? '1' : '0') ? "" : doc.s + " read as bool";   // 0 and 1 are documented spellings of a bool
    if (doc.k != got.k) return "kind: " + dom::str(doc) + " read as " + dom::str(got);
    switch (doc.k) {
        case Dom::Obj: for (auto& m : doc.o) { Dom const* f = nullptr; for (auto& g : got.o) if (g.first == m.first) f = &g.second; if (!f) return "member " + m.first + " lost"; auto e = misread(m.second, *f); if (!e.empty()) return m.first + "." + e; } return "";
        case Dom::Arr: if (doc.a.size() > got.a.size()) return "elements lost"; for (std::size_t i = 0; i < doc.a.size(); ++i) { auto e = misread(doc.a[i], got.a[i]); if (!e.empty()) return "[" + std::to_string(i) + "]" + e; } return "";
        case Dom::Num: { bool same = got.f32 ? strtof(doc.s.c_str(), nullptr) == strtof(got.s.c_str(), nullptr) : got.fp ? strtod(doc.s.c_str(), nullptr) == strtod(got.s.c_str(), nullptr) : strtold(doc.s.c_str(), nullptr) == strtold(got.s.c_str(), nullptr); return same ? "" : doc.s + " read as " + got.s; }
        default: return dom::eq(doc, got) ? "" : dom::str(doc) + " read as " + dom::str(got);
    }
}
static void judge(std::string const& t, bool ok, Dom const& got) {
    if (!ok) return; Dom d; try { d = dom::parse(t); } catch (dom::Err&) { vf::note("accepted_leniently"); return; }
    if (dup(d)) return; vf::note("accepted_and_compared"); auto e = misread(d, got); if (!e.empty()) vf::fail("misread", e + " | " + t);
}
template <class T> static Dom some(vf::Rng& r) { T v{}; gen(r, v); return td(v); }
template <class T> static void truncated(vf::Rng& r, char const* n) {
    std::string t; dom::write(some<T>(r), t, r.chance(0.5) ? &r : nullptr); while (!t.empty() && strchr(" \t\r\n", t.back())) t.pop_back();
    std::size_t cut = r.chance(0.2) ? t.size() - 1 : r.below(t.size()); t.resize(cut); vf::sig(n + t);
    auto g = read<T>(t); if (g.ok) vf::fail("truncated-accepted", std::string(n) + " " + t + " gave " + dom::str(g.d));
}
static std::string mutate(vf::Rng& r, std::string t) {
    static const std::vector<std::string> tok = {"{", "}", "[", "]", ":", ",", "\"", "\\", "\\u", "\\u12", "\\ud800", "\\udc00", "\\ud83d\\ude00", "null", "true", "false", "-", "1e999", "99999999999999999999", "-1", "0.5", "\"a\"", "\"\"", "{}", "[]", " ", "\n", std::string(1, 0), "\xff", "nul", "tru", "\"a\":1", "NULL", "1e", "+1", "nan", "inf", "00"};
    for (auto k = 1 + r.below(4); k--;) { std::size_t p = r.below(t.size() + 1); switch (r.below(7)) {
        case 0: if (p < t.size()) t[p] = (char)(t[p] ^ (1 << r.below(8))); break; case 1: t.insert(p, r.pick(tok)); break; case 2: if (p < t.size()) t.erase(p, 1 + r.below(4)); break;
        case 3: if (p < t.size()) t[p] = (char)r.next(); break; case 4: { std::size_t q = r.below(t.size() + 1); if (q < p) std::swap(p, q); t.insert(r.below(t.size() + 1), t.substr(p, std::min<std::size_t>(q - p, 40))); break; }
        case 5: if (p < t.size()) t.replace(p, 1 + r.below(3), r.pick(tok)); break; default: t.resize(p); } }
    return t;
}
template <class T> static void mutated(vf::Rng& r, char const* n) { std::string t; dom::write(some<T>(r), t, r.chance(0.5) ? &r : nullptr); t = mutate(r, t); vf::sig(n + t); auto g = read<T>(t); judge(t, g.ok, g.d); }
// replace one node by one of a kind that its type cannot hold; such a document must be refused
static Dom otherKind(vf::Rng& r, Dom::K k) {
    for (;;) { Dom d; switch (r.below(6)) { case 0: d = dom::mk(r.chance(0.5)); break; case 1: d = dom::mkNum(std::to_string(r.range(-5, 5))); break; case 2: d = dom::mkStr(rstr(r)); break; case 3: d.k = Dom::Arr; if (r.chance(0.5)) d.a.push_back(dom::mkNum("1")); break; case 4: d.k = Dom::Obj; if (r.chance(0.5)) d.o.emplace_back("q", dom::mkNum("1")); break; default: break; }
        if (d.k != k) return d; } }
static void nodes(Dom& d, std::vector<Dom*>& v) { v.push_back(&d); for (auto& x : d.a) nodes(x, v); for (auto& m : d.o) nodes(m.second, v); }
template <class T> static void mistyped(vf::Rng& r, char const* n) {
    Dom d = some<T>(r); std::vector<Dom*> v; nodes(d, v); Dom* p; for (int i = 0;; ++i) { p = r.pick(v); if (p->k != Dom::Null || i > 50) break; } if (p->k == Dom::Null) return;
    Dom::K k = p->k; Dom sub = otherKind(r, k); if (sub.k == Dom::Null || (k == Dom::Bool && sub.k == Dom::Num)) return; *p = sub; std::string t; dom::write(d, t, r.chance(0.5) ? &r : nullptr); vf::sig(n + t);
    auto g = read<T>(t); if (g.ok) vf::fail("mistyped-accepted", std::string(n) + " kind " + std::to_string(k) + "->" + std::to_string(sub.k) + " " + t + " gave " + dom::str(g.d));
}
template <class T> static void bytes(vf::Rng& r) { std::string t = r.chance(0.5) ? r.bytes(r.below(60)) : r.text(r.below(60), "{}[]:,\"\\ u0123dD8-+.eEnultrfas\t\n"); vf::sig(t); auto g = read<T>(t); judge(t, g.ok, g.d); }
#define ALL(T, id, q) VF_SECTION("truncated-" id, q * 2, q * 30) { truncated<T>(rng, id); } \
    VF_SECTION("mutated-" id, q * 4, q * 100) { mutated<T>(rng, id); }
#define ALL2(T, id, q) VF_SECTION("mistyped-" id, q * 2, q * 30) { mistyped<T>(rng, id); }
#define ALL3(T, id, q) VF_SECTION("bytes-" id, q, q * 40) { bytes<T>(rng); }
VF_SECTION("truncated-Inner", 3000, 60000) { truncated<Inner>(rng, "Inner"); }
VF_SECTION("mutated-Inner", 15000, 500000) { mutated<Inner>(rng, "Inner"); }
VF_SECTION("mistyped-Inner", 3000, 60000) { mistyped<Inner>(rng, "Inner"); }
VF_SECTION("bytes-Inner", 5000, 200000) { bytes<Inner>(rng); }
VF_SECTION("truncated-Nums", 3000, 60000) { truncated<Nums>(rng, "Nums"); }
VF_SECTION("mutated-Nums", 15000, 500000) { mutated<Nums>(rng, "Nums"); }
VF_SECTION("mistyped-Nums", 3000, 60000) { mistyped<Nums>(rng, "Nums"); }
VF_SECTION("truncated-Wide", 6000, 100000) { truncated<Wide>(rng, "Wide"); }
VF_SECTION("mutated-Wide", 20000, 500000) { mutated<Wide>(rng, "Wide"); }
VF_SECTION("mistyped-Wide", 6000, 60000) { mistyped<Wide>(rng, "Wide"); }
VF_SECTION("truncated-Tree", 4000, 60000) { truncated<Tree>(rng, "Tree"); }
VF_SECTION("mutated-Tree", 15000, 300000) { mutated<Tree>(rng, "Tree"); }
VF_SECTION("mistyped-Tree", 4000, 60000) { mistyped<Tree>(rng, "Tree"); }
VF_SECTION("truncated-Small", 3000, 60000) { truncated<Small>(rng, "Small"); }
VF_SECTION("mutated-Small", 10000, 300000) { mutated<Small>(rng, "Small"); }
VF_SECTION("mistyped-Small", 3000, 60000) { mistyped<Small>(rng, "Small"); }
VF_SECTION("truncated-string", 4000, 60000) { truncated<std::string>(rng, "string"); }
VF_SECTION("mutated-string", 10000, 300000) { mutated<std::string>(rng, "string"); }
VF_SECTION("truncated-map", 4000, 60000) { truncated<std::map<std::string, std::vector<std::string>>>(rng, "map"); }
VF_SECTION("mutated-map", 10000, 300000) { mutated<std::map<std::string, std::vector<std::string>>>(rng, "map"); }
VF_SECTION("bytes-map", 5000, 200000) { bytes<std::map<std::string, int>>(rng); }
VF_SECTION("truncated-tuples", 4000, 60000) { truncated<TwoTup>(rng, "tuples"); }
VF_SECTION("mutated-tuples", 10000, 300000) { mutated<TwoTup>(rng, "tuples"); }
VF_SECTION("mistyped-tuples", 3000, 60000) { mistyped<TwoTup>(rng, "tuples"); }
VF_SECTION("bytes-int", 3000, 200000) { bytes<int>(rng); bytes<double>(rng); bytes<bool>(rng); bytes<Color>(rng); bytes<std::optional<int>>(rng); bytes<std::array<int, 2>>(rng); }
// serialising text in an invalid encoding: refused, or written so that a parser can read it; never a memory error
VF_SECTION("write-invalid-utf8", 20000, 500000) {
    std::string s = rng.chance(0.5) ? rng.bytes(rng.below(12)) : rstr(rng); if (rng.chance(0.7) && !s.empty()) { if (rng.chance(0.5)) s.resize(rng.below(s.size())); else s[rng.below(s.size())] = (char)rng.next(); }
    std::unique_ptr<char[]> ex(new char[s.size()]); std::memcpy(ex.get(), s.data(), s.size()); std::string_view v{ex.get(), s.size()}; vf::setCase(s); vf::eval(); vf::sig(s);
    std::string t; bool ok = true; try { HX::reflection::toJson(v, t); } catch (std::exception&) { ok = false; }
    if (ok) { try { auto d = dom::parse(t); if (dom::validUtf8(s)) vf::check(d.s == s, "write-content", s); } catch (dom::Err& e) { vf::check(!dom::validUtf8(s), "write-invalid", std::string(e.what()) + " for " + s + " wrote " + t); vf::note("invalid_passed_through"); } }
    else { vf::note("invalid_refused"); vf::check(!dom::validUtf8(s), "valid-refused", s); }
}
struct Deep { std::shared_ptr<Deep> d; };
// documents as deep as a stranger likes: read or refused, never the end of the process; a couple of hundred levels are read
VF_SECTION("nesting", 120, 1500) { int n = rng.chance(0.3) ? 200 : rng.chance(0.5) ? (int)rng.range(1, 3000) : rng.chance(0.5) ? (int)rng.range(3000, 60000) : (int)rng.range(60000, 600000); bool ptr = rng.chance(0.5), mix = rng.chance(0.3), cut = n > 200 && rng.chance(0.3), own = rng.chance(0.3); vf::setCase(std::to_string(n) + " levels"); vf::sig(std::to_string(n) + (ptr ? "p" : "k") + (mix ? "m" : "") + (cut ? "c" : "")); vf::eval();
    auto go = [&] { std::string t, e; for (int i = 0; i < n; ++i) { bool p = mix ? i % 2 : ptr; t += p ? "{\"next\":" : "{\"kids\":["; if (!cut) e += p ? '}' : ']'; if (!cut && !p) e += '}'; } std::string tail; for (std::size_t i = e.size(); i--;) tail += e[i] == '}' && i && e[i - 1] == ']' ? (--i, "]}") : e[i] == '}' ? "}" : "]"; if (mix ? !((n - 1) % 2) : !ptr) {} else t += "{}"; t += tail;
        Tree r; bool ok = true; try { HX::reflection::fromJson(r, t); } catch (std::exception&) { ok = false; } if (cut) { vf::check(!ok, "truncated-accepted", std::to_string(n)); } else { if (n <= 200) vf::check(ok, "nested-refused", std::to_string(n)); if (ok) { int d = 0; for (Tree* x = &r; x; ++d) x = x->kids.size() == 1 ? &x->kids[0] : x->kids.empty() ? x->next.get() : nullptr; bool lastPtr = mix ? (n - 1) % 2 : ptr; vf::check(d == n + (lastPtr ? 1 : 0), "nested-depth", std::to_string(d) + " levels read of " + std::to_string(n)); vf::note("deep_read"); } else vf::note("deep_refused"); }
        Tree q; try { HX::reflection::fromJson(q, std::string("{\"kids\":[{\"v\":7}]}")); vf::check(q.kids.size() == 1 && q.kids[0].v == 7, "after-deep"); } catch (std::exception& x) { vf::fail("after-deep", x.what()); } };
    if (own) std::thread(go).join(); else go(); }
// escapes that name no character are reported, in strings and in keys; those that do give exactly that character
VF_SECTION("escapes", 6000, 200000) { auto& r = rng;
    std::string t, want; bool bad = false; auto lit = [&](unsigned u) { char b[8]; std::snprintf(b, 8, r.chance(0.5) ? "\\u%04x" : "\\u%04X", u); t += b; }; auto pickHi = [&] { return r.chance(0.5) ? r.pick({0xD800u, 0xDBFFu}) : 0xD800u + (unsigned)r.below(0x400); }; auto pickLo = [&] { return r.chance(0.5) ? r.pick({0xDC00u, 0xDFFFu}) : 0xDC00u + (unsigned)r.below(0x400); }; auto pickNo = [&] { return r.chance(0.5) ? r.pick({0x1u, 0xD7FFu, 0xE000u, 0xFFFFu, 0x7FFu, 0x800u}) : 1 + (unsigned)r.below(0xD7FF); };
    for (int n = (int)r.range(1, 4); n--;) switch (r.below(r.chance(0.4) ? 7 : 3)) { case 0: { auto u = pickNo(); lit(u); dom::utf8(want, u); break; } case 1: { auto h = pickHi(), l = pickLo(); lit(h); lit(l); dom::utf8(want, 0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00)); break; } case 2: { auto x = r.text(1 + r.below(8), "abz19"); t += x; want += x; break; }
        case 3: lit(pickHi()); lit(pickNo()); bad = true; break; case 4: lit(pickHi()); t += r.pick({"a", "abcdefgh", "\\n", "\\n1234567"}); bad = true; break; case 5: lit(pickLo()); if (r.chance(0.5)) t += "abcdefgh"; bad = true; break; default: lit(pickHi()); lit(pickHi()); bad = true; }
    bool key = r.chance(0.3); std::string doc = key ? "{\"" + t + "\":1}" : "[\"" + t + "\"]"; vf::setCase(doc); vf::sig(doc); vf::eval(); std::unique_ptr<char[]> ex(new char[doc.size()]); std::memcpy(ex.get(), doc.data(), doc.size()); std::string_view sv{ex.get(), doc.size()}; std::vector<std::string> v; std::map<std::string, int> m; bool threw = false; try { if (key) HX::reflection::fromJson(m, sv); else HX::reflection::fromJson(v, sv); } catch (std::exception&) { threw = true; }
    if (bad) { vf::check(threw, "bad-escape-accepted", doc); vf::note("bad escapes"); } else vf::check(!threw && (key ? m.size() == 1 && m.begin()->first == want : v.size() == 1 && v[0] == want), "escape-misread", doc);
}
