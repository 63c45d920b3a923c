// C22: JSON round trip, validity of the output, acceptance of equivalent texts.
#include "json_types.hpp"
using namespace jt;
template <class T> static void round(vf::Rng& rng, char const* name) {
    T v{}; gen(rng, v); Dom want = td(v); vf::setCase(std::string(name) + " " + dom::str(want)); vf::eval(); vf::sig(std::string(name) + dom::str(want));
    std::string text; HX::reflection::toJson(v, text);
    try { Dom got = dom::parse(text); vf::check(dom::eq(got, want), "write-content", "wrote " + text + " for " + dom::str(want)); }
    catch (dom::Err& e) { vf::fail("write-invalid", std::string(e.what()) + " in " + text); return; }
    auto rd = [&](std::string const& t, char const* key, Dom const& w) { std::unique_ptr<char[]> ex(new char[t.size()]); std::memcpy(ex.get(), t.data(), t.size()); T r{};
        try { HX::reflection::fromJson(r, std::string_view{ex.get(), t.size()}); } catch (std::exception& e) { vf::fail(key, std::string("threw ") + e.what() + " on " + t); return; }
        Dom g = td(r); vf::check(dom::eq(g, w), key, "read " + dom::str(g) + " from " + t); };
    rd(text, "read-back", want);
    for (int k = 0; k < 2; ++k) { std::string alt; dom::write(want, alt, &rng); rd(alt, "read-equivalent", want); }
    { T used{}; gen(rng, used); std::string was = dom::str(td(used)); // an object that already holds something
      try { HX::reflection::fromJson(used, text); vf::check(dom::eq(td(used), want), "read-into-used", "read " + dom::str(td(used)) + " from " + text + " into " + was); } catch (std::exception& e) { vf::fail("read-into-used", std::string("threw ") + e.what() + " on " + text); } }
    if (vf::st().samples.size() < 2) vf::sample(text);
}
#define RT(T, q) VF_SECTION("round-" #T, q, q * 15) { round<T>(rng, #T); }
RT(Inner, 4000)
RT(Nums, 4000)
RT(Wide, 5000)
RT(Tree, 2500)
RT(Priv, 3000)
RT(One, 5000)
RT(Small, 3000)
RT(Big, 1000)
VF_SECTION("round-vector", 2000, 30000) { round<std::vector<Inner>>(rng, "vector<Inner>"); }
VF_SECTION("round-map", 4000, 60000) { round<std::map<std::string, std::vector<std::string>>>(rng, "map"); }
VF_SECTION("round-string", 8000, 120000) { round<std::string>(rng, "string"); }
VF_SECTION("round-tuples", 3000, 40000) { round<TwoTup>(rng, "tuples"); }
// every Unicode scalar value survives, alone in a string and as a map key
VF_SECTION("every-codepoint", 64, 64) {
    for (unsigned c = (unsigned)index * 0x4400, e = std::min(0x110000u, c + 0x4400u); c < e; ++c) { if (c >= 0xD800 && c <= 0xDFFF) continue;
        std::string s; dom::utf8(s, c); s += "x"; std::string t; HX::reflection::toJson(s, t); std::string b; vf::eval();
        try { HX::reflection::fromJson(b, t); } catch (std::exception& x) { b = std::string("threw ") + x.what(); }
        if (b != s) vf::fail("codepoint", "U+" + std::to_string(c) + " wrote " + t + " read " + b);
        if (c % 61 == 0) { vf::sig((std::uint64_t)c); std::string k = "\"" + s + "\":1"; std::map<std::string, int> m; HX::reflection::fromJson(m, "{" + k + "}" ); std::string want = s; (void)want; if (c != '"' && c != '\\' && c >= 32) vf::check(m.size() == 1 && m.begin()->first == s, "map-key", vf::esc(k)); } }
}
// members left out keep their defaults; unknown names are reported
VF_SECTION("missing-and-unknown", 4000, 60000) {
    Inner v; gen(rng, v); Dom d = td(v), full = d; for (std::size_t i = 0; i < d.o.size();) if (rng.chance(0.4)) d.o.erase(d.o.begin() + (long)i); else ++i;
    std::string t; dom::write(d, t, &rng); Inner r; vf::setCase(t); vf::eval(); vf::sig(t);
    HX::reflection::fromJson(r, t); Dom w = td(Inner{}); for (auto& [k, x] : w.o) for (auto& [k2, y] : d.o) if (k == k2) x = y;
    vf::check(dom::eq(td(r), w), "read-missing-members", dom::str(td(r)) + " from " + t);
    std::string un = rng.text(1 + rng.below(8), "abcdosxyz_"); bool known = false; for (auto& [k, x] : full.o) known |= k == un;
    if (!known) { d.o.emplace_back(un, dom::mkNum("1")); std::string u; dom::write(d, u, &rng); bool threw = false; try { Inner q; HX::reflection::fromJson(q, u); } catch (std::exception&) { threw = true; } vf::check(threw, "unknown-member-accepted", u); }
}
// variants and other write-only shapes
VF_SECTION("write-only", 2000, 20000) {
    std::variant<int, std::string, Inner, std::monostate, std::vector<double>> v; switch (rng.below(5)) { case 0: v = rint<int>(rng); break; case 1: v = rstr(rng); break; case 2: { Inner i; gen(rng, i); v = i; break; } case 3: v = std::monostate{}; break; default: { std::vector<double> x; for (auto n = rng.below(3); n--;) x.push_back(rflt<double>(rng)); v = x; } }
    std::vector<decltype(v)> many{v, v}; std::string t; HX::reflection::toJson(many, t); vf::setCase(t); vf::eval(); vf::sig(t);
    try { vf::check(dom::eq(dom::parse(t), td(many)), "write-content", t); } catch (dom::Err& e) { vf::fail("write-invalid", std::string(e.what()) + " in " + t); }
    std::string arr; int c3[3] = {1, -2, rint<int>(rng)}; HX::reflection::toJson(c3, arr); vf::check(arr == "[1,-2," + std::to_string(c3[2]) + "]", "write-content", arr);
}
// an array that is shorter than the tuple it is read into leaves the rest at its default, and what follows it is read correctly
VF_SECTION("short-tuples", 3000, 40000) { auto& r = rng;
    using T3 = std::tuple<int, std::string, double, std::vector<int>>; struct In { T3 a{-1, "dflt", 0.5, {9}}; std::vector<T3> v; int z = 7; std::tuple<T3, T3, int> n; };
    auto arr = [&](int k) { Dom d; d.k = Dom::Arr; T3 x; std::get<0>(x) = rint<int>(r); std::get<1>(x) = rstr(r); std::get<2>(x) = rflt<double>(r); for (auto c = r.below(4); c--;) std::get<3>(x).push_back(rint<int>(r)); Dom f = td(x); for (int i = 0; i < k; ++i) d.a.push_back(f.a[(std::size_t)i]); return d; };
    auto fill = [](Dom d, Dom const& def) { for (std::size_t i = d.a.size(); i < def.a.size(); ++i) d.a.push_back(def.a[i]); return d; };
    Dom doc, want; doc.k = want.k = Dom::Obj; Dom zero = td(T3{}), dflt = td(T3{-1, "dflt", 0.5, {9}}); Dom a = arr((int)r.below(5)); doc.o.emplace_back("a", a); want.o.emplace_back("a", fill(a, dflt)); Dom v, wv; v.k = wv.k = Dom::Arr; for (int i = (int)r.below(4); i--;) { v.a.push_back(arr((int)r.below(5))); wv.a.push_back(fill(v.a.back(), zero)); } doc.o.emplace_back("v", v); want.o.emplace_back("v", wv); int z = rint<int>(r); doc.o.emplace_back("z", dom::mkNum(std::to_string(z))); want.o.emplace_back("z", dom::mkNum(std::to_string(z)));
    Dom n, wn; n.k = wn.k = Dom::Arr; int k = (int)r.below(4); for (int i = 0; i < 3; ++i) { if (i < 2) { Dom x = arr((int)r.below(5)); if (i < k) n.a.push_back(x); wn.a.push_back(i < k ? fill(x, zero) : zero); } else { if (i < k) n.a.push_back(dom::mkNum("5")); wn.a.push_back(dom::mkNum(i < k ? "5" : "0")); } } doc.o.emplace_back("n", n); want.o.emplace_back("n", wn);
    std::string t; dom::write(doc, t, &r); vf::setCase(t); vf::eval(); vf::sig(t); In in; std::unique_ptr<char[]> ex(new char[t.size()]); std::memcpy(ex.get(), t.data(), t.size()); try { HX::reflection::fromJson(in, std::string_view{ex.get(), t.size()}); } catch (std::exception& e) { vf::fail("short-tuple", std::string("threw ") + e.what()); return; } Dom got; got.k = Dom::Obj; got.o.emplace_back("a", td(in.a)); got.o.emplace_back("v", td(in.v)); got.o.emplace_back("z", dom::mkNum(std::to_string(in.z))); got.o.emplace_back("n", td(in.n)); vf::check(dom::eq(got, want), "short-tuple", [&] { return "read " + dom::str(got); });
}
