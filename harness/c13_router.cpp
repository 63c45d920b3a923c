// C13: the router dispatches every path to the right handler with the right parameters.
#include "http.hpp"
using namespace ht;
using namespace HX::net;
using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>; using TK = HX::coroutine::Task<>;
enum class Color { Red = 1, Green = 5, Blue = 9 };

struct Pat { std::string text, method; std::vector<std::string> segs; int id; bool wild() const { return !segs.empty() && segs.back() == "**"; } int params() const { int n = 0; for (auto& s : segs) n += s[0] == '{'; return n; } };
static std::vector<std::string> segments(std::string_view p) { std::vector<std::string> v; std::string c; for (char x : p) { if (x == '/') { if (!c.empty()) v.push_back(c); c.clear(); } else c += x; } if (!c.empty()) v.push_back(c); return v; }
// reference: literal before parameter before trailing wildcard, at every segment, backtracking; a later registration of the same shape replaces the earlier one
static Pat const* match(std::vector<Pat> const& ps, std::string const& method, std::vector<std::string> const& q) {
    auto key = [](std::string const& s) { return s[0] == '{' ? std::string("{}") : s; };
    std::function<Pat const*(std::size_t, std::vector<Pat const*>)> go = [&](std::size_t i, std::vector<Pat const*> c) -> Pat const* {
        if (c.empty()) return nullptr; if (i == q.size()) { Pat const* last = nullptr; for (auto p : c) if (p->segs.size() == i) last = p; return last; }
        std::vector<Pat const*> lit, par; Pat const* wild = nullptr; for (auto p : c) { if (p->segs.size() <= i) continue; auto k = key(p->segs[i]); if (k == "{}") par.push_back(p); else if (k == "**") wild = p; else if (k == q[i]) lit.push_back(p); }
        if (auto r = go(i + 1, lit)) return r; if (auto r = go(i + 1, par)) return r; return wild; };
    std::vector<Pat const*> c; for (auto& p : ps) if (p.method == method) c.push_back(&p); return go(0, c); }

static bool openD(std::string const& t) { if (t.find("nan") != t.npos || t.find("inf") != t.npos) return true; errno = 0; (void)std::strtod(t.c_str(), nullptr); return errno == ERANGE; } // left open: "nan", "inf", beyond the range
static std::string conv(Req const& q, std::size_t i) { std::string s; auto one = [&](auto tag) { using T = decltype(tag); try { auto v = q.getPathParam(i).template to<T>(); if constexpr (std::is_same_v<T, double>) { char b[64]; std::snprintf(b, sizeof b, "%.17g", v); s += b; } else if constexpr (std::is_enum_v<T>) s += S((long)v); else s += std::to_string(v); } catch (std::exception const&) { s += "!"; } s += ","; };
    one(int{}); one((unsigned char)0); one((short)0); one((unsigned long)0); std::string t; try { t = low(q.getPathParam(i).template to<std::string>()); } catch (std::exception const&) {} if (openD(t)) s += "?,"; else one(double{}); return s; }
static std::string refConv(std::string const& t) { std::string s; auto neg = !t.empty() && t[0] == '-'; auto digits = t.substr(neg); bool num = !digits.empty() && digits.find_first_not_of("0123456789") == digits.npos; auto in = [&](__int128 lo, __int128 hi) { if (!num || (neg && lo == 0)) { s += "!,"; return; } __int128 v = 0; for (char c : digits) { v = v * 10 + (c - '0'); if (v > ((__int128)1 << 70)) break; } if (neg) v = -v; if (v < lo || v > hi) s += "!,"; else { auto u = neg ? -v : v; std::string o; do o = (char)('0' + (int)(u % 10)) + o; while (u /= 10); s += (v < 0 ? "-" : "") + o + ","; } };
    in(INT32_MIN, INT32_MAX); in(0, 255); in(-32768, 32767); in(0, (__int128)UINT64_MAX); if (openD(low(t))) return s + "?,";
    // a decimal number as from_chars reads one: no leading plus or blanks, no hexadecimal prefix
    bool dbl = !t.empty() && t[0] != '+' && !isspace((unsigned char)t[0]); auto body = low(digits); if (body.starts_with("0x") || body.empty() || body[0] == '+' || body[0] == '-') dbl = false; char* e = nullptr; double v = std::strtod(t.c_str(), &e); if (*e || e == t.c_str()) dbl = false; if (dbl) { char b[64]; std::snprintf(b, sizeof b, "%.17g", v); s += b; s += ","; } else s += "!,"; return s; }

static const char* METHODS[] = {"GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS"};
template <class R, class F> static void add(R& router, std::string const& m, std::string const& p, F f) { if (m == "GET") router.template addEndpoint<GET>(p, f); else if (m == "POST") router.template addEndpoint<POST>(p, f); else if (m == "PUT") router.template addEndpoint<PUT>(p, f); else if (m == "DELETE") router.template addEndpoint<DEL>(p, f); else if (m == "HEAD") router.template addEndpoint<HEAD>(p, f); else if (m == "PATCH") router.template addEndpoint<HttpMethod::PATCH>(p, f); else router.template addEndpoint<HttpMethod::OPTIONS>(p, f); }

static std::vector<std::string> alphabet(vf::Rng& r) { std::vector<std::string> a{"a", "b", "ab", "c", "user", "users", "id"}; if (r.chance(0.3)) { a.push_back("%7Bx%7D"); a.push_back("A"); a.push_back("a.b"); a.push_back("*x"); a.push_back("-"); } while (a.size() > 2 && r.chance(0.4)) a.erase(a.begin() + (long)r.below(a.size())); return a; }
static std::string queryOf(vf::Rng& r) { return r.chance(0.7) ? "" : r.pick({std::string("?"), std::string("?a=1"), std::string("?a/b=/c&x"), std::string("?/**"), "?" + r.text(5) + "=/" + r.text(3), std::string("?a?b=/u/")}); }

VF_SECTION("routes", 2500, 20000) { auto& r = rng;
    auto al = alphabet(r); std::vector<Pat> ps; int n = (int)r.range(1, 25); auto ms = 1 + r.below(3);
    for (int i = 0; i < n; ++i) { Pat p; p.id = i; p.method = METHODS[r.below(ms)]; int len = (int)r.below(6); for (int k = 0; k < len; ++k) p.segs.push_back(r.chance(0.35) ? "{" + r.text(1 + r.below(4), "abcdefgh") + "}" : r.pick(al)); if (r.chance(0.3)) p.segs.push_back("**");
        for (auto& s : p.segs) p.text += (r.chance(0.03) && s != "**" ? "//" : "/") + s; if (p.segs.empty()) p.text = r.chance(0.9) ? "/" : ""; if (!p.wild() && r.chance(0.1)) p.text += "/"; if (r.chance(0.1) && p.text.size() > 1 && p.segs.size() > 1) p.text.erase(0, 1); ps.push_back(p); }
    std::string desc; for (auto& p : ps) desc += p.method + " " + p.text + " | "; vf::setCase(vf::esc(desc, 3000)); std::vector<std::string> log; Router<HttpIO> router;
    auto view = [](Req& q, int id) { std::string s = S(id) + "\n"; for (std::size_t i = 0; i < 8; ++i) { try { auto v = std::string(q.getPathParam(i).template to<std::string_view>()); s += v + "\t" + conv(q, i) + "\n"; } catch (std::out_of_range const&) { s += "!\n"; } catch (std::runtime_error const&) { s += "!\n"; } } try { s += std::string(q.getUniversalWildcardPath()); } catch (std::runtime_error const&) { s += "!"; } return s; };
    for (auto& p : ps) add(router, p.method, p.text, [&log, view, id = p.id](Req& q, Res& s) -> TK { log.push_back(view(q, id)); co_await s.setStatusAndContent(Status::CODE_200, "x").sendRes(); });
    router.setErrorEndpointFunc([&log, view](Req& q, Res& s) -> TK { log.push_back(view(q, -1)); co_await s.setStatusAndContent(Status::CODE_404, "x").sendRes(); });
    Served<> sv(router); int qn = (int)r.range(10, 60); std::vector<std::string> targets, methods, expect; std::string all;
    for (int i = 0; i < qn; ++i) { std::vector<std::string> q; std::string m = METHODS[r.below(ms + (r.chance(0.1) ? 1 : 0))]; if (r.chance(0.75)) { auto& p = r.pick(ps); m = r.chance(0.9) ? p.method : m; for (auto& s : p.segs) { if (s == "**") { for (int k = (int)r.range(r.chance(0.1) ? 0 : 1, 3); k--;) q.push_back(r.chance(0.5) ? r.pick(al) : r.text(1 + r.below(5))); } else if (s[0] == '{') { static const char* v[] = {"12", "-7", "0", "255", "256", "99999999999", "1.5", "1e3", "x1", "1x", "007", "-0", "32768", "18446744073709551615", "+1", "0x1F", "-", "1.", ".5", "*", "**", "nan"}; q.push_back(r.chance(0.4) ? r.pick(al) : r.chance(0.6) ? v[r.below(22)] : r.text(1 + r.below(30))); } else q.push_back(s); }
            if (r.chance(0.25) && !q.empty()) { switch (r.below(4)) { case 0: q.pop_back(); break; case 1: q.push_back(r.pick(al)); break; case 2: q[r.below(q.size())] = r.pick(al); break; default: q.insert(q.begin() + (long)r.below(q.size()), r.pick(al)); } } }
        else for (int k = (int)r.below(6); k--;) q.push_back(r.pick(al));
        std::string t; for (auto& s : q) { t += "/"; while (r.chance(0.04)) t += "/"; t += s; } if (t.empty()) t = "/"; if (r.chance(0.1)) t += "/"; std::string pure = t; t += queryOf(r); methods.push_back(m); targets.push_back(t); all += m + " " + t + " HTTP/1.1\r\n\r\n";
        auto qs = segments(pure); auto* p = match(ps, m, qs); std::string e = S(p ? p->id : -1) + "\n"; std::size_t np = 0; if (p) for (std::size_t k = 0; k < p->segs.size(); ++k) if (p->segs[k][0] == '{') { e += qs[k] + "\t" + refConv(qs[k]) + "\n"; ++np; } for (; np < 8; ++np) e += "!\n";
        if (p && p->wild()) { std::size_t at = 0, k = p->segs.size() - 1; for (std::size_t seg = 0;; ++seg) { while (at < pure.size() && pure[at] == '/') ++at; if (seg == k) break; while (at < pure.size() && pure[at] != '/') ++at; } e += p->params() ? pure.substr(at) : pure.substr(at - 1); } else e += "!"; expect.push_back(e); }
    if (!sv.peer.send(all)) { vf::fail("closed", "closed while sending"); return; }
    for (int i = 0; i < qn; ++i) { std::string err; auto res = sv.peer.response(methods[(std::size_t)i] == "HEAD", err); if (!res) { vf::fail("no-answer", methods[(std::size_t)i] + " " + targets[(std::size_t)i] + ": " + err); return; } }
    sv.finish(); if (!vf::check((int)log.size() == qn, "dispatch-count", [&] { return S((long)log.size()) + " dispatches for " + S(qn) + " requests"; })) return;
    long hits = 0; for (std::size_t i = 0; i < log.size(); ++i) { auto& g = log[i]; auto& e = expect[i]; auto gi = g.substr(0, g.find('\n')), ei = e.substr(0, e.find('\n')); hits += ei != "-1"; auto nm = [&](std::string const& s) { int k = std::atoi(s.c_str()); return k < 0 ? std::string("not found") : ps[(std::size_t)k].method + " " + ps[(std::size_t)k].text; };
        if (!vf::check(gi == ei, "wrong-handler", [&] { return methods[i] + " " + targets[i] + " went to '" + nm(gi) + "', expected '" + nm(ei) + "'"; })) continue; vf::check(g == e, "wrong-parameters", [&] { return methods[i] + " " + targets[i] + " on '" + nm(ei) + "': got " + vf::esc(g, 300) + " expected " + vf::esc(e, 300); }); }
    vf::eval((std::uint64_t)qn); vf::note("matched", (std::uint64_t)hits); vf::note("not found", (std::uint64_t)(qn - hits)); vf::sig(desc);
}
// no matching pattern and no handler set: the built-in answer is a 404
VF_SECTION("default-404", 40, 400) { auto& r = rng; vf::setCase("default 404"); Router<HttpIO> router; router.addEndpoint<GET>("/a/{x}", [](Req&, Res& s) -> TK { co_await s.setStatusAndContent(Status::CODE_200, "x").sendRes(); }); Served<> sv(router); for (int i = 0; i < 10; ++i) { bool hit = r.chance(0.3); std::string t = hit ? "/a/" + r.text(3) : r.pick({std::string("/"), std::string("/a"), "/b/" + r.text(3), "/a/b/" + r.text(2)}), m = hit || r.chance(0.6) ? "GET" : "POST"; sv.peer.send(m + " " + t + " HTTP/1.1\r\n\r\n"); std::string err; auto res = sv.peer.response(false, err); if (!res) { vf::fail("no-answer", err); return; } vf::check(res->status == (hit ? 200 : 404), "wrong-handler", [&] { return m + " " + t + " answered " + S(res->status); }); } vf::eval(10); vf::sig(r.next()); }
// handlers that report a bad parameter by its exception: the request fails, the server lives
VF_SECTION("conversions", 2000, 4000) { auto& r = rng;
    std::string seg; switch (r.below(4)) { case 0: seg = S((long)(r.next() >> r.below(64))); break; case 1: seg = "-" + S((long)(r.next() >> r.below(64) >> 1)); break; case 2: seg = r.text(1 + r.below(12), "0123456789.-+eExXnaifINF"); break; default: seg = r.text(1 + r.below(8)); } vf::setCase(vf::esc(seg)); std::string got, wide; Router<HttpIO> router;
    router.addEndpoint<GET>("/{v}", [&](Req& q, Res& s) -> TK { got = conv(q, 0); std::string c; try { c = S((long)q.getPathParam(0).to<Color>()); } catch (std::exception const&) { c = "!"; } wide = c; co_await s.setStatusAndContent(Status::CODE_200, "x").sendRes(); });
    { Served<> sv(router); sv.peer.send("GET /" + seg + " HTTP/1.1\r\n\r\n"); std::string err; if (!sv.peer.response(false, err)) { vf::fail("no-answer", err); return; } sv.finish(); } auto e = refConv(seg); vf::check(got == e, "wrong-conversion", [&] { return "'" + vf::esc(seg) + "': got " + got + " expected " + e; }); vf::eval(6); vf::sig(seg);
}
