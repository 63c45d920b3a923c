// C29: a URL is taken apart into exactly its components, and the connection goes where it names.
#include <dlfcn.h>
#include <netdb.h>
#include "client.hpp"
using namespace ct; using namespace HX::net;
struct Exact { std::unique_ptr<char[]> p; std::size_t n; explicit Exact(std::string_view s) : p(new char[s.size()]), n(s.size()) { if (n) std::memcpy(p.get(), s.data(), n); } std::string_view sv() const { return {p.get(), n}; } };

struct Url { std::string text, scheme, user, pass, host, port, target, frag; bool hasScheme = true, hasUser = false, hasPass = false, v6 = false; };
static std::string chars(vf::Rng& r, std::size_t lo, std::size_t hi, std::string const& set) { return r.text((std::size_t)r.range((long)lo, (long)hi), set.c_str()); }
static const std::string unres = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~", sub = "!$&'()*+,;=";
static const std::vector<std::pair<std::string, int>> ports = {{"http", 80}, {"https", 443}, {"ftp", 21}, {"ftps", 990}, {"sftp", 22}, {"smtp", 25}, {"pop3", 110}, {"imap", 143}, {"ldap", 389}, {"ldaps", 636}, {"telnet", 23}, {"ssh", 22}, {"ws", 80}, {"wss", 443}};
static Url gen(vf::Rng& r) { Url u; u.hasScheme = r.chance(0.9); if (u.hasScheme) u.scheme = r.chance(0.8) ? ports[r.below(ports.size())].first : r.chance(0.5) ? "socks5" : "x-" + chars(r, 1, 5, "abc+.-019"); if (r.chance(0.15)) u.scheme = recase(r, u.scheme);
    if (u.hasScheme) u.text = u.scheme + "://"; if (r.chance(0.35)) { u.hasUser = true; u.user = chars(r, 0, 8, unres + sub + "%"); u.hasPass = r.chance(0.7); if (u.hasPass) u.pass = chars(r, 0, 10, unres + sub + ":%"); u.text += u.user + (u.hasPass ? ":" + u.pass : "") + "@"; }
    switch (r.below(6)) { case 0: u.host = S(r.range(0, 255)) + "." + S(r.range(0, 255)) + "." + S(r.range(0, 255)) + "." + S(r.range(0, 255)); break; case 1: { static const char* v[] = {"[::1]", "[::]", "[2001:db8::1]", "[fe80::1:2:3:4]", "[::ffff:1.2.3.4]", "[1:2:3:4:5:6:7:8]", "[v1.ab:c]"}; u.host = v[r.below(7)]; u.v6 = true; break; } case 2: u.host = chars(r, 1, 1, unres); break; case 3: u.host = chars(r, 1, 60, unres + sub + "%"); break; default: u.host = chars(r, 1, 10, "abcdefghijklmnop0123456789-") + "." + chars(r, 2, 8, "abcxyz."); }
    // without a scheme "a:b@…" or digits would be ambiguous only to a reader, not to the grammar used here
    u.text += u.host; switch (r.below(5)) { case 0: case 1: break; case 2: u.port = S(r.range(0, 65535)); u.text += ":" + u.port; break; case 3: { static const char* p[] = {"0", "1", "80", "443", "65535", "8080", "00080", "65534"}; u.port = p[r.below(8)]; u.text += ":" + u.port; break; } default: if (u.hasScheme && r.chance(0.2)) u.text += ":"; }
    std::string pc = unres + sub + "%:@"; std::string path, query; for (int n = (int)r.below(5); n--;) path += "/" + chars(r, 0, 9, pc); if (r.chance(0.05)) path += "/http://a:b@c:9/x"; bool q = r.chance(0.4); if (q) query = "?" + chars(r, 0, 20, pc + "/?") + (r.chance(0.2) ? "=http://u:p@h:1/?#"+std::string() : ""); auto h = query.find('#'); if (h != query.npos) query.erase(h); if (r.chance(0.2)) { u.frag = "#" + chars(r, 0, 10, pc + "/?#"); }
    u.target = (path.empty() ? "/" : path) + query; u.text += path + query + u.frag; return u; }
static std::string what(std::function<std::string()> f) { try { return f(); } catch (std::exception const& e) { return "<error>"; } }
static int defPort(std::string s) { s = low(s); for (auto& [k, v] : ports) if (k == s) return v; return -1; }
VF_SECTION("parse", 60000, 2000000) { auto& r = rng;
    auto u = gen(r); vf::setCase(u.text); Exact e(u.text); auto sv = e.sv(); vf::eval(9);
    auto eq = [&](char const* key, std::string const& a, std::string const& b) { vf::check(a == b, key, [&] { return std::string(key) + " of " + u.text + ": got '" + vf::esc(a, 120) + "' expected '" + vf::esc(b, 120) + "'"; }); };
    eq("path", what([&] { return std::string(UrlParse::extractPath(sv)); }), u.target); eq("host", what([&] { return std::string(UrlParse::extractDomainName(sv)); }), u.host); eq("scheme", what([&] { return std::string(UrlParse::extractProtocol(sv)); }), u.hasScheme ? u.scheme : "<error>");
    eq("user", what([&] { auto a = UrlParse::extractUser(sv); return a ? std::string(a->account) + "\n" + std::string(a->password) : "-"; }), u.hasUser ? u.user + "\n" + u.pass : "-");
    eq("hostname", what([&] { UrlInfoExtractor x(sv); return std::string(x.getHostname()); }), u.v6 ? u.host.substr(1, u.host.size() - 2) : u.host);
    int want = !u.port.empty() ? std::atoi(u.port.c_str()) : u.hasScheme ? defPort(u.scheme) : 80; eq("port", what([&] { UrlInfoExtractor x(sv); return S(UrlParse::getProtocolPort(x.getService())); }), want < 0 ? "<error>" : S(want));
    auto l = low(u.scheme); if (l == "ws" || l == "wss") { auto o = what([&] { return UrlParse::extractWsOrigin(sv); }); eq("origin", o, (l == "ws" ? "http://" : "https://") + u.host + (u.port.empty() ? "" : ":" + u.port)); } else eq("origin", what([&] { return UrlParse::extractWsOrigin(sv); }), "<error>");
    if (u.hasScheme) { std::string c = u.text; eq("protocol", what([&] { return UrlParse::removeProtocol(c); }), u.scheme); eq("rest", c, u.text.substr(u.scheme.size() + 3)); } vf::note(std::string("urls with ") + (u.v6 ? "an IPv6 literal" : "a name or IPv4")); vf::sig(u.text);
}
// RFC 3986 appendix B, for a text with "://"
struct Ref { bool ok = false; std::string scheme, host, port, user, target; bool hasUser = false; };
static Ref refParse(std::string const& s) { Ref x; auto p = s.find("://"); if (p == s.npos || p == 0) return x; for (unsigned char c : s.substr(0, p)) if (!isalnum(c) && c != '+' && c != '-' && c != '.') return x; if (!isalpha((unsigned char)s[0])) return x; x.scheme = s.substr(0, p); auto a = p + 3, e = s.find_first_of("/?#", a); if (e == s.npos) e = s.size(); auto au = s.substr(a, e - a); auto at = au.rfind('@'); if (at != au.npos) { x.hasUser = true; x.user = au.substr(0, at); au = au.substr(at + 1); if (x.user.find('@') != x.user.npos) return x; }
    std::size_t h; if (!au.empty() && au[0] == '[') { h = au.find(']'); if (h == au.npos) return x; ++h; } else { h = au.find(':'); if (h == au.npos) h = au.size(); } x.host = au.substr(0, h); if (x.host.empty() || x.host == "[]") return x; if (h < au.size()) { if (au[h] != ':') return x; x.port = au.substr(h + 1); if (x.port.find_first_not_of("0123456789") != x.port.npos) return x; if (x.port.size() > 5 && x.port.find_first_not_of('0') != x.port.npos && x.port.substr(x.port.find_first_not_of('0')).size() > 5) return x; if (!x.port.empty() && std::atol(x.port.c_str()) > 65535) return x; }
    for (unsigned char c : s) if (c <= 32 || c >= 127 || std::strchr("\"<>\\^`{|}", c)) return x; auto f = s.find('#', e); auto t = s.substr(e, f == s.npos ? f : f - e); x.target = (t.empty() || t[0] != '/' ? "/" : "") + t; x.ok = true; return x; }
VF_SECTION("garbage", 60000, 2000000) { auto& r = rng;
    std::string s; int k = (int)r.below(4); if (k == 0) s = r.bytes(r.below(40)); else if (k == 1) s = chars(r, 0, 30, ":/@?#[]ab.1 %"); else { s = gen(r).text; for (int n = (int)r.range(1, 3); n--;) { if (s.empty()) break; auto at = r.below(s.size()); switch (r.below(4)) { case 0: s.erase(at, 1 + r.below(5)); break; case 1: s.insert(at, chars(r, 1, 3, ":/@?#[]. 1a")); break; case 2: s[at] = (char)r.below(256); break; default: s.insert(at, S((long)r.below(200000))); } } } vf::setCase(vf::esc(s)); Exact e(s); auto sv = e.sv(); auto x = refParse(s); vf::eval(1);
    auto path = what([&] { return std::string(UrlParse::extractPath(sv)); }), host = what([&] { return std::string(UrlParse::extractDomainName(sv)); }), scheme = what([&] { return std::string(UrlParse::extractProtocol(sv)); }), user = what([&] { auto a = UrlParse::extractUser(sv); return a ? std::string(a->account) + ":" + std::string(a->password) : "-"; }), port = what([&] { UrlInfoExtractor i(sv); return S(UrlParse::getProtocolPort(i.getService())); }); what([&] { return UrlParse::extractWsOrigin(sv); }); what([&] { std::string c(sv); return UrlParse::removeProtocol(c); });
    if (x.ok) { vf::check(path == x.target, "path", [&] { return "got " + vf::esc(path) + " expected " + vf::esc(x.target); }); vf::check(host == x.host, "host", [&] { return "got " + vf::esc(host) + " expected " + vf::esc(x.host); }); vf::check(scheme == x.scheme, "scheme", [&] { return "got " + vf::esc(scheme) + " expected " + vf::esc(x.scheme); }); int want = !x.port.empty() ? std::atoi(x.port.c_str()) : defPort(x.scheme); vf::check(port == (want < 0 ? "<error>" : S(want)), "port", [&] { return "got " + port + " expected " + S(want); }); std::string wu = x.hasUser ? x.user + (x.user.find(':') == x.user.npos ? ":" : "") : "-"; vf::check(user == wu, "user", [&] { return "got " + vf::esc(user) + " expected " + vf::esc(wu); }); vf::note("mutated but well-formed"); }
    else { auto p = s.find("://"); if (p != s.npos && p && s.substr(0, p).find_first_not_of("abcdefghijklmnopqrstuvwxyz") == std::string::npos) { auto a = s.substr(p + 3); a = a.substr(0, a.find_first_of("/?#")); bool clean = a.find_first_of("@[]") == a.npos; if (clean) { auto c = a.find(':'); auto h = a.substr(0, c), po = c == a.npos ? "" : a.substr(c + 1); if (h.empty()) { vf::check(host == "<error>" && port == "<error>", "no-host", [&] { return "a url without host: '" + vf::esc(host) + "' port " + port; }); vf::note("rejected: no host"); } else if (po.find_first_not_of("0123456789") != po.npos || po.size() > 9 && po.find_first_not_of('0') < po.size() - 9 || (po.size() <= 9 && !po.empty() && std::atol(po.c_str()) > 65535)) { vf::check(port == "<error>", "bad-port", [&] { return "port '" + vf::esc(po) + "' is read as " + port; }); vf::note("rejected: bad port"); } } } }
    vf::sig(s);
}
// the connection reaches the listener the URL names, with the right Host and target and no credentials in either
VF_SECTION("connect", 60, 800) { auto& r = rng;
    struct Hit { int srv; std::string target, host; }; std::mutex m; std::vector<Hit> hits; auto serve = [&](int id) { return [&, id](Peer& p, int) { for (;;) { std::string err; auto q = request(p, err, 20); if (!q) return; { std::lock_guard _{m}; hits.push_back({id, q->target, *q->get("host")}); } p.send("HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\n" + S(id)); } }; };
    RawServer a(serve(0)), b(serve(1), "127.0.0.2"), c(serve(2), "127.0.0.3", 0); RawServer* sv[] = {&a, &b, &c}; int n = (int)r.range(2, 10); HttpClient<NoneProxy> cli; vf::Watch w("hang|client", 60); std::string log;
    for (int i = 0; i < n; ++i) { int k = (int)r.below(3); bool name = k == 0 && r.chance(0.3); auto host = name ? std::string("localhost") : sv[k]->host; std::string port = (r.chance(0.1) ? "0" : "") + S(sv[k]->pt); std::string t = "/" + r.text(1 + r.below(6)) + (r.chance(0.4) ? "?u=http://127.0.0.1:9/" : ""); bool noPath = r.chance(0.15); if (noPath) t = r.chance(0.5) ? "?a=b@c" : ""; std::string url = std::string(r.chance(0.8) ? "http" : "HTTP") + "://" + (r.chance(0.4) ? "us%65r:p:a@" + std::string() : "") + host + ":" + port + t + (r.chance(0.3) ? "#f@127.0.0.1:1/" : ""); vf::setCase(url); log += url + " "; vf::eval(3); auto o = plain(r.chance(0.5) ? cli.get<decltype(5_s)>(url).get() : cli.coGet<decltype(5_s)>(url).runSync());
        vf::check(o.ok && o.body == S(k), "server", [&] { return "request to " + url + " reached " + (o.ok ? "server " + o.body : "nothing: " + o.what) + ", meant for server " + S(k); }); std::lock_guard _{m}; if (!vf::check(hits.size() == (std::size_t)i + 1, "count", "not exactly one request")) break; auto& h = hits.back(); auto wt = noPath ? "/" + t : t; vf::check(h.target == wt, "target", [&] { return "target " + h.target + " instead of " + wt; }); vf::check(h.host == host + ":" + port, "host-header", [&] { return "Host " + h.host + " for " + url; }); if (r.chance(0.2)) cli.close(); }
    vf::note("requests routed", (std::uint64_t)n); vf::sig(log);
}
// a name with several addresses: the first that accepts is used, whichever it is; none means an error. The resolver is asked for these names through this stand-in.
static std::vector<std::string> severalAddrs; static std::string severalName;
extern "C" int getaddrinfo(char const* node, char const* service, addrinfo const* hints, addrinfo** res) {
    static auto real = (int (*)(char const*, char const*, addrinfo const*, addrinfo**))::dlsym(RTLD_NEXT, "getaddrinfo"); if (!node || severalName.empty() || severalName != node) return real(node, service, hints, res);
    *res = nullptr; addrinfo** at = res; for (auto& a : severalAddrs) { if (int e = real(a.c_str(), service, hints, at)) { if (*res) ::freeaddrinfo(*res); return e; } while (*at) at = &(*at)->ai_next; } return *res ? 0 : EAI_NONAME; }
VF_SECTION("several", 60, 800) { auto& r = rng; int fds = vf::countFds(); std::string log;
    { std::atomic_int seen{0}; RawServer a([&](Peer& p, int) { for (;;) { std::string err; auto q = request(p, err, 20); if (!q) return; ++seen; p.send("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok"); } }, "127.0.0.2"); HttpClient<NoneProxy> cli; vf::Watch w("hang|client", 60); int n = (int)r.range(1, 4), good = 0;
      for (int i = 0; i < n; ++i) { severalAddrs.clear(); int k = (int)r.range(0, 4), pos = r.chance(0.75) && k ? (int)r.below((std::uint64_t)k) : -1; for (int j = 0; j < k; ++j) severalAddrs.push_back(j == pos ? "127.0.0.2" : r.chance(0.3) ? "::1" : "127.0.77." + S(r.range(1, 9))); severalName = "several" + S(i) + ".test"; std::string d; for (auto& x : severalAddrs) d += x + " "; vf::setCase(severalName + " is " + d); log += d + ";"; cli.setAutoReconnect(r.chance(0.5)); auto url = "http://" + severalName + ":" + S(a.pt) + "/x"; vf::eval(2);
        auto o = plain(r.chance(0.5) ? cli.get<decltype(5_s)>(url).get() : cli.coGet<decltype(5_s)>(url).runSync()); if (pos >= 0) { ++good; vf::check(o.ok && o.body == "ok", "several", [&] { return "a name of which address " + S(pos + 1) + " of " + S(k) + " accepts: " + (o.ok ? o.body : o.what); }); } else vf::check(!o.ok, "several", "nothing accepts and yet there was a response"); vf::check(seen == good, "count", [&] { return S(seen.load()) + " requests instead of " + S(good); }); }
      severalName.clear(); vf::note("names with several addresses", (std::uint64_t)n); }
    vf::check(vf::waitUntil([&] { return vf::countFds() <= fds; }, 5), "fd-leak", [&] { return "descriptors before " + S(fds) + ", after " + S(vf::countFds()); }); vf::sig(log); }
