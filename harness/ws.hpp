#pragma once
// WebSocket test side: an independent RFC 6455 codec, handshake and reference decoder.
#include "client.hpp"
#include <openssl/evp.h>
#include <openssl/sha.h>

namespace wst {
using namespace ct;
using namespace HX::net;
struct Frame { bool fin = true; int rsv = 0, op = 0; bool masked = false; std::uint32_t mask = 0; std::string body; bool minimal = true; };
inline std::string b64(std::string_view s) { std::string o(4 * ((s.size() + 2) / 3) + 1, 0); int n = EVP_EncodeBlock((unsigned char*)o.data(), (unsigned char const*)s.data(), (int)s.size()); o.resize((std::size_t)n); return o; }
inline std::string unb64(std::string const& s) { std::string o(s.size() + 3, 0); int n = EVP_DecodeBlock((unsigned char*)o.data(), (unsigned char const*)s.data(), (int)s.size()); if (n < 0) return "?"; o.resize((std::size_t)n); for (int i = (int)s.size() - 1; i >= 0 && s[(std::size_t)i] == '='; --i) o.pop_back(); return o; }
inline std::string acceptOf(std::string const& key) { std::string k = key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"; unsigned char d[20]; SHA1((unsigned char const*)k.data(), k.size(), d); return b64({(char*)d, 20}); }
inline void xorMask(std::string& s, std::uint32_t m) { unsigned char k[4]; std::memcpy(k, &m, 4); for (std::size_t i = 0; i < s.size(); ++i) s[i] = (char)(s[i] ^ k[i & 3]); }
// one frame; enc: 0 minimal, 2 / 8 force that many length bytes
inline std::string frame(bool fin, int op, std::string body, std::optional<std::uint32_t> mask, int rsv = 0, int enc = 0) {
    std::string o; o += (char)((fin << 7) | (rsv << 4) | op); std::size_t n = body.size(); int e = enc ? enc : n < 126 ? 0 : n <= 65535 ? 2 : 8; char m = mask ? (char)0x80 : 0;
    if (!e) o += (char)(m | (char)n); else { o += (char)(m | (e == 2 ? 126 : 127)); for (int i = e; i--;) o += (char)(n >> (8 * i)); }
    if (mask) { char k[4]; std::memcpy(k, &*mask, 4); o.append(k, 4); xorMask(body, *mask); } return o + body; }
// takes one frame off the front: 1 done, 0 more bytes needed
inline int take(std::string_view& in, Frame& f) { auto b = [&](std::size_t i) { return (unsigned char)in[i]; }; if (in.size() < 2) return 0; f.fin = b(0) >> 7; f.rsv = (b(0) >> 4) & 7; f.op = b(0) & 15; f.masked = b(1) >> 7; std::uint64_t n = b(1) & 127; std::size_t h = 2; f.minimal = true;
    if (n == 126) { if (in.size() < 4) return 0; n = (std::uint64_t)b(2) << 8 | b(3); h = 4; f.minimal = n >= 126; } else if (n == 127) { if (in.size() < 10) return 0; n = 0; for (int i = 2; i < 10; ++i) n = n << 8 | b((std::size_t)i); h = 10; f.minimal = n > 65535; }
    if (f.masked) { if (in.size() < h + 4) return 0; std::memcpy(&f.mask, in.data() + h, 4); h += 4; } if (n > in.size() - h) return 0; f.body.assign(in.substr(h, n)); if (f.masked) xorMask(f.body, f.mask); in.remove_prefix(h + n); return 1; }
inline std::optional<Frame> next(Peer& p, std::string& err, double sec = 20) { double e = now() + sec; Frame f; for (;;) { std::string_view v = p.in; if (take(v, f)) { p.in.erase(0, p.in.size() - v.size()); return f; } if (p.eof) { err = p.in.empty() ? "closed" : "closed inside a frame"; return {}; } if (now() > e) { err = "timeout"; return {}; } p.wait(0.02); } }
struct Msg { int op; std::string body; bool operator==(Msg const&) const = default; };
// reference decoder: what a receiver of this byte string must report
struct Ref { std::vector<Msg> msgs; std::vector<std::string> pings; bool closed = false; std::string closeBody, bad; bool soft = false; std::size_t softMsgs = 0, rest = 0; };   // soft: from there on the receiver may refuse as well
inline Ref decode(std::string_view in, bool toServer) { Ref r; int cur = 0; std::string acc; auto soft = [&] { if (!r.soft) { r.soft = true; r.softMsgs = r.msgs.size(); } };
    for (;;) { if (in.size() < 2) { r.bad = in.empty() ? "eof" : "cut"; return r; } unsigned char a = (unsigned char)in[0], b = (unsigned char)in[1]; int op = a & 15;
        // violations that are visible in the first two bytes
        if (a & 0x70) { r.bad = "rsv"; return r; } if (bool(b & 128) != toServer) { r.bad = "mask"; return r; } if (op > 10 || (op > 2 && op < 8)) { r.bad = "opcode"; return r; } if (op >= 8 && !(a & 128)) { r.bad = "fragmented control"; return r; } if (op >= 8 && (b & 127) > 125) { r.bad = "long control"; return r; } if (op == 0 && !cur) { r.bad = "continuation of nothing"; return r; } if ((op == 1 || op == 2) && cur) { r.bad = "message inside a message"; return r; }
        Frame f; if (!take(in, f)) { r.bad = (b & 127) == 127 && in.size() > 2 && (in[2] & 0x80) ? "length" : "cut"; return r; } if (!f.minimal) soft();
        if (op == 9) r.pings.push_back(f.body); else if (op == 8) { r.closed = true; r.closeBody = f.body; r.rest = in.size(); return r; } else if (op < 3) { if (op) cur = op; acc += f.body; if (f.fin) { r.msgs.push_back({cur, std::exchange(acc, {})}); cur = 0; } } } }
inline bool utf8(std::string_view s) { for (std::size_t i = 0; i < s.size();) { unsigned char c = (unsigned char)s[i]; int n = c < 0x80 ? 0 : c >= 0xC2 && c <= 0xDF ? 1 : (c & 0xF0) == 0xE0 ? 2 : c >= 0xF0 && c <= 0xF4 ? 3 : -1; if (n < 0 || i + (std::size_t)n >= s.size()) return false; for (int k = 1; k <= n; ++k) if (((unsigned char)s[i + (std::size_t)k] & 0xC0) != 0x80) return false; i += (std::size_t)n + 1; } return true; }
inline std::string text(vf::Rng& r, std::size_t n) { std::string o; o.reserve(n); bool plain = r.chance(0.5); while (o.size() < n) { std::size_t left = n - o.size(); int k = plain || left < 2 ? 1 : (int)r.range(1, (long)std::min<std::size_t>(4, left)); switch (k) { case 1: o += (char)r.below(128); break; case 2: { auto c = r.range(0x80, 0x7FF); o += (char)(0xC0 | (c >> 6)); o += (char)(0x80 | (c & 63)); break; } case 3: { auto c = r.range(0x800, 0xD7FF); o += (char)(0xE0 | (c >> 12)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); break; } default: { auto c = r.range(0x10000, 0x10FFFF); o += (char)(0xF0 | (c >> 18)); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); } } } return o; }
inline std::size_t length(vf::Rng& r) { switch (r.below(10)) { case 0: return 0; case 1: case 2: { static const std::size_t e[] = {1, 2, 3, 4, 5, 124, 125, 126, 127, 128, 254, 255, 256, 257}; return e[r.below(14)]; } case 3: { static const std::size_t e[] = {65533, 65534, 65535, 65536, 65537, 65540, 32767, 32768, 16383, 16384, 16385, 131072}; return e[r.below(12)]; } case 4: return r.below(r.chance(0.1) ? 400000 : 70000); case 5: return r.below(3000); default: return r.below(200); } }
inline Msg message(vf::Rng& r) { Msg m; m.op = r.chance(0.5) ? 1 : 2; auto n = length(r); m.body = m.op == 1 ? text(r, n) : r.chance(0.1) ? std::string(n, '\0') : r.bytes(n); return m; }
inline std::uint32_t maskKey(vf::Rng& r) { switch (r.below(8)) { case 0: return 0; case 1: return 0xFFFFFFFF; case 2: return 0xFF; default: return (std::uint32_t)r.next(); } }
inline std::string encode(vf::Rng& r, Msg const& m, bool toServer, double frag, std::function<void(std::string&)> between = {}) { std::string o; auto mk = [&]() -> std::optional<std::uint32_t> { if (toServer) return maskKey(r); return {}; }; if (!r.chance(frag)) return frame(true, m.op, m.body, mk());
    std::vector<std::size_t> at{0}; for (int k = (int)r.range(0, r.chance(0.1) ? 40 : 4); k--;) at.push_back(r.below(m.body.size() + 1)); if (r.chance(0.2)) at.push_back(m.body.size()); if (r.chance(0.2)) at.push_back(0); at.push_back(m.body.size()); std::sort(at.begin(), at.end());
    for (std::size_t i = 0; i + 1 < at.size(); ++i) { o += frame(i + 2 == at.size(), i ? 0 : m.op, m.body.substr(at[i], at[i + 1] - at[i]), mk()); if (between && i + 2 < at.size()) between(o); } return o; }
// the request of a conforming client
inline std::string hello(vf::Rng& r, std::string const& key, std::string const& path = "/ws", std::string const& drop = "", std::map<std::string, std::string> const& put = {}) { static const char* con[] = {"Upgrade", "keep-alive, Upgrade", "upgrade", "Upgrade,keep-alive", "UPGRADE", "keep-alive,x , Upgrade"}; static const char* up[] = {"websocket", "websocket", "WebSocket", "WEBSOCKET"};
    std::vector<std::pair<std::string, std::string>> h{{"Host", "127.0.0.1:1"}, {"Upgrade", up[r.below(4)]}, {"Connection", con[r.below(6)]}, {"Sec-WebSocket-Key", key}, {"Sec-WebSocket-Version", "13"}, {"Origin", "http://127.0.0.1"}}; if (r.chance(0.3)) h.emplace_back("User-Agent", hval(r)); if (r.chance(0.2)) h.emplace_back("Cookie", "a=" + hval(r)); if (r.chance(0.2)) h.emplace_back("Sec-WebSocket-Extensions", "permessage-deflate; client_max_window_bits");
    r.shuffle(h); std::string o = "GET " + path + " HTTP/1.1\r\n"; for (auto& [k, v] : h) { auto l = low(k); if (l == drop) continue; auto it = put.find(l); o += (r.chance(0.5) ? recase(r, k) : k) + ":" + (r.chance(0.9) ? " " : "") + (it == put.end() ? v : it->second) + "\r\n"; } return o + "\r\n"; }
// checks the 101 response of the library
inline bool welcomed(Peer& p, std::string const& key, std::string& err) { auto x = p.response(true, err); if (!x) { err = "no handshake response: " + err; return false; } if (x->status != 101) { err = "status " + S(x->status); return false; } auto u = x->get("upgrade"), c = x->get("connection"), a = x->get("sec-websocket-accept"); bool tok = false; if (c) { std::string l = low(*c); tok = l.find("upgrade") != l.npos; }
    if (!u || low(*u) != "websocket" || !tok) { err = "101 without Upgrade/Connection"; return false; } if (!a || *a != acceptOf(key)) { err = "Sec-WebSocket-Accept is " + (a ? *a : "missing") + ", for key " + key + " it must be " + acceptOf(key); return false; } if (x->count("content-length") || x->count("transfer-encoding")) { err = "101 with a length of content"; return false; } if (x->count("sec-websocket-extensions")) { err = "an extension was accepted"; return false; } return true; }
// judges the library's handshake request
inline bool asked(RReq const& q, std::string const& hostPort, std::string const& target, std::string& key, std::string& err) { auto one = [&](char const* k) -> std::string { if (q.count(k) != 1) { err = S(q.count(k)) + " " + k + " headers"; return ""; } return *q.get(k); }; if (q.method != "GET" || q.target != target) { err = "request line " + q.method + " " + q.target; return false; }
    auto h = one("host"), u = one("upgrade"), c = one("connection"), v = one("sec-websocket-version"); key = one("sec-websocket-key"); one("origin"); if (!err.empty()) return false; if (h != hostPort) { err = "Host " + h; return false; } if (low(u) != "websocket" || low(c).find("upgrade") == c.npos || v != "13") { err = "upgrade headers"; return false; } auto k = unb64(key); if (key.size() != 24 || k.size() != 16 || b64(k) != key) { err = "the key '" + key + "' is not base64 of 16 bytes"; return false; } return true; }
inline std::string welcome(vf::Rng& r, std::string const& key, std::string const& drop = "", std::map<std::string, std::string> const& put = {}) { static const char* con[] = {"Upgrade", "upgrade", "keep-alive, Upgrade", "Upgrade, keep-alive"}; static const char* up[] = {"websocket", "websocket", "WebSocket", "WEBSOCKET"}; std::vector<std::pair<std::string, std::string>> h{{"Upgrade", up[r.below(4)]}, {"Connection", con[r.below(4)]}, {"Sec-WebSocket-Accept", acceptOf(key)}}; if (r.chance(0.3)) h.emplace_back("Server", hval(r)); if (r.chance(0.3)) h.emplace_back("Date", "Thu, 19 Nov 2026 00:00:00 GMT"); r.shuffle(h);
    std::string o = "HTTP/1.1 101 " + std::string(r.chance(0.8) ? "Switching Protocols" : r.chance(0.5) ? "" : "Web Socket Protocol Handshake") + "\r\n"; for (auto& [k, v] : h) { auto l = low(k); if (l == drop) continue; auto it = put.find(l); o += (r.chance(0.5) ? recase(r, k) : k) + ":" + (r.chance(0.9) ? " " : "") + (it == put.end() ? v : it->second) + "\r\n"; } return o + "\r\n"; }
inline std::string randomKey(vf::Rng& r) { return b64(r.bytes(16)); }
inline std::string show(Msg const& m) { return (m.op == 1 ? "text" : m.op == 2 ? "binary" : "op" + S(m.op)) + "[" + S((long)m.body.size()) + "]"; }
inline std::string show(std::vector<Msg> const& v) { std::string o; for (auto& m : v) o += show(m) + " "; return o; }
// frames written by the library, put together again; err on any malformed frame
struct Collector { bool fromClient; std::vector<Msg> msgs; std::vector<std::string> pongs, pings, closes; std::vector<std::uint32_t> masks; std::string err; int cur = 0; std::string acc;
    bool add(Frame const& f) { if (f.rsv) err = "reserved bits set"; else if (f.masked != fromClient) err = fromClient ? "a client frame without a mask" : "a masked server frame"; else if (!f.minimal) err = "a length not in its shortest form"; else if (f.op > 10 || (f.op > 2 && f.op < 8)) err = "opcode " + S(f.op); else if (f.op >= 8 && (!f.fin || f.body.size() > 125)) err = "a long or fragmented control frame"; else if (f.op < 3 && (f.op == 0) != (cur != 0)) err = "a continuation out of place"; else if (!closes.empty()) err = "frame with opcode " + S(f.op) + " after the close frame"; if (!err.empty()) return false; if (f.masked) masks.push_back(f.mask);
        if (f.op == 8) closes.push_back(f.body); else if (f.op == 9) pings.push_back(f.body); else if (f.op == 10) pongs.push_back(f.body); else { if (f.op) cur = f.op; acc += f.body; if (f.fin) { msgs.push_back({cur, std::exchange(acc, {})}); cur = 0; } } return true; }
    // takes every complete frame out of the buffer
    bool pull(Peer& p) { std::string_view v = p.in; Frame f; bool ok = true; while (ok && take(v, f)) ok = add(f); p.in.erase(0, p.in.size() - v.size()); return ok; } };
} // namespace wst
