// C25: tokens only open with the right key and exactly as issued.
#include "vf.hpp"
#include <map>
#include <memory>
#include <optional>
#include <thread>
#include <openssl/evp.h>
#include <HXLibs/net/token/Token.hpp>
using namespace HX::net;
struct Inner { int x = 0; std::string s; bool operator==(Inner const&) const = default; };
struct Pay { std::string user; std::uint64_t id = 0; std::int64_t exp = 0; bool admin = false; double w = 0; std::vector<std::string> roles; std::optional<int> opt; Inner in; std::map<std::string, int> m; bool operator==(Pay const&) const = default; };
static std::string S(long long v) { return std::to_string(v); }
// one key per type; the last two differ in one bit, one contains zero bytes
struct K0 { static std::string getKey() { return "0123456789abcdefghijklmnopqrstuv"; } };
struct K1 { static std::string getKey() { return std::string("\0\xff\0\x01", 4) + std::string(28, '\0'); } };
struct K2 { static std::string getKey() { return "HX::token::KeyFromType@Heng_XinA"; } };   // the default key, last bit changed
using KD = HX::net::token::internal::KeyFromType;
static std::string const keysOf[] = {KD::getKey(), K0::getKey(), K1::getKey(), K2::getKey()};
template <class T> static std::string issue(int k, T&& t) { switch (k) { case 0: return token::TokenApi::get().toToken(t); case 1: return token::TokenApi::get<K0>().toToken(t); case 2: return token::TokenApi::get<K1>().toToken(t); default: return token::TokenApi::get<K2>().toToken(t); } }
template <class T> static bool open(int k, T& t, std::string_view s) { try { switch (k) { case 0: token::TokenApi::get().fromToken(t, s); break; case 1: token::TokenApi::get<K0>().fromToken(t, s); break; case 2: token::TokenApi::get<K1>().fromToken(t, s); break; default: token::TokenApi::get<K2>().fromToken(t, s); } return true; } catch (std::exception const&) { return false; } }
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
static std::string enc(std::string_view s) { std::string o; std::uint32_t v = 0; int n = 0; for (unsigned char c : s) { v = v << 8 | c; n += 8; while (n >= 6) { n -= 6; o += A64[(v >> n) & 63]; } } if (n) o += A64[(v << (6 - n)) & 63]; return o; }
static std::optional<std::string> dec(std::string_view s) { std::string o; std::uint32_t v = 0; int n = 0; if (s.size() % 4 == 1) return {}; for (char c : s) { auto p = c ? std::strchr(A64, c) : nullptr; if (!p) return {}; v = v << 6 | (std::uint32_t)(p - A64); n += 6; if (n >= 8) { n -= 8; o += (char)(v >> n); } } return o; }
static std::string seal(std::string const& key, std::string const& iv, std::string const& text, int tagLen = 16) { auto c = EVP_CIPHER_CTX_new(); std::string o(text.size() + 16, 0); int n = 0; EVP_EncryptInit_ex(c, EVP_aes_256_gcm(), nullptr, (unsigned char const*)key.data(), (unsigned char const*)iv.data()); EVP_EncryptUpdate(c, (unsigned char*)o.data(), &n, (unsigned char const*)text.data(), (int)text.size()); o.resize((std::size_t)n); unsigned char b[32]; EVP_EncryptFinal_ex(c, b, &n); std::string tag((std::size_t)tagLen, 0); EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_GET_TAG, tagLen, tag.data()); EVP_CIPHER_CTX_free(c); return iv + o + tag; }
static std::optional<std::string> unseal(std::string const& key, std::string const& d) { if (d.size() < 28) return {}; auto c = EVP_CIPHER_CTX_new(); std::string o(d.size(), 0); int n = 0, m = 0; EVP_DecryptInit_ex(c, EVP_aes_256_gcm(), nullptr, (unsigned char const*)key.data(), (unsigned char const*)d.data()); EVP_DecryptUpdate(c, (unsigned char*)o.data(), &n, (unsigned char const*)d.data() + 12, (int)d.size() - 28); EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_SET_TAG, 16, (void*)(d.data() + d.size() - 16)); bool ok = EVP_DecryptFinal_ex(c, (unsigned char*)o.data() + n, &m) == 1; EVP_CIPHER_CTX_free(c); if (!ok) return {}; o.resize((std::size_t)(n + m)); return o; }
static std::string str(vf::Rng& r, std::size_t n) { std::string o; while (o.size() < n) { auto k = r.below(12); if (k == 0) o += "\xc3\xa9"; else if (k == 1) o += "\xe4\xbd\xa0"; else if (k == 2) o += "\"\\/\n\t"[r.below(5)]; else o += (char)r.range(32, 126); } return o; }
static Pay pay(vf::Rng& r) { Pay p; p.user = str(r, r.below(r.chance(0.05) ? 5000 : 30)); p.id = r.next(); p.exp = (std::int64_t)r.next(); p.admin = r.chance(0.5); p.w = (double)r.range(-1000000, 1000000) / 64; for (int n = (int)r.below(5); n--;) p.roles.push_back(str(r, r.below(10))); if (r.chance(0.5)) p.opt = (int)r.next(); p.in = {(int)r.next(), str(r, r.below(6))}; for (int n = (int)r.below(4); n--;) p.m[r.text(3)] = (int)r.below(100); return p; }
struct Exact { std::unique_ptr<char[]> p; std::size_t n; explicit Exact(std::string_view s) : p(new char[s.size()]), n(s.size()) { if (n) std::memcpy(p.get(), s.data(), n); } std::string_view sv() const { return {p.get(), n}; } };
static std::mutex nm; static std::set<std::string> nonces[4];
static void fresh(int k, std::string const& raw) { std::lock_guard _{nm}; vf::check(nonces[k].insert(raw.substr(0, 12)).second, "nonce-reused", [&] { return "nonce " + vf::esc(raw.substr(0, 12)) + " used twice under one key"; }); }
static Pay const mark = [] { Pay p; p.user = "untouched"; p.id = 42; return p; }();

VF_SECTION("issue", 6000, 200000) { auto& r = rng;
    auto p = pay(r); int k = (int)r.below(4), other = (k + 1 + (int)r.below(3)) % 4; if (r.chance(0.3)) { k = r.chance(0.5) ? 0 : 3; other = 3 - k; } auto t = issue(k, p); vf::setCase(t); vf::eval(6); auto raw = dec(t); vf::check(bool(raw), "alphabet", [&] { return "not base64url: " + vf::esc(t, 200); }); if (!raw) return; fresh(k, *raw); std::string json; HX::reflection::toJson(p, json);
    auto in = unseal(keysOf[k], *raw); vf::check(in && *in == json, "content", [&] { return "the token seals " + (in ? vf::esc(*in, 200) : "<does not open>") + " instead of " + vf::esc(json, 200); }); vf::check(raw->find(p.user) == raw->npos || p.user.size() < 6, "plain", "the payload is readable in the token");
    Exact e(t); Pay q = mark; bool ok = open(k, q, e.sv()); vf::check(ok && q == p, "round", [&] { return std::string(ok ? "another payload came back" : "the token was refused") + " for " + vf::esc(json, 300); }); q = mark; vf::check(!open(other, q, e.sv()), "wrong-key", "a token of key " + S(k) + " opens with key " + S(other)); vf::check(q == mark, "touched", "a refused token changed the output");
    auto t2 = issue(k, p); vf::check(t2 != t, "nonce-reused", "two tokens of one payload are equal"); if (auto r2 = dec(t2)) fresh(k, *r2); vf::sig(t); if (r.chance(0.2)) { std::string s = str(r, r.below(40)), o = "untouched"; auto ts = issue(k, s); vf::check(open(k, o, ts) && o == s, "round", "a text payload: " + vf::esc(s)); int i = (int)r.next(), j = 1; vf::check(open(k, j, issue(k, i)) && j == i, "round", "a number payload"); } }
VF_SECTION("tamper", 400, 12000) { auto& r = rng;
    auto p = pay(r); if (p.user.size() > 60) p.user.resize(10); p.user = "a" + p.user.substr(0, 0) + r.text(r.below(20)); int k = (int)r.below(4); auto t = issue(k, p); vf::setCase(t); auto raw = *dec(t); auto p2 = pay(r); auto raw2 = *dec(issue(k, p2)); std::uint64_t n = 0;
    auto refuse = [&](std::string const& text, char const* how) { ++n; auto d = dec(text); if (d && *d == raw) { Pay q = mark; if (open(k, q, text)) vf::check(q == p, "altered", "another payload came back"); return; } Exact e(text); Pay q = mark; bool ok = open(k, q, e.sv()); vf::check(!ok, std::string("accepted-") + how, [&] { return std::string(how) + ": " + vf::esc(text, 300) + " of " + vf::esc(t, 300); }); vf::check(q == mark, "touched", "a refused token changed the output"); };
    for (std::size_t i = 0; i < raw.size() * 8; ++i) { auto x = raw; x[i / 8] ^= (char)(1 << (i % 8)); refuse(enc(x), "bit-flip"); }
    for (std::size_t i = 0; i < t.size(); ++i) refuse(t.substr(0, i), "truncation"); for (std::size_t i = 1; i <= std::min<std::size_t>(raw.size(), 40); ++i) refuse(enc(raw.substr(i)), "head-cut");
    for (int i = 0; i < 40; ++i) { auto x = raw; switch (r.below(6)) { case 0: x += r.bytes(1 + r.below(20)); break; case 1: x.insert(r.below(x.size()), r.bytes(1 + r.below(4))); break; case 2: x.erase(r.below(x.size()), 1 + r.below(4)); break; case 3: { auto a = r.below(x.size()), b = r.below(x.size()); std::swap(x[a], x[b]); break; } case 4: x.replace(r.below(x.size() - 1), 1 + r.below(3), r.bytes(1 + r.below(3))); break; default: x = x + x; } refuse(enc(x), "edited"); }
    refuse(enc(raw.substr(0, 12) + raw2.substr(12)), "mixed"); refuse(enc(raw2.substr(0, 12) + raw.substr(12)), "mixed"); refuse(enc(raw.substr(0, raw.size() - 16) + raw2.substr(raw2.size() - 16)), "mixed"); refuse(enc(raw2.substr(0, raw2.size() - 16) + raw.substr(raw.size() - 16)), "mixed"); std::string json; HX::reflection::toJson(p, json);
    // a shorter tag, no tag, another order, another cipher's layout
    auto iv = raw.substr(0, 12); for (int tl : {0, 4, 8, 12, 15}) { auto s = seal(keysOf[k], iv, json); refuse(enc(s.substr(0, s.size() - 16 + (std::size_t)tl)), "short-tag"); refuse(enc(s.substr(0, s.size() - 16 + (std::size_t)tl) + std::string((std::size_t)(16 - tl), '\0')), "zero-tag"); } refuse(enc(iv + json + std::string(16, '\0')), "unsealed"); refuse(enc(seal(std::string(32, '\0'), iv, json)), "zero-key"); refuse(enc(seal(std::string(32, 'A'), iv, json)), "other-key");
    for (int i = 0; i < 60; ++i) { auto x = t; switch (r.below(5)) { case 0: x[r.below(x.size())] = A64[r.below(64)]; break; case 1: x[r.below(x.size())] = (char)r.below(256); break; case 2: x.insert(r.below(x.size() + 1), 1, A64[r.below(64)]); break; case 3: x += r.pick({std::string("="), std::string("=="), std::string("A"), std::string("."), std::string("\0", 1), std::string("AAAA")}); break; default: x.erase(r.below(x.size()), 1); } refuse(x, "text-edit"); }
    Pay q = mark; vf::check(open(k, q, t) && q == p, "round", "the token no longer opens after the attempts"); vf::eval(n); vf::sig(t); }
VF_SECTION("hostile", 20000, 800000) { auto& r = rng;
    std::string x; switch (r.below(5)) { case 0: x = r.bytes(r.below(100)); break; case 1: x = r.text(r.below(200), A64); break; case 2: x = enc(seal(keysOf[0], r.bytes(12), r.bytes(r.below(60)))); break; case 3: x = enc(seal(keysOf[0], r.bytes(12), "{\"user\":\"" + str(r, 4) + (r.chance(0.5) ? "" : "\"}"))); break; default: x = r.text(r.below(40), "A_-="); } vf::setCase(x); vf::eval(); Exact e(x); Pay q = mark; bool ok = open(0, q, e.sv()); auto d = dec(x); auto in = d ? unseal(keysOf[0], *d) : std::nullopt; vf::check(!ok || in, "accepted", [&] { return "a token nobody sealed was accepted: " + vf::esc(x, 200); }); if (!in) vf::check(q == mark, "touched", "a refused token changed the output"); vf::sig(x); }
VF_SECTION("cipher", 4000, 100000) { auto& r = rng;
    auto key = r.bytes(32); token::Aes256Gcm a(key); std::size_t len = r.chance(0.2) ? r.below(20) : r.chance(0.1) ? r.below(100000) : r.below(300); auto text = r.bytes(len); vf::eval(4); vf::setCase("cipher, " + S((long)len) + " bytes"); auto one = [&](token::Aes256Gcm& c) { auto s = c.encrypt(text); vf::check(s.size() == text.size() + 28, "length", "sealed length"); auto o = unseal(key, s); vf::check(o && *o == text, "content", [&] { return "OpenSSL cannot open " + S((long)len) + " sealed bytes"; }); auto iv = r.bytes(12); std::string got; try { got = c.decrypt(seal(key, iv, text)); vf::check(got == text, "open", "decrypt gave other bytes"); } catch (std::exception const& e) { vf::fail("open", std::string("decrypt refused: ") + e.what()); }
        auto bad = s; bad[r.below(bad.size())] ^= (char)(1 << r.below(8)); bool thrown = false; try { (void)c.decrypt(bad); } catch (std::exception const&) { thrown = true; } vf::check(thrown, "accepted-bit-flip", "cipher"); };
    for (int n = (int)r.range(1, 4); n--;) one(a); token::Aes256Gcm b(std::move(a)); one(b); auto key2 = r.bytes(32); token::Aes256Gcm c(key2); (void)c.encrypt("x"); c = std::move(b); one(c); auto n = r.pick({0, 16, 24, 31, 33, 64}); bool thrown = false; try { token::Aes256Gcm d(r.bytes((std::size_t)n)); } catch (std::exception const&) { thrown = true; } vf::check(thrown, "key-length", [&] { return "a key of " + S(n) + " bytes was taken"; }); vf::sig(text); }
VF_SECTION("threads", 12, 200) { auto& r = rng;
    std::vector<std::thread> ts; for (int i = 0; i < 6; ++i) ts.emplace_back([s = r.next()] { vf::Rng q(s); for (int n = 0; n < 400; ++n) { int k = (int)q.below(4); int v = (int)q.next(), o = 0; auto t = issue(k, v); fresh(k, *dec(t)); vf::check(open(k, o, t) && o == v, "round", "in a thread"); } vf::eval(400); }); for (auto& t : ts) t.join(); vf::sig(S((long)r.next())); }
