// C24: codecs and hashes vs OpenSSL / first-principles reference.
#include "vf.hpp"
#include <HXLibs/net/protocol/codec/Base64.hpp>
#include <HXLibs/net/protocol/codec/Base64Url.hpp>
#include <HXLibs/net/protocol/codec/SHA1.hpp>
#include <HXLibs/utils/ByteUtils.hpp>
#include <HXLibs/utils/NumericBaseConverter.hpp>
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <memory>
using namespace HX;

static std::string refB64(std::string const& in) {
    std::string out(4 * ((in.size() + 2) / 3) + 1, 0);
    int n = EVP_EncodeBlock((unsigned char*)out.data(), (unsigned char const*)in.data(), (int)in.size());
    out.resize((std::size_t)n); return out;
}
static std::string refB64Url(std::string const& in) {
    auto s = refB64(in); for (auto& c : s) { if (c == '+') c = '-'; else if (c == '/') c = '_'; }
    while (!s.empty() && s.back() == '=') s.pop_back();
    return s;
}
// exact-size heap copy so that any over-read is seen by ASan
struct Exact { std::unique_ptr<char[]> p; std::size_t n; explicit Exact(std::string_view s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p.get(), s.data(), n); } std::string_view sv() const { return {p.get(), n}; } };

static std::string content(vf::Rng& rng) {
    std::size_t n = rng.chance(0.7) ? rng.below(70) : rng.below(3000);
    std::string s = rng.bytes(n);
    int mode = (int)rng.below(4);
    if (mode == 1) for (auto& c : s) c = (char)0xff;
    if (mode == 2) for (auto& c : s) c = (char)0;
    if (mode == 3) for (auto& c : s) c = (char)(c & 1 ? 0xfb : 0x3f);
    return s;
}

VF_SECTION("base64", 24000, 400000) {
    std::string in = index < 300 ? rng.bytes((std::size_t)index) : content(rng);
    vf::setCase("base64 of " + vf::esc(in)); vf::eval(); vf::sig("b64" + in);
    Exact e(in);
    auto got = net::base64Encode(std::span<std::uint8_t>{(std::uint8_t*)e.p.get(), e.n});
    vf::check(got == refB64(in), "base64-encode", "got " + got + " want " + refB64(in));
    auto u1 = net::base64UrlEncode(std::span<char const>{e.p.get(), e.n});
    auto u2 = net::base64UrlEncode(std::span<std::uint8_t const>{(std::uint8_t const*)e.p.get(), e.n});
    vf::check(u1 == refB64Url(in) && u2 == u1, "base64url-encode", "got " + u1 + " want " + refB64Url(in));
    Exact eu(u1);
    try { auto back = net::base64UrlDecode(eu.sv()); vf::check(back == in, "base64url-decode", "decode(encode(x)) = " + vf::esc(back)); }
    catch (std::exception& x) { vf::fail("base64url-decode", std::string("threw ") + x.what()); }
    if (index < 2) vf::sample("base64url " + vf::esc(in) + " -> " + u1);
}
VF_SECTION("base64-all-small", 1, 1) {   // every 1- and 2-byte string, and every value in each position of a triple
    for (int a = 0; a < 256; ++a) { std::string s(1, (char)a);
        vf::check(net::base64UrlDecode(net::base64UrlEncode(std::span<char const>{s.data(), 1})) == s, "base64url-decode", "1 byte");
        for (int b = 0; b < 256; ++b) { std::string t = s + (char)b; vf::eval();
            auto e = net::base64UrlEncode(std::span<char const>{t.data(), 2});
            vf::check(e == refB64Url(t), "base64url-encode", t); vf::check(net::base64UrlDecode(e) == t, "base64url-decode", t);
            auto q = net::base64Encode(std::span<std::uint8_t>{(std::uint8_t*)t.data(), 2}); vf::check(q == refB64(t), "base64-encode", t); } }
    for (int pos = 0; pos < 3; ++pos) for (int v = 0; v < 256; ++v) { std::string t = "\x5a\xa5\x3c"; t[(std::size_t)pos] = (char)v; vf::eval(); vf::sig("tri" + t);
        auto e = net::base64UrlEncode(std::span<char const>{t.data(), 3}); vf::check(e == refB64Url(t) && net::base64UrlDecode(e) == t, "base64url-encode", t);
        auto q = net::base64Encode(std::span<std::uint8_t>{(std::uint8_t*)t.data(), 3}); vf::check(q == refB64(t), "base64-encode", t); }
}
static bool validUrl(std::string_view s) { if (s.size() % 4 == 1) return false; for (char c : s) if (!(isalnum((unsigned char)c) || c == '-' || c == '_') || (c & 0x80)) return false; return true; }
VF_SECTION("base64url-hostile", 24000, 400000) {
    std::string s = net::base64UrlEncode(std::span<char const>{std::string(rng.bytes(rng.below(40)))});
    std::string base = rng.text(rng.below(60), "ABCabc019-_");
    s = base;
    int k = (int)rng.below(4);
    for (int i = 0; i < k; ++i) { if (s.empty() || rng.chance(0.3)) s.insert(s.begin() + (long)rng.below(s.size() + 1), (char)rng.next()); else s[rng.below(s.size())] = rng.chance(0.5) ? (char)rng.next() : rng.pick({'+', '/', '=', ' ', '\n', '.', '@', '[', '`', '{', '\x7f', '\x80'}); }
    vf::setCase("base64url text " + vf::esc(s)); vf::eval(); vf::sig("h" + s);
    Exact e(s); bool ok = true; std::string r;
    try { r = net::base64UrlDecode(e.sv()); } catch (std::exception&) { ok = false; }
    if (validUrl(s)) { vf::check(ok, "base64url-reject-valid", "rejected valid text");
        if (ok) { std::string w; std::uint32_t acc = 0; int bits = 0; static const std::string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
            for (char c : s) { acc = (acc << 6) | (std::uint32_t)A.find(c); bits += 6; if (bits >= 8) { bits -= 8; w += (char)(acc >> bits); } }
            vf::check(r == w, "base64url-decode", "got " + vf::esc(r) + " want " + vf::esc(w)); } vf::note("valid_decodes"); }
    else { vf::check(!ok, "base64url-accept-invalid", "decoded invalid text to " + vf::esc(r)); vf::note("invalid_rejected"); }
}
VF_SECTION("sha1", 9000, 150000) {
    std::string in = index < 400 ? rng.bytes((std::size_t)index) : rng.bytes(rng.chance(0.02) ? rng.below(300000) : rng.below(2000));
    net::SHA1Context c; std::size_t p = 0;
    while (p < in.size()) { std::size_t n = 1 + rng.below(rng.chance(0.5) ? 130 : in.size()); n = std::min(n, in.size() - p); Exact e(std::string_view(in).substr(p, n)); c.update(e.p.get(), n); p += n; }
    unsigned char d[20], w[20]; c.finish(d); SHA1((unsigned char const*)in.data(), in.size(), w);
    vf::setCase("sha1 of " + std::to_string(in.size()) + " bytes"); vf::eval(); vf::sig("sha" + in);
    vf::check(!std::memcmp(d, w, 20), "sha1", "digest differs for length " + std::to_string(in.size()));
}
template <class T> static void swapCase(vf::Rng& rng) {
    T v; std::string b = rng.bytes(sizeof(T)); std::memcpy(&v, b.data(), sizeof(T));
    if constexpr (std::is_floating_point_v<T>) { v = (T)(rng.range(-1000000, 1000000)) / (T)7; b.assign((char*)&v, sizeof(T)); }
    T r = utils::ByteUtils::byteswap(v), q = utils::ByteUtils::byteswapIfLittle(v);
    std::string rb((char*)&r, sizeof(T)), qb((char*)&q, sizeof(T)), w(b.rbegin(), b.rend());
    vf::eval(); vf::check(rb == w && qb == w, "byteswap", std::to_string(sizeof(T)) + " bytes");
}
VF_SECTION("byteswap", 2000, 40000) { swapCase<std::uint8_t>(rng); swapCase<std::uint16_t>(rng); swapCase<std::uint32_t>(rng); swapCase<std::uint64_t>(rng); swapCase<std::int16_t>(rng); swapCase<std::int32_t>(rng); swapCase<std::int64_t>(rng); swapCase<float>(rng); swapCase<double>(rng); vf::sig((std::uint64_t)index); }
template <class T, T Base> static void num(vf::Rng& rng) {
    T v = (T)(rng.next() >> rng.below(64)); if constexpr (std::is_signed_v<T>) v = (T)(v & std::numeric_limits<T>::max());
    std::string s; T x = v; do { int d = (int)(x % Base); s += (char)(d < 10 ? '0' + d : (rng.chance(0.5) ? 'a' : 'A') + d - 10); x = (T)(x / Base); } while (x);
    std::string pad(rng.below(3), '0'); s += pad; std::string t(s.rbegin(), s.rend()); Exact e(t); auto sv = e.sv();
    auto r = utils::NumericBaseConverter::strToNum<T, Base>(sv);
    vf::eval(); vf::sig(t); vf::check(r == v, "str-to-num", "base " + std::to_string(Base) + " text " + t + " got " + std::to_string(r));
}
VF_SECTION("numbase", 12000, 200000) {
    std::size_t v = rng.next() >> rng.below(64); if (index < 70) v = (std::size_t)index;
    char b[32]; std::snprintf(b, sizeof b, "%zX", v); auto h = utils::NumericBaseConverter::hexadecimalConversion(v);
    vf::setCase(b); vf::eval(); vf::sig(h); vf::check(h == b, "hex", h);
    num<std::size_t, 16>(rng); num<std::size_t, 10>(rng); num<std::size_t, 2>(rng); num<std::uint32_t, 8>(rng); num<int, 36>(rng); num<std::uint64_t, 20>(rng);
}
