#pragma once
// TLS test side: certificates made on the spot, and a bridge that turns one plain socket into an independent OpenSSL peer
// with a random record layout, random wire segments, key updates and faults on the wire.
#include "ws.hpp"
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/ssl.h>
#include <openssl/x509v3.h>

namespace tl {
using namespace wst;
inline void writeFile(std::string const& p, std::function<int(BIO*)> f) { BIO* b = BIO_new_file(p.c_str(), "w"); if (!b || !f(b)) std::abort(); BIO_free(b); }
struct Cert { EVP_PKEY* key = nullptr; X509* crt = nullptr; std::string certFile, keyFile; };
inline Cert make(std::string const& dir, std::string const& name, Cert const* by, std::string const& san, long from = -3600, long to = 86400) {
    Cert c; c.key = EVP_EC_gen("P-256"); c.crt = X509_new(); X509_set_version(c.crt, 2); static long serial = 1; ASN1_INTEGER_set(X509_get_serialNumber(c.crt), ++serial); X509_gmtime_adj(X509_getm_notBefore(c.crt), from); X509_gmtime_adj(X509_getm_notAfter(c.crt), to); X509_set_pubkey(c.crt, c.key); auto n = X509_get_subject_name(c.crt); X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (unsigned char const*)name.c_str(), -1, -1, 0); X509_set_issuer_name(c.crt, by ? X509_get_subject_name(by->crt) : n);
    X509V3_CTX x; X509V3_set_ctx_nodb(&x); X509V3_set_ctx(&x, by ? by->crt : c.crt, c.crt, nullptr, nullptr, 0); auto ext = [&](int nid, std::string const& v) { auto e = X509V3_EXT_conf_nid(nullptr, &x, nid, v.c_str()); if (!e) std::abort(); X509_add_ext(c.crt, e, -1); X509_EXTENSION_free(e); }; ext(NID_basic_constraints, by ? "CA:FALSE" : "critical,CA:TRUE"); if (!san.empty()) ext(NID_subject_alt_name, san);
    X509_sign(c.crt, by ? by->key : c.key, EVP_sha256()); c.certFile = dir + "/" + name + ".crt"; c.keyFile = dir + "/" + name + ".key"; writeFile(c.certFile, [&](BIO* b) { return PEM_write_bio_X509(b, c.crt); }); writeFile(c.keyFile, [&](BIO* b) { return PEM_write_bio_PrivateKey(b, c.key, nullptr, nullptr, 0, nullptr, nullptr); }); return c; }
inline void drop(Cert& c) { X509_free(c.crt); EVP_PKEY_free(c.key); ::unlink(c.certFile.c_str()); ::unlink(c.keyFile.c_str()); }
struct Opt { bool server = false; int version = 0; std::string sni; std::uint64_t seed = 1; int seg = 0; bool keyUpdates = false, bye = true; SSL_SESSION* resume = nullptr;
    long flipAt = -1, cutAt = -1; int cutHow = 0; std::string raw; };   // cutHow: 0 close, 1 reset, 2 stall until the other side leaves; raw: these bytes instead of TLS
struct Bridge {
    Peer plain; std::thread th; int fd, inner; Opt o; SSL* s; BIO *rb, *wb; vf::Rng r;
    std::atomic_bool up{false}, done{false}, clean{false}, gone{false}; std::string err, sni, seen; SSL_SESSION* got = nullptr; bool resumed = false; std::size_t sent = 0, records = 0; std::atomic<double> goneAt{0};
    Bridge(int tcpFd, SSL_CTX* ctx, Opt opt) : fd(tcpFd), o(std::move(opt)), r(o.seed) { auto [a, b] = pairFds(); plain.fd = a; inner = b; ::fcntl(fd, F_SETFL, ::fcntl(fd, F_GETFL) | O_NONBLOCK); ::fcntl(inner, F_SETFL, ::fcntl(inner, F_GETFL) | O_NONBLOCK); s = SSL_new(ctx); rb = BIO_new(BIO_s_mem()); wb = BIO_new(BIO_s_mem()); BIO_set_mem_eof_return(rb, -1); SSL_set_bio(s, rb, wb); if (o.version) { SSL_set_min_proto_version(s, o.version); SSL_set_max_proto_version(s, o.version); } if (o.server) SSL_set_accept_state(s); else { SSL_set_connect_state(s); if (!o.sni.empty()) SSL_set_tlsext_host_name(s, o.sni.c_str()); if (o.resume) SSL_set_session(s, o.resume); } th = std::thread([this] { run(); }); }
    void run() {
        std::string wire = o.raw, down; bool hs = false, plainEof = false, over = !o.raw.empty(), stop = false, downShut = false, byeSent = false; std::size_t at = 0; auto fail = [&](char const* w) { char b[200] = ""; ERR_error_string_n(ERR_peek_error(), b, sizeof b); err = std::string(w) + " " + b; over = true; };
        double quietEnd = 0;
        while (!stop) {
            bool moved = false; if (!over) { ERR_clear_error(); if (!hs) { int k = SSL_do_handshake(s); if (k == 1) { hs = up = true; resumed = SSL_session_reused(s); if (o.server) if (auto n = SSL_get_servername(s, TLSEXT_NAMETYPE_host_name)) sni = n; moved = true; } else { int e = SSL_get_error(s, k); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) fail("handshake"); } } }
            if (hs && !over) { char b[20000]; for (;;) { ERR_clear_error(); int k = SSL_read(s, b, (int)(r.chance(0.1) ? 1 + r.below(50) : sizeof b)); if (k > 0) { down.append(b, (std::size_t)k); moved = true; if (down.size() > 4000000) break; continue; } int e = SSL_get_error(s, k); if (e == SSL_ERROR_ZERO_RETURN) { clean = true; } else if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) fail("read"); break; }
                if (!plainEof && wire.size() - at < 100000) { std::size_t n = r.chance(0.2) ? 1 + r.below(10) : r.chance(0.4) ? 1 + r.below(2000) : 16384; char c[16384]; auto k = ::recv(inner, c, n, 0); if (k > 0) { ERR_clear_error(); if (o.keyUpdates && SSL_version(s) == TLS1_3_VERSION && r.chance(0.2)) SSL_key_update(s, r.chance(0.6) ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED); if (SSL_write(s, c, (int)k) != (int)k) fail("write"); ++records; moved = true; } else if (k == 0 || (errno != EAGAIN && errno != EINTR)) plainEof = true; }
                if (plainEof && !byeSent) { byeSent = true; if (o.bye) SSL_shutdown(s); quietEnd = now() + 30; } }
            char* p; long pend = BIO_get_mem_data(wb, &p); if (pend > 0) { auto before = sent + (wire.size() - at); std::string add(p, (std::size_t)pend); (void)BIO_reset(wb); if (o.flipAt >= 0 && (std::size_t)o.flipAt >= before && (std::size_t)o.flipAt < before + add.size()) add[(std::size_t)o.flipAt - before] ^= (char)(1 << r.below(8)); wire += add; moved = true; }
            if (at < wire.size()) { std::size_t n = wire.size() - at; if (o.seg) n = std::min<std::size_t>(n, 1 + r.below((std::uint64_t)o.seg)); if (o.cutAt >= 0) n = std::min<std::size_t>(n, (std::size_t)o.cutAt - std::min(sent, (std::size_t)o.cutAt)); if (o.cutAt >= 0 && sent >= (std::size_t)o.cutAt) { if (o.cutHow == 2) { at = wire.size(); over = true; } else { if (o.cutHow == 1) { linger l{1, 0}; ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } break; } } else { auto k = ::send(fd, wire.data() + at, n, MSG_NOSIGNAL); if (k > 0) { at += (std::size_t)k; sent += (std::size_t)k; moved = true; if (o.seg && o.seg < 3000 && r.chance(0.5)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(60))); } else if (errno != EAGAIN && errno != EINTR) { gone = true; at = wire.size(); } } if (at >= wire.size()) { wire.clear(); at = 0; } }
            { char b[32768]; auto k = ::recv(fd, b, r.chance(0.2) ? 1 + r.below(300) : sizeof b, 0); if (k > 0) { if (seen.size() < 200000) seen.append(b, (std::size_t)k); BIO_write(rb, b, (int)k); moved = true; } else if (k == 0 || (errno != EAGAIN && errno != EINTR)) { if (!gone) goneAt = now(); gone = true; } }
            if (!down.empty()) { auto k = ::send(inner, down.data(), down.size(), MSG_NOSIGNAL); if (k > 0) { down.erase(0, (std::size_t)k); moved = true; } else if (errno != EAGAIN && errno != EINTR) down.clear(); }
            if (down.empty() && !downShut && (clean || (gone && !moved) || (over && gone))) { downShut = true; ::shutdown(inner, SHUT_WR); }
            if (gone && !moved) stop = true; if (byeSent && at >= wire.size() && BIO_pending(wb) == 0 && (clean || !o.bye || now() > quietEnd)) stop = true; if (over && !plainEof) { char c[4096]; auto k = ::recv(inner, c, sizeof c, 0); if (k == 0 || (k < 0 && errno != EAGAIN && errno != EINTR)) plainEof = true; } if (over && plainEof && at >= wire.size() && o.cutHow != 2) stop = true; if (over && plainEof && gone) stop = true;
            if (!moved && !stop) { pollfd q[2]{{fd, (short)(POLLIN | (at < wire.size() ? POLLOUT : 0)), 0}, {plainEof ? -1 : inner, (short)(POLLIN | (down.empty() ? 0 : POLLOUT)), 0}}; if (gone) q[0].fd = -1; ::poll(q, 2, 20); } }
        if (!goneAt) goneAt = now(); if (hs && !o.server) got = SSL_get1_session(s); ::close(fd); ::close(inner); SSL_free(s); done = true; ERR_clear_error(); }
    // the connection ended from the other side within the bound
    bool left(double sec) { return vf::waitUntil([&] { return done.load() || gone.load(); }, sec); }
    void finish() { plain.close(); if (th.joinable()) th.join(); }
    ~Bridge() { finish(); if (got) SSL_SESSION_free(got); }
};
} // namespace tl
