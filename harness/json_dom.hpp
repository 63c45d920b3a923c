#pragma once
// Independent JSON document model, strict RFC 8259 parser and randomising writer (oracle side).
#include "vf.hpp"
#include <optional>
#include <stdexcept>
namespace dom {
struct Member;
struct Dom { enum K { Null, Bool, Num, Str, Arr, Obj } k = Null; bool b = false; bool f32 = false; bool fp = false; bool ident = false; std::string s; std::vector<Dom> a; std::vector<Member> o;
    Dom(); ~Dom(); Dom(Dom const&); Dom(Dom&&) noexcept; Dom& operator=(Dom const&); Dom& operator=(Dom&&) noexcept; };
struct Member { std::string first; Dom second; Member(std::string f, Dom s) : first(std::move(f)), second(std::move(s)) {} };
inline Dom::Dom() = default; inline Dom::~Dom() = default; inline Dom::Dom(Dom const&) = default; inline Dom::Dom(Dom&&) noexcept = default; inline Dom& Dom::operator=(Dom const&) = default; inline Dom& Dom::operator=(Dom&&) noexcept = default;
inline Dom mk(bool b) { Dom d; d.k = Dom::Bool; d.b = b; return d; }
inline Dom mkNum(std::string t, bool f = false) { Dom d; d.k = Dom::Num; d.s = std::move(t); d.f32 = f; return d; }
inline Dom mkStr(std::string t) { Dom d; d.k = Dom::Str; d.s = std::move(t); return d; }
inline void utf8(std::string& o, unsigned c) {
    if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
// decode one code point of valid UTF-8 (returns -1 if invalid)
inline long dec(std::string_view s, std::size_t& i) {
    unsigned char c = (unsigned char)s[i]; int n = c < 0x80 ? 0 : c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : -1;
    if (n < 0 || i + (std::size_t)n >= s.size()) return -1;
    long v = n == 0 ? c : c & (0x3F >> n); for (int j = 1; j <= n; ++j) { unsigned char d = (unsigned char)s[i + (std::size_t)j]; if ((d & 0xC0) != 0x80) return -1; v = v << 6 | (d & 63); }
    static const long lo[] = {0, 0x80, 0x800, 0x10000}; if (v < lo[n] || v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF)) return -1;
    i += (std::size_t)n + 1; return v;
}
inline bool validUtf8(std::string_view s) { std::size_t i = 0; while (i < s.size()) if (dec(s, i) < 0) return false; return true; }
struct Err : std::runtime_error { using std::runtime_error::runtime_error; };
struct Parser {
    std::string_view t; std::size_t i = 0;
    [[noreturn]] void bad(char const* m) { throw Err(std::string(m) + " at " + std::to_string(i)); }
    void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r')) ++i; }
    char peek() { if (i >= t.size()) bad("eof"); return t[i]; }
    void lit(std::string_view l) { if (t.substr(i, l.size()) != l) bad("literal"); i += l.size(); }
    unsigned hex4() { unsigned v = 0; for (int k = 0; k < 4; ++k) { char c = peek(); ++i; v <<= 4; if (c >= '0' && c <= '9') v |= (unsigned)(c - '0'); else if ((c | 32) >= 'a' && (c | 32) <= 'f') v |= (unsigned)((c | 32) - 'a' + 10); else bad("hex"); } return v; }
    std::string str() { if (peek() != '"') bad("quote"); ++i; std::string r;
        for (;;) { char c = peek(); if (c == '"') { ++i; return r; } if ((unsigned char)c < 32) bad("control char in string");
            if (c == '\\') { ++i; c = peek(); ++i; switch (c) { case '"': case '\\': case '/': r += c; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
                case 'u': { unsigned u = hex4(); if (u >= 0xDC00 && u < 0xE000) bad("lone low surrogate"); if (u >= 0xD800 && u < 0xDC00) { lit("\\u"); unsigned l = hex4(); if (l < 0xDC00 || l > 0xDFFF) bad("surrogate"); u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00); } utf8(r, u); break; }
                default: bad("escape"); } }
            else { std::size_t j = i; if (dec(t, j) < 0) bad("utf8"); r.append(t.substr(i, j - i)); i = j; } } }
    Dom num() { std::size_t b = i; if (peek() == '-') ++i; if (peek() == '0') ++i; else if (isdigit((unsigned char)peek())) while (i < t.size() && isdigit((unsigned char)t[i])) ++i; else bad("number");
        if (i < t.size() && t[i] == '.') { ++i; if (!isdigit((unsigned char)peek())) bad("frac"); while (i < t.size() && isdigit((unsigned char)t[i])) ++i; }
        if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { ++i; if (peek() == '+' || peek() == '-') ++i; if (!isdigit((unsigned char)peek())) bad("exp"); while (i < t.size() && isdigit((unsigned char)t[i])) ++i; }
        return mkNum(std::string(t.substr(b, i - b))); }
    Dom val(int depth = 0) { if (depth > 500) bad("depth"); ws(); Dom d; char c = peek();
        if (c == '{') { d.k = Dom::Obj; ++i; ws(); if (peek() == '}') { ++i; return d; } for (;;) { ws(); auto k = str(); ws(); if (peek() != ':') bad("colon"); ++i; d.o.emplace_back(std::move(k), val(depth + 1)); ws(); c = peek(); ++i; if (c == '}') return d; if (c != ',') bad("comma"); } }
        if (c == '[') { d.k = Dom::Arr; ++i; ws(); if (peek() == ']') { ++i; return d; } for (;;) { d.a.push_back(val(depth + 1)); ws(); c = peek(); ++i; if (c == ']') return d; if (c != ',') bad("comma"); } }
        if (c == '"') return mkStr(str());
        if (c == 't') { lit("true"); return mk(true); } if (c == 'f') { lit("false"); return mk(false); } if (c == 'n') { lit("null"); return d; }
        return num(); }
};
inline Dom parse(std::string_view s) { Parser p{s}; auto d = p.val(); p.ws(); if (p.i != s.size()) p.bad("trailing"); return d; }
inline bool isInt(std::string const& s) { for (char c : s) if (!isdigit((unsigned char)c) && c != '-') return false; return true; }
inline bool numEq(Dom const& a, Dom const& b) {
    if (isInt(a.s) && isInt(b.s)) return a.s == b.s;
    if (a.f32 || b.f32) return std::strtof(a.s.c_str(), nullptr) == std::strtof(b.s.c_str(), nullptr);
    return std::strtod(a.s.c_str(), nullptr) == std::strtod(b.s.c_str(), nullptr);
}
// order of object members is irrelevant
inline bool eq(Dom const& a, Dom const& b) {
    if (a.k != b.k) return false;
    switch (a.k) { case Dom::Null: return true; case Dom::Bool: return a.b == b.b; case Dom::Num: return numEq(a, b); case Dom::Str: return a.s == b.s;
        case Dom::Arr: if (a.a.size() != b.a.size()) return false; for (std::size_t i = 0; i < a.a.size(); ++i) if (!eq(a.a[i], b.a[i])) return false; return true;
        case Dom::Obj: { if (a.o.size() != b.o.size()) return false; std::vector<bool> used(b.o.size()); for (auto& [k, v] : a.o) { bool f = false; for (std::size_t i = 0; i < b.o.size(); ++i) if (!used[i] && b.o[i].first == k) { if (!eq(v, b.o[i].second)) return false; used[i] = true; f = true; break; } if (!f) return false; } return true; } }
    return false;
}
inline void quote(std::string const& s, std::string& o, vf::Rng* r) {
    o += '"'; char b[16];
    for (std::size_t i = 0; i < s.size();) { std::size_t j = i; long c = dec(s, j);
        if (c < 0) { o += s[i++]; continue; }
        bool force = c < 32 || c == '"' || c == '\\';
        if (force || (r && r->chance(0.15))) {
            static const std::pair<long, char> sh[] = {{'"', '"'}, {'\\', '\\'}, {'\b', 'b'}, {'\f', 'f'}, {'\n', 'n'}, {'\r', 'r'}, {'\t', 't'}, {'/', '/'}};
            bool done = false; if (!r || r->chance(0.6)) for (auto& [k, e] : sh) if (k == c) { o += '\\'; o += e; done = true; break; }
            if (!done) { char const* f = r && r->chance(0.5) ? "\\u%04x" : "\\u%04X";
                if (c >= 0x10000) { std::snprintf(b, sizeof b, f, (unsigned)(0xD800 + ((c - 0x10000) >> 10))); o += b; std::snprintf(b, sizeof b, f, (unsigned)(0xDC00 + ((c - 0x10000) & 0x3FF))); o += b; }
                else { std::snprintf(b, sizeof b, f, (unsigned)c); o += b; } } }
        else o.append(s, i, j - i);
        i = j; }
    o += '"';
}
inline void wsp(std::string& o, vf::Rng* r) { if (r && r->chance(0.3)) o += r->text(1 + r->below(3), " \t\n\r"); }
// objKeysPlain: do not escape member names of structs (kept plain), map keys are escaped at random
inline void write(Dom const& d, std::string& o, vf::Rng* r, bool shuffle = true) {
    wsp(o, r);
    switch (d.k) { case Dom::Null: o += "null"; break; case Dom::Bool: o += d.b ? "true" : "false"; break; case Dom::Num: o += d.s; break; case Dom::Str: quote(d.s, o, d.ident ? nullptr : r); break;
        case Dom::Arr: { o += '['; wsp(o, r); for (std::size_t i = 0; i < d.a.size(); ++i) { if (i) o += ','; write(d.a[i], o, r, shuffle); } wsp(o, r); o += ']'; break; }
        case Dom::Obj: { o += '{'; wsp(o, r); std::vector<std::size_t> ix(d.o.size()); for (std::size_t i = 0; i < ix.size(); ++i) ix[i] = i; if (r && shuffle) r->shuffle(ix);
            bool f = true; for (auto i : ix) { if (!f) o += ','; f = false; wsp(o, r); bool plain = true; for (char c : d.o[i].first) if (!isalnum((unsigned char)c) && c != '_') plain = false; quote(d.o[i].first, o, plain ? nullptr : r); wsp(o, r); o += ':'; write(d.o[i].second, o, r, shuffle); }
            wsp(o, r); o += '}'; break; } }
    wsp(o, r);
}
inline std::string str(Dom const& d) { std::string o; write(d, o, nullptr); return o; }
} // namespace dom
