#pragma once
// Shared by the database harnesses: the same file read through the plain sqlite3 API.
#include "vf.hpp"
#include <cmath>
#include <limits>
#include <optional>
#include <HXLibs/db/sqlite3/SqliteDB.hpp>
#include <HXLibs/db/sql/DataBase.hpp>
#include <HXLibs/db/sql/Param.hpp>
#include <HXLibs/log/Log.hpp>
namespace dt {
using namespace HX;
using namespace HX::db;
using namespace HX::meta::fixed_string_literals;
using DB = DataBase<DbType::Sqlite3>;
inline std::string S(long long v) { return std::to_string(v); }

// one stored value: type and exact bytes
struct Cell {
    int type = SQLITE_NULL;
    std::string data;
    bool operator==(Cell const&) const = default;
    std::string str() const { static char const* n[] = {"?", "int", "real", "text", "blob", "null"}; return std::string(n[type]) + ":" + vf::esc(data, 80); }
};
inline std::string num(double d) { char b[64]; std::snprintf(b, sizeof b, "%.17g", d); return b; }
inline Cell cInt(long long v) { return {SQLITE_INTEGER, S(v)}; }
inline Cell cReal(double v) { return {SQLITE_FLOAT, num(v)}; }
inline Cell cText(std::string v) { return {SQLITE_TEXT, std::move(v)}; }
inline Cell cBlob(std::string v) { return {SQLITE_BLOB, std::move(v)}; }

struct Raw {
    sqlite3* h = nullptr;
    explicit Raw(std::string const& path) { if (sqlite3_open(path.c_str(), &h) != SQLITE_OK) vf::fail("harness", "cannot open " + path); }
    ~Raw() { sqlite3_close(h); }
    Raw(Raw const&) = delete;
    // "" or the error
    std::string run(std::string const& sql) { char* e = nullptr; if (sqlite3_exec(h, sql.c_str(), nullptr, nullptr, &e) == SQLITE_OK) return ""; std::string s = e ? e : "?"; sqlite3_free(e); return s; }
    std::vector<std::vector<Cell>> rows(std::string const& sql) {
        std::vector<std::vector<Cell>> out; sqlite3_stmt* s = nullptr;
        if (sqlite3_prepare_v2(h, sql.c_str(), -1, &s, nullptr) != SQLITE_OK) { vf::fail("harness", std::string("raw query: ") + sqlite3_errmsg(h) + " in " + sql); return out; }
        int rc;
        while ((rc = sqlite3_step(s)) == SQLITE_ROW) {
            std::vector<Cell> r;
            for (int i = 0; i < sqlite3_column_count(s); ++i) {
                Cell c; c.type = sqlite3_column_type(s, i);
                if (c.type == SQLITE_INTEGER) c.data = S(sqlite3_column_int64(s, i));
                else if (c.type == SQLITE_FLOAT) c.data = num(sqlite3_column_double(s, i));
                else if (c.type == SQLITE_TEXT) { auto* p = sqlite3_column_text(s, i); c.data.assign((char const*)p, (std::size_t)sqlite3_column_bytes(s, i)); }
                else if (c.type == SQLITE_BLOB) { auto* p = (char const*)sqlite3_column_blob(s, i); auto n = (std::size_t)sqlite3_column_bytes(s, i); if (n) c.data.assign(p, n); }
                r.push_back(std::move(c));
            }
            out.push_back(std::move(r));
        }
        if (rc != SQLITE_DONE) vf::fail("harness", std::string("raw query: ") + sqlite3_errmsg(h));
        sqlite3_finalize(s);
        return out;
    }
};
// strings that would do something if they were ever part of a statement, or that C strings cannot carry
inline std::string hostile(vf::Rng& r) {
    static std::string const z("\0", 1);
    static std::string const list[] = {"", "'", "''", "\"", "'; DROP TABLE Row; --", "' OR '1'='1", "x' OR 1=1 --", "%", "_", "a%b", "NULL", "null", "0", "1", "-1", "1e9", "?", "?1", ":a", "@a", "$a", ";", "--", "/*", "*/", "\\", "\\'", "\n", "\r\n", "\t", " ", "  lead", "trail  ", "a", "A", "ab", "AB", "b", "Z", "a'b", "a\"b", "\xE4\xBD\xA0\xE5\xA5\xBD", "\xF0\x9F\x98\x80", "\xFF\xFE", "\xC3", "\x80", z, "a" + z + "b", z + z, "a" + z, z + "'", "); DELETE FROM Row WHERE (1=1", "RETURNING", "[x]", "`x`", "x'41'", "0x10", "1.0", "1.5"};
    if (r.chance(0.6)) return list[r.below(std::size(list))];
    if (r.chance(0.5)) return r.text(r.below(6), "ab'%_\"; -\\");
    return r.bytes(r.chance(0.1) ? r.below(70000) : r.below(20));
}
inline std::string file() { static std::atomic_int n{0}; return vf::scratch() + "/d" + S(n++) + ".db"; }
inline void drop(std::string const& f) { for (auto s : {"", "-journal", "-wal", "-shm"}) ::unlink((f + s).c_str()); }
}
