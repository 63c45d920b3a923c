#pragma once
// Live-object accounting: every Tracked is registered at construction and must be destroyed exactly once.
#include "vf.hpp"
#include <memory>
namespace vf {
struct Reg {
    std::mutex m; std::unordered_set<void const*> live; std::uint64_t made = 0, gone = 0;
    void add(void const* p) { std::lock_guard l(m); ++made; if (!live.insert(p).second) fail("construct-over-live", "an object was constructed over a live one"); }
    void del(void const* p) { std::lock_guard l(m); ++gone; if (!live.erase(p)) fail("destroy-dead", "an object was destroyed that was not alive (twice, or never constructed)"); }
    bool has(void const* p) { std::lock_guard l(m); return live.count(p) != 0; }
    std::size_t size() { std::lock_guard l(m); return live.size(); }
};
inline Reg& reg() { static Reg* r = new Reg; return *r; }
// Copyable payload owning heap memory; moved-from objects hold no value.
struct Tracked {
    std::unique_ptr<long> p;
    Tracked() : p(nullptr) { reg().add(this); }
    explicit Tracked(long v) : p(new long(v)) { reg().add(this); }
    Tracked(Tracked const& o) : p(o.use() ? new long(*o.p) : nullptr) { reg().add(this); }
    Tracked(Tracked&& o) noexcept : p((o.use(), std::move(o.p))) { reg().add(this); }
    Tracked& operator=(Tracked const& o) { self(); if (this != &o) p.reset(o.use() ? new long(*o.p) : nullptr); return *this; }
    Tracked& operator=(Tracked&& o) noexcept { self(); o.use(); if (this != &o) p = std::move(o.p); return *this; }
    ~Tracked() { reg().del(this); }
    void self() const { if (!reg().has(this)) fail("use-dead", "an object was used that is not alive"); }
    bool use() const { self(); return (bool)p; }
    long val() const { self(); return p ? *p : -1; }
    bool operator==(Tracked const& o) const { return val() == o.val(); }
};
inline bool noneLive(char const* where) {
    std::size_t n = reg().size();
    return check(n == 0, "leaked-objects", std::string(where) + ": " + std::to_string(n) + " objects were never destroyed (" + std::to_string(reg().made) + " made)");
}
}
