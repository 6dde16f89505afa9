// A logger on in-memory storage for sequence checks: one logger per worker
// process, one fresh sink per history.
#pragma once
#include "seq.h"
#include <xtr/logger.hpp>
#include <fmt/format.h>
#include <chrono>
#include <memory>
#include <mutex>
#include <span>
#include <string>
#include <thread>

namespace lg {
struct Out { std::mutex m; std::string data; long flushes = 0, syncs = 0; };
inline Out& out() { static Out* o = new Out; return *o; }
struct Mem : xtr::storage_interface {
    char b[1000];
    std::span<char> allocate_buffer() override { return {b, sizeof b}; }
    void submit_buffer(char* p, std::size_t n) override { std::scoped_lock l(out().m); out().data.append(p, n); }
    void flush() override { std::scoped_lock l(out().m); out().flushes++; }
    void sync() noexcept override { std::scoped_lock l(out().m); out().syncs++; }
    int reopen() noexcept override { return 0; }
};
struct Clock { using duration = std::chrono::system_clock::duration; using time_point = std::chrono::system_clock::time_point; using rep = duration::rep; using period = duration::period; static constexpr bool is_steady = false;
    static inline std::atomic<long long> ns{946688523123456789ll};
    time_point now() const { return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(ns))); } };
inline constexpr const char* TS = "2000-01-01 01:02:03.123456";
inline xtr::logger& L()
{
    static xtr::logger* l = new xtr::logger(std::make_unique<Mem>(), Clock(), xtr::null_command_path);
    return *l;
}
inline std::string take() { std::scoped_lock l(out().m); std::string s; s.swap(out().data); return s; }
// what the line of a statement at the given source position looks like
inline std::string line(char level, const std::string& name, const char* file, int ln, const std::string& msg)
{
    return std::string(1, level) + " " + TS + " " + name + " " + file + ":" + std::to_string(ln) + ": " + msg + "\n";
}
// an argument whose formatting holds up the background thread
inline std::atomic<int> stall_entered{0}, stall_release{0};
struct Stall { int id; };
inline void wait_entered(int id) { while (stall_entered.load(std::memory_order_acquire) != id) sched_yield(); }
inline void release(int id) { stall_release.store(id, std::memory_order_release); }
inline std::string esc(const std::string& s) { std::string o; for (unsigned char c : s) if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\%02x", c); o += b; } else o += char(c); return o.size() > 700 ? o.substr(0, 340) + "..." + o.substr(o.size() - 340) : o; }
inline void expect(const std::string& got, const std::string& want, const char* what)
{
    if (got != want) seq::fail("%s: got \"%s\", expected \"%s\"", what, esc(got).c_str(), esc(want).c_str());
}
}
template<> struct fmt::formatter<lg::Stall> {
    template<class C> constexpr auto parse(C& c) { return c.begin(); }
    template<class C> auto format(const lg::Stall& s, C& c) const { lg::stall_entered.store(s.id, std::memory_order_release); while (lg::stall_release.load(std::memory_order_acquire) < s.id) sched_yield(); return fmt::format_to(c.out(), "stall"); }
};
namespace lg {
// a large argument, to fill a queue quickly
struct Blk { char c[504]; };
}
template<> struct fmt::formatter<lg::Blk> {
    template<class C> constexpr auto parse(C& c) { return c.begin(); }
    template<class C> auto format(const lg::Blk&, C& c) const { return fmt::format_to(c.out(), "blk"); }
};
namespace lg {
inline unsigned blk_units();
// Black-box measurement of a sink's free space while the background thread is held up:
// counts how many argument-less messages are still accepted.
struct Held {
    xtr::sink s; int id; static inline int next = 0; std::string want; bool held = false; std::string name;
    // filler: units written (and consumed) before the background thread is held up
    explicit Held(unsigned filler, const char* nm = "s", bool raw = false) : s(L().get_sink(nm)), name(nm)
    {
        if (filler) fill(filler, raw ? 0 : blk_units());
        s.sync(); take(); want.clear();
        id = ++next;
        XTR_LOG(s, "{}", Stall{id}); want += line('I', name, "lg.h", __LINE__, "stall");
        wait_entered(id); held = true;
    }
    void unit() { XTR_LOG(s, "u"); want += line('I', name, "lg.h", __LINE__, "u"); }
    void blk() { static Blk b; XTR_LOG(s, "{}", b); want += line('I', name, "lg.h", __LINE__, "blk"); }
    void fill(unsigned n, unsigned per) { while (per && n >= per) { blk(); n -= per; } while (n) { unit(); --n; } }
    void fill(unsigned n) { fill(n, blk_units()); }
    void let_go() { if (held) { release(id); held = false; } }
    ~Held() { let_go(); }
};
inline unsigned count_of(const std::string& o, const char* w) { unsigned n = 0; size_t p = 0; while ((p = o.find(w, p)) != std::string::npos) { ++n; ++p; } return n; }
// units that fit behind the stall record and the records written by f
template<class F> unsigned room_after(unsigned filler, F&& f, bool raw = false)
{
    unsigned per = raw ? 0 : blk_units();
    Held h(filler, "s", raw); f(h.s);
    static Blk b;
    if (per) for (unsigned i = 0; i < h.s.capacity() / 512 + 1; ++i) XTR_TRY_LOG(h.s, "B{}", b);
    unsigned max = per ? per + 2 : unsigned(h.s.capacity() / 8) + 16;
    for (unsigned i = 0; i < max; ++i) XTR_TRY_LOG(h.s, "q");
    h.let_go(); h.s.sync();
    std::string o = take();
    return count_of(o, ": q\n") + per * count_of(o, ": Bblk\n");
}
inline unsigned blk_units()
{
    static unsigned n = 0;
    if (!n) { static Blk b; unsigned a = room_after(0, [](xtr::sink&) {}, true), c = room_after(0, [](xtr::sink& s) { XTR_TRY_LOG(s, "{}", b); }, true); n = a - c; }
    return n;
}
// A sink whose queue is never empty: the next message is logged before the current one is let go.
struct Busy {
    xtr::sink s; int id; long rounds = 0;
    explicit Busy(xtr::logger& l) : s(l.get_sink("busy")) { id = ++Held::next; XTR_LOG(s, "{}", Stall{id}); wait_entered(id); }
    void step() { int n = ++Held::next; XTR_LOG(s, "{}", Stall{n}); release(id); id = n; wait_entered(n); ++rounds; }
    // steps until done() holds; false if that takes for ever
    template<class F> bool until(F&& done) { long t0 = seq::now_ms(); while (!done()) { step(); if (rounds > 20000 && seq::now_ms() - t0 > 8000) return false; } return true; }
    ~Busy() { release(id); }
};
}
