// Shared pieces of the concurrency harnesses (compiled with -fsanitize=thread).
#pragma once
#include "mcrt.h"
#include <xtr/logger.hpp>
#include <xtr/command_path.hpp>
#include <chrono>
#include <cstring>
#include <memory>
#include <string>
#include <thread>
#include <vector>

// A clock that never advances: 2000-01-01 01:02:03.123456
struct fixed_clock {
    using duration = std::chrono::nanoseconds;
    using rep = duration::rep;
    using period = duration::period;
    using time_point = std::chrono::time_point<fixed_clock>;
    static constexpr bool is_steady = false;
    time_point now() const noexcept { return time_point(duration(946688523123456000ll)); }
    static std::time_t to_time_t(const time_point&) { return 0; }
    static time_point from_time_t(std::time_t) { return {}; }
};
inline constexpr const char* TS = "2000-01-01 01:02:03.123456";

// Everything the back end observes, in order.
struct Rec {
    std::string data;         // bytes accepted, in submission order
    size_t flushed = 0;       // prefix of data covered by a flush()
    size_t synced = 0;        // prefix of data covered by a sync()
    int flushes = 0, syncs = 0, reopens = 0;
    bool open_buffer = false; // allocated but not yet submitted
    bool destroyed = false;
    size_t at_destroy = 0;
    void reset() { *this = Rec{}; }
};

struct mem_storage : xtr::storage_interface {
    Rec* r; std::vector<char> buf; size_t n;
    explicit mem_storage(Rec* rec, size_t size = 4096) : r(rec), buf(size), n(size) {}
    ~mem_storage() { r->destroyed = true; r->at_destroy = r->data.size(); }
    std::span<char> allocate_buffer() override
    {
        if (r->open_buffer) mc::fail("allocate_buffer called twice without submit");
        r->open_buffer = true;
        return {buf.data(), n};
    }
    void submit_buffer(char* b, std::size_t size) override
    {
        if (b != buf.data() || !r->open_buffer) mc::fail("submit_buffer of a buffer that was not allocated");
        if (size > n || size == 0) mc::fail("submit_buffer size %zu out of range", size);
        r->open_buffer = false;
        r->data.append(b, size);
    }
    void flush() override { r->flushes++; r->flushed = r->data.size(); }
    void sync() noexcept override { r->syncs++; r->synced = r->flushed; }
    int reopen() noexcept override { r->reopens++; return 0; }
};

inline std::vector<std::string> split_lines(const std::string& s)
{
    std::vector<std::string> v; size_t p = 0;
    while (p < s.size()) {
        size_t e = s.find('\n', p);
        if (e == std::string::npos) { v.push_back(s.substr(p)); break; }
        v.push_back(s.substr(p, e - p)); p = e + 1;
    }
    return v;
}
// Extracts "<name> <file>:<line>: <msg>" tail: returns msg of lines of sink `name`.
inline bool parse_line(const std::string& l, std::string& level, std::string& name, std::string& msg)
{
    // "<level>  <ts> <name> file:line: msg"
    size_t p = l.find(TS);
    if (p == std::string::npos) return false;
    level = l.substr(0, p);
    size_t q = p + strlen(TS) + 1;
    size_t e = l.find(' ', q);
    if (e == std::string::npos) return false;
    name = l.substr(q, e - q);
    msg = l.substr(e + 1);
    return true;
}

// Forces the (wall-clock dependent) cycle-counter calibration before exploring,
// if this tree has such a function; weak so that its absence is harmless.
extern "C" std::uint64_t mc_get_tsc_hz() __asm__("_ZN3xtr6detail10get_tsc_hzEv") __attribute__((weak));
inline void warm() { if (mc_get_tsc_hz) (void)mc_get_tsc_hz(); }


template<size_t N> struct Blob { int id; unsigned char pad[N]; };
template<size_t N> struct fmt::formatter<Blob<N>> {
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const Blob<N>& b, C& c) const
    {
        bool ok = true;
        for (size_t i = 0; i < N; ++i) if (b.pad[i] != (unsigned char)(b.id * 31 + int(i) * 7)) ok = false;
        return fmt::format_to(c.out(), "blob{}{}", b.id, ok ? "" : "CORRUPT");
    }
};
template<size_t N> __attribute__((no_sanitize("thread"))) static Blob<N> mk(int id)
{
    Blob<N> b; b.id = id;
    for (size_t i = 0; i < N; ++i) b.pad[i] = (unsigned char)(id * 31 + int(i) * 7);
    return b;
}
static std::string pat(int id, size_t n)
{
    std::string s(n, 'a');
    for (size_t i = 0; i < n; ++i) s[i] = char('a' + (size_t(id) * 5 + i * 3) % 26);
    return s;
}


static Rec rec;

static void expect_lines(const std::vector<std::pair<std::string, std::vector<std::string>>>& per_sink, size_t total)
{
    auto ls = split_lines(rec.data);
    std::vector<size_t> pos(per_sink.size(), 0);
    std::string order;
    if (!rec.data.empty() && rec.data.back() != '\n') mc::fail("output does not end with a complete line");
    for (auto& l : ls) {
        std::string lev, name, msg;
        if (!parse_line(l, lev, name, msg)) mc::fail("unparsable line '%.200s'", l.c_str());
        size_t c = msg.find(": ");
        if (c == std::string::npos) mc::fail("unexpected line '%.200s'", l.c_str());
        msg = msg.substr(c + 2);
        bool found = false;
        for (size_t i = 0; i < per_sink.size(); ++i)
            if (per_sink[i].first == name) {
                found = true;
                if (pos[i] >= per_sink[i].second.size()) mc::fail("sink %s: extra line '%.200s'", name.c_str(), msg.c_str());
                if (per_sink[i].second[pos[i]] != msg)
                    mc::fail("sink %s: line %zu is '%.120s', expected '%.120s'", name.c_str(), pos[i], msg.c_str(), per_sink[i].second[pos[i]].c_str());
                pos[i]++;
                order += name;
            }
        if (!found) mc::fail("line of unknown sink '%.200s'", l.c_str());
    }
    for (size_t i = 0; i < per_sink.size(); ++i)
        if (pos[i] != per_sink[i].second.size())
            mc::fail("sink %s: %zu of %zu messages delivered", per_sink[i].first.c_str(), pos[i], per_sink[i].second.size());
    if (ls.size() != total) mc::fail("%zu lines, expected %zu", ls.size(), total);
    mc::outcome(order);
}

