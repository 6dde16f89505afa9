// Idle flushing (C07, reused by C02).
#pragma once
#include "harness.h"

namespace idle {
static std::vector<std::string> want; // messages that must be flushed when idle
static void check_idle(const char* when)
{
    mc::wait_quiescent();
    size_t pos = 0, lines = 0;
    for (auto& w : want) {
        if (rec.data.find(": " + w + "\n") == std::string::npos)
            mc::fail("%s: idle, but message '%s' was not handed to the back-end", when, w.c_str());
    }
    (void)pos;
    for (char c : rec.data) lines += c == '\n';
    if (lines != want.size()) mc::fail("%s: %zu lines, %zu messages", when, lines, want.size());
    if (rec.flushed != rec.data.size())
        mc::fail("%s: idle, but only %zu of %zu bytes handed over were flushed", when, rec.flushed, rec.data.size());
}
static void put(xtr::sink& s, const std::string& m) { XTR_LOG(s, "{}", m); want.push_back(m); }
static std::unique_ptr<xtr::logger> mklog(size_t bufsize)
{
    rec.data.reserve(1 << 16);
    auto log = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(&rec, bufsize), fixed_clock(), xtr::null_command_path);
    return log;
}
// every number of sinks, every combination of {nothing, log, log+close, close}, every position
static void sinks_ops()
{
    int n = 1 + mc::choose(4);
    std::vector<std::unique_ptr<xtr::sink>> v;
    mc::quiet(true);
    auto log = mklog(mc::choose(1) ? 32 : 4096);
    for (int i = 0; i < n; ++i) v.push_back(std::make_unique<xtr::sink>(log->get_sink("S" + std::to_string(i))));
    v[0]->sync();
    mc::quiet(false);
    check_idle("at the start");
    std::string o;
    for (int i = 0; i < n; ++i) {
        int k = mc::choose(4); o += char('0' + k);
        if (k == 1 || k == 2) put(*v[size_t(i)], "m" + std::to_string(i));
        if (k >= 2) v[size_t(i)].reset();
    }
    check_idle(("after operations " + o).c_str());
    mc::outcome(o);
    v.clear();
    check_idle("after closing every sink");
    log.reset();
}
// messages separated by idle periods, sinks appearing and disappearing in between
static void rounds()
{
    mc::quiet(true);
    auto log = mklog(64);
    auto a = std::make_unique<xtr::sink>(log->get_sink("A"));
    a->sync();
    mc::quiet(false);
    std::vector<std::unique_ptr<xtr::sink>> v;
    v.push_back(std::move(a));
    for (int r = 0; r < 3; ++r) {
        int k = mc::choose(4);
        std::string id = "r" + std::to_string(r);
        switch (k) {
        case 0: if (!v.empty()) put(*v.front(), id); break;
        case 1: v.push_back(std::make_unique<xtr::sink>(log->get_sink("N" + std::to_string(r)))); put(*v.back(), id); break;
        case 2: if (!v.empty()) { put(*v.back(), id); v.pop_back(); } break;
        case 3: if (!v.empty()) { xtr::sink c = *v.front(); put(c, id); put(*v.front(), id + "x"); } break;
        }
        mc::outcome(std::to_string(k));
        check_idle(("round " + std::to_string(r)).c_str());
    }
    v.clear();
    log.reset();
}
// two producers, one of them closing
static void two_threads()
{
    mc::quiet(true);
    auto log = mklog(4096);
    auto a = std::make_unique<xtr::sink>(log->get_sink("A"));
    auto b = std::make_unique<xtr::sink>(log->get_sink("B"));
    auto c = std::make_unique<xtr::sink>(log->get_sink("C"));
    a->sync();
    mc::quiet(false);
    want = {"a1", "b1", "b2"};
    int close = mc::choose(2);
    std::thread t([&] { XTR_LOG(*b, "b1"); XTR_LOG(*b, "b2"); if (close) b.reset(); });
    XTR_LOG(*a, "a1");
    if (close) a.reset();
    t.join();
    check_idle("after both threads finished");
    a.reset(); b.reset(); c.reset();
    log.reset();
}
}
