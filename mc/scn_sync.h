// sync() and fatal statements (C04, reused by C02).
#pragma once
#include "harness.h"
#include <mutex>

namespace syncing {

// A back end whose observations may be read while the logger runs.
struct SyncRec {
    std::mutex m;
    std::string durable;  // bytes covered by submit -> flush -> sync, in that order
    int syncs = 0;
    std::string data; size_t flushed = 0;
};
static SyncRec* sr;
struct sync_storage : xtr::storage_interface {
    std::vector<char> buf; std::string data; size_t flushed = 0;
    explicit sync_storage(size_t n) : buf(n) {}
    std::span<char> allocate_buffer() override { return {buf.data(), buf.size()}; }
    void submit_buffer(char* b, std::size_t n) override { data.append(b, n); }
    void flush() override { flushed = data.size(); }
    void sync() noexcept override { std::scoped_lock l{sr->m}; sr->durable = data.substr(0, flushed); sr->syncs++; }
    int reopen() noexcept override { return 0; }
};
static std::string durable() { std::scoped_lock l{sr->m}; return sr->durable; }
static void need(const char* what, std::initializer_list<const char*> msgs)
{
    std::string d = durable(); size_t p = 0;
    for (auto m : msgs) {
        size_t q = d.find(std::string(": ") + m + "\n", p);
        if (q == std::string::npos) mc::fail("%s: message '%.60s' had not been written, flushed and synced in order (durable: '%.300s')", what, m, d.c_str());
        p = q + 1;
    }
}
struct Env {
    std::unique_ptr<xtr::logger> log;
    explicit Env(size_t bufsize = 4096)
    {
        mc::quiet(true);
        sr = new SyncRec;
        log = std::make_unique<xtr::logger>(std::make_unique<sync_storage>(bufsize), fixed_clock(), xtr::null_command_path);
        { xtr::sink s = log->get_sink("warm"); s.sync(); s.close(); }
        mc::quiet(false);
    }
};
static void sync_basic()
{
    Env e;
    xtr::sink a = e.log->get_sink("A");
    XTR_LOG(a, "one");
    a.sync(); need("first sync", {"one"});
    XTR_LOG(a, "two {}", 2); XTR_LOG(a, "three {}", "x");
    a.sync(); need("second sync", {"one", "two 2", "three x"});
    a.sync();
    a.close(); e.log.reset();
}
// small back-end buffers: the messages are spread over several submissions
static void sync_small()
{
    Env e(16);
    xtr::sink a = e.log->get_sink("A");
    XTR_LOG(a, "one {}", 1); XTR_LOG(a, "two {}", 2);
    a.sync(); need("sync", {"one 1", "two 2"});
    a.close(); e.log.reset();
}
// the queue is full when sync() is called
static void sync_full()
{
    Env e;
    xtr::sink a = e.log->get_sink("A");
    XTR_LOG(a, "{}", mk<2036>(1)); XTR_LOG(a, "{}", mk<2036>(2)); XTR_LOG(a, "{}", mk<2036>(3));
    a.sync(); need("sync", {"blob1", "blob2", "blob3"});
    a.close(); e.log.reset();
}
// two threads sync their own sinks at once
static void sync_two()
{
    Env e;
    xtr::sink a = e.log->get_sink("A");
    std::thread t([&] { xtr::sink b = e.log->get_sink("B"); XTR_LOG(b, "b1"); b.sync(); need("sync of B", {"b1"}); });
    XTR_LOG(a, "a1"); a.sync(); need("sync of A", {"a1"});
    XTR_LOG(a, "a2"); a.sync(); need("sync of A", {"a1", "a2"});
    a.close(); t.join(); e.log.reset();
}
// another sink keeps logging while this one syncs
static void sync_traffic()
{
    Env e(64);
    xtr::sink a = e.log->get_sink("A");
    std::thread t([&] { xtr::sink b = e.log->get_sink("B"); XTR_LOG(b, "b1"); XTR_LOG(b, "b2"); });
    XTR_LOG(a, "a1"); a.sync(); need("sync of A", {"a1"});
    a.close(); t.join(); e.log.reset();
}
// sync on a copy, after the original's messages
static void sync_copy()
{
    Env e;
    xtr::sink a = e.log->get_sink("A");
    XTR_LOG(a, "a1");
    xtr::sink b = a;
    XTR_LOG(b, "b1"); b.sync(); need("sync of the copy", {"b1"});
    a.sync(); need("sync of the original", {"a1"});
    b.close(); a.close(); e.log.reset();
}
// fatal statements
static void check_fatal() { need("abort in a fatal statement", {"before", "bye 7"}); mc::outcome("aborted"); }
static void fatal_plain()
{
    mc::on_abort(check_fatal);
    Env e;
    xtr::sink a = e.log->get_sink("A");
    XTR_LOG(a, "before");
    XTR_LOGL(fatal, a, "bye {}", 7);
    mc::fail("the fatal statement returned");
}
static int fatal_kind;
static void check_fatal_filtered()
{
    need("abort in a filtered fatal statement", {"before"});
    std::string d = durable();
    if (d.find("bye") != std::string::npos) mc::fail("filtered fatal message was written");
    mc::outcome("aborted" + std::to_string(fatal_kind));
}
static void fatal_filtered()
{
    mc::on_abort(check_fatal_filtered);
    Env e;
    xtr::sink a = e.log->get_sink("A");
    XTR_LOG(a, "before");
    a.set_level(xtr::log_level_t::none);
    switch (fatal_kind = mc::choose(6)) {
    case 0: XTR_LOGL(fatal, a, "bye {}", 7); break;
    case 1: XTR_TRY_LOGL(fatal, a, "bye {}", 7); break;
    case 2: XTR_LOGL_TSC(fatal, a, "bye {}", 7); break;
    case 3: XTR_LOGL_RTC(fatal, a, "bye {}", 7); break;
    case 4: XTR_LOGL_TS(fatal, a, xtr::timespec(), "bye {}", 7); break;
    case 5: XTR_LOGL(fatal, a, "bye"); break;
    }
    mc::fail("the filtered fatal statement returned");
}
static void fatal_kinds()
{
    mc::on_abort(check_fatal);
    Env e;
    xtr::sink a = e.log->get_sink("A");
    XTR_LOG(a, "before");
    a.set_level(mc::choose(2) ? xtr::log_level_t::fatal : xtr::log_level_t::debug);
    switch (mc::choose(6)) {
    case 0: XTR_TRY_LOGL(fatal, a, "bye {}", 7); break;
    case 1: XTR_LOGL_TSC(fatal, a, "bye {}", 7); break;
    case 2: XTR_TRY_LOGL_RTC(fatal, a, "bye {}", 7); break;
    case 3: XTR_LOGL_RTC(fatal, a, "bye {}", 7); break;
    case 4: XTR_LOGL_TS(fatal, a, xtr::timespec(), "bye {}", 7); break;
    case 5: XTR_LOGL(fatal, a, "bye {}", "7"); break;
    }
    mc::fail("the fatal statement returned");
}
// a fatal statement on one sink while another thread logs
static void fatal_traffic()
{
    mc::on_abort(check_fatal);
    Env e;
    xtr::sink a = e.log->get_sink("A");
    auto b = std::make_unique<xtr::sink>(e.log->get_sink("B"));
    std::thread t([&] { XTR_LOG(*b, "b1"); b.reset(); });
    XTR_LOG(a, "before");
    XTR_LOGL(fatal, a, "bye {}", 7);
    mc::fail("the fatal statement returned");
}
}
