// Concurrent use of one logger (C06, reused by C02).
#pragma once
#include "harness.h"

namespace loggerops {

struct Env {
    std::unique_ptr<xtr::logger> log;
    Env()
    {
        mc::quiet(true);
        log = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(&rec), fixed_clock(), xtr::null_command_path);
        { xtr::sink s = log->get_sink("warm"); s.sync(); }
        mc::quiet(false);
    }
};

// --- two threads obtain sinks at once and log on them
static void get_get()
{
    {
        Env e;
        std::thread t([&] { xtr::sink b = e.log->get_sink("B"); XTR_LOG(b, "b {}", 1); });
        xtr::sink a = e.log->get_sink("A");
        XTR_LOG(a, "a {}", 2);
        a.close();
        t.join();
        e.log.reset();
    }
    expect_lines({{"A", {"a 2"}}, {"B", {"b 1"}}}, 2);
}
// --- register_sink against get_sink and a second registration
static void register_get()
{
    {
        Env e;
        std::thread t([&] { xtr::sink b; e.log->register_sink(b, "B"); XTR_LOG(b, "b1"); b.close(); e.log->register_sink(b, "C"); XTR_LOG(b, "c1"); });
        xtr::sink a = e.log->get_sink("A");
        XTR_LOG(a, "a1");
        a.close();
        t.join();
        e.log.reset();
    }
    expect_lines({{"A", {"a1"}}, {"B", {"b1"}}, {"C", {"c1"}}}, 3);
}
// --- style change on one thread, sink creation on another
static const char* custom_style(xtr::log_level_t) { return "Z "; }
static void style_get()
{
    {
        Env e;
        std::thread t([&] { xtr::sink b = e.log->get_sink("B"); XTR_LOG(b, "b1"); });
        e.log->set_log_level_style(custom_style);
        xtr::sink a = e.log->get_sink("A");
        XTR_LOG(a, "a1");
        a.close();
        t.join();
        e.log.reset();
    }
    for (auto& l : split_lines(rec.data))
        if (l.find(" A ") != std::string::npos && l.rfind("Z ", 0) != 0) mc::fail("message logged after the style change has the old prefix: %s", l.c_str());
    expect_lines({{"A", {"a1"}}, {"B", {"b1"}}}, 2);
}
// --- style changes on both threads
static const char* custom_style2(xtr::log_level_t) { return "Y "; }
static void style_style()
{
    {
        Env e;
        std::thread t([&] { e.log->set_log_level_style(custom_style2); xtr::sink b = e.log->get_sink("B"); XTR_LOG(b, "b1"); });
        e.log->set_log_level_style(custom_style);
        xtr::sink a = e.log->get_sink("A");
        XTR_LOG(a, "a1");
        a.close();
        t.join();
        e.log.reset();
    }
    for (auto& l : split_lines(rec.data))
        if (l.rfind("Z ", 0) != 0 && l.rfind("Y ", 0) != 0) mc::fail("message logged after the style changes has the default prefix: %s", l.c_str());
    expect_lines({{"A", {"a1"}}, {"B", {"b1"}}}, 2);
}
// --- command path set on one thread (to nothing), sinks on another
static void path_get()
{
    {
        Env e;
        std::thread t([&] { xtr::sink b = e.log->get_sink("B"); XTR_LOG(b, "b1"); xtr::sink c = e.log->get_sink("C"); XTR_LOG(c, "c1"); });
        e.log->set_command_path(std::string(xtr::null_command_path));
        t.join();
        e.log.reset();
    }
    expect_lines({{"B", {"b1"}}, {"C", {"c1"}}}, 2);
}
static void path_style()
{
    {
        Env e;
        std::thread t([&] { e.log->set_log_level_style(custom_style); });
        e.log->set_command_path(std::string(xtr::null_command_path));
        xtr::sink a = e.log->get_sink("A");
        XTR_LOG(a, "a1");
        a.close();
        t.join();
        e.log.reset();
    }
    expect_lines({{"A", {"a1"}}}, 1);
}
// --- the default level is inherited from a call that happened before
static void default_level()
{
    {
        Env e;
        xtr::log_level_t lb = xtr::log_level_t::none;
        std::thread t([&] { xtr::sink b = e.log->get_sink("B"); lb = b.level(); XTR_LOG(b, "b1"); });
        e.log->set_default_log_level(xtr::log_level_t::error);
        xtr::sink a = e.log->get_sink("A");
        if (a.level() != xtr::log_level_t::error) mc::fail("sink created after set_default_log_level(error) has another level");
        XTR_LOGL(warning, a, "hidden");
        XTR_LOG(a, "a1");
        a.close();
        t.join();
        if (lb != xtr::log_level_t::error && lb != xtr::log_level_t::info) mc::fail("sink created with a default level nobody set");
        mc::outcome(lb == xtr::log_level_t::error ? "e" : "i");
        e.log.reset();
    }
    expect_lines({{"A", {"a1"}}, {"B", {"b1"}}}, 2);
}
// --- a sink whose first message comes from another thread than its creator
static void handover()
{
    {
        Env e;
        auto a = std::make_unique<xtr::sink>(e.log->get_sink("A"));
        std::thread t([&] { XTR_LOG(*a, "a1"); a.reset(); });
        xtr::sink b = e.log->get_sink("B");
        XTR_LOG(b, "b1");
        b.close();
        t.join();
        e.log.reset();
    }
    expect_lines({{"A", {"a1"}}, {"B", {"b1"}}}, 2);
}
// --- the control queue is full of registrations: the next waits, nothing is lost
static void control_full()
{
    std::vector<std::pair<std::string, std::vector<std::string>>> exp;
    {
        Env e;
        std::vector<std::unique_ptr<xtr::sink>> v;
        std::thread t([&] { xtr::sink b = e.log->get_sink("B"); XTR_LOG(b, "b1"); });
        for (int i = 0; i < 3; ++i) {
            v.push_back(std::make_unique<xtr::sink>());
            e.log->register_sink(*v.back(), "S" + std::to_string(i));
        }
        for (int i = 0; i < 3; ++i) { XTR_LOG(*v[size_t(i)], "m{}", i); exp.push_back({"S" + std::to_string(i), {"m" + std::to_string(i)}}); }
        exp.push_back({"B", {"b1"}});
        t.join();
        v.clear();
        e.log.reset();
    }
    expect_lines(exp, 4);
}
// --- three threads at once (thorough)
static void three()
{
    {
        Env e;
        std::thread t([&] { xtr::sink b = e.log->get_sink("B"); XTR_LOG(b, "b1"); });
        std::thread u([&] { e.log->set_log_level_style(custom_style); });
        xtr::sink a = e.log->get_sink("A");
        XTR_LOG(a, "a1");
        a.close();
        t.join(); u.join();
        e.log.reset();
    }
    expect_lines({{"A", {"a1"}}, {"B", {"b1"}}}, 2);
}
}
