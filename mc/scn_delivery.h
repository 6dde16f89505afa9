// Delivery scenarios (C01, reused by C02).
#pragma once
#include "harness.h"

namespace delivery {
// --- mixed record kinds, whole life cycle unconstrained
static void basic()
{
    {
        xtr::logger log(std::make_unique<mem_storage>(&rec), fixed_clock(), xtr::null_command_path);
        xtr::sink s = log.get_sink("A");
        XTR_LOG(s, "one");
        XTR_LOG(s, "two {}", 42);
        XTR_LOG(s, "three {} {}", "abc", 7);
    }
    expect_lines({{"A", {"one", "two 42", "three abc 7"}}}, 3);
    mc::outcome(std::to_string(rec.flushes));
}

// --- queue smaller than the traffic: the producer has to wait, records wrap
static void full_wrap()
{
    std::vector<std::string> exp;
    {
        mc::quiet(true);
        xtr::logger log(std::make_unique<mem_storage>(&rec), fixed_clock(), xtr::null_command_path);
        xtr::sink s = log.get_sink("A");
        s.sync();
        mc::quiet(false);
        for (int i = 0; i < 5; ++i) {
            XTR_LOG(s, "{}", mk<1500>(i));
            exp.push_back("blob" + std::to_string(i));
        }
    }
    expect_lines({{"A", exp}}, 5);
    mc::outcome("f" + std::to_string(rec.flushes));
}

// --- strings that have to wait for space while the string table is built
static void string_wait()
{
    std::vector<std::string> exp;
    {
        mc::quiet(true);
        xtr::logger log(std::make_unique<mem_storage>(&rec), fixed_clock(), xtr::null_command_path);
        xtr::sink s = log.get_sink("A");
        s.sync();
        mc::quiet(false);
        for (int i = 0; i < 4; ++i) {
            std::string a = pat(i, 900 + 300 * size_t(i)), b = pat(i + 7, 700);
            XTR_LOG(s, "{} {} {}", a, i, b.c_str());
            exp.push_back(a + " " + std::to_string(i) + " " + b);
        }
    }
    expect_lines({{"A", exp}}, 4);
}

// --- exactly full queue: records that fill the queue to the last byte
static void exact_fill()
{
    std::vector<std::string> exp;
    {
        mc::quiet(true);
        xtr::logger log(std::make_unique<mem_storage>(&rec), fixed_clock(), xtr::null_command_path);
        xtr::sink s = log.get_sink("A");
        s.sync();
        mc::quiet(false);
        // 2040-byte payload + id + function pointer: 2 * 2048 == capacity wherever it starts
        for (int i = 0; i < 4; ++i) {
            XTR_LOG(s, "{}", mk<2036>(i));
            exp.push_back("blob" + std::to_string(i));
        }
        XTR_LOG(s, "end"); exp.push_back("end");
    }
    expect_lines({{"A", exp}}, 5);
}

// --- two producers on their own sinks
static void two_producers()
{
    {
        mc::quiet(true);
        xtr::logger log(std::make_unique<mem_storage>(&rec), fixed_clock(), xtr::null_command_path);
        xtr::sink a = log.get_sink("A"), b = log.get_sink("B");
        a.sync();
        mc::quiet(false);
        std::thread t([&] { XTR_LOG(b, "x {}", 1); XTR_LOG(b, "y {}", "s"); b.close(); });
        XTR_LOG(a, "p {}", 1);
        XTR_LOG(a, "q {}", "t");
        a.close();
        t.join();
    }
    expect_lines({{"A", {"p 1", "q t"}}, {"B", {"x 1", "y s"}}}, 4);
}

// --- two producers with big records, small back-end buffers
static void two_full()
{
    std::vector<std::string> ea, eb;
    for (int i = 0; i < 3; ++i) { ea.push_back("blob" + std::to_string(i)); eb.push_back("blob" + std::to_string(10 + i)); }
    {
        mc::quiet(true);
        xtr::logger log(std::make_unique<mem_storage>(&rec, 48), fixed_clock(), xtr::null_command_path);
        xtr::sink a = log.get_sink("A"), b = log.get_sink("B");
        a.sync();
        mc::quiet(false);
        std::thread t([&] { for (int i = 0; i < 3; ++i) XTR_LOG(b, "{}", mk<1700>(10 + i)); b.close(); });
        for (int i = 0; i < 3; ++i) XTR_LOG(a, "{}", mk<1700>(i));
        a.close();
        t.join();
    }
    expect_lines({{"A", ea}, {"B", eb}}, 6);
}

// --- blocking and non-blocking calls mixed on one sink: blocking ones never drop
static void mixed_try()
{
    std::vector<std::string> must;
    {
        mc::quiet(true);
        xtr::logger log(std::make_unique<mem_storage>(&rec), fixed_clock(), xtr::null_command_path);
        xtr::sink s = log.get_sink("A");
        s.sync();
        mc::quiet(false);
        XTR_LOG(s, "{}", mk<1900>(0));
        XTR_TRY_LOG(s, "try{}", mk<1900>(1));
        XTR_TRY_LOG(s, "try{}", mk<1900>(2));
        XTR_LOG(s, "{}", mk<1900>(3));
        XTR_LOG(s, "last");
    }
    std::vector<std::string> got;
    for (auto& l : split_lines(rec.data)) {
        std::string lev, name, msg;
        if (!parse_line(l, lev, name, msg)) mc::fail("unparsable line '%.200s'", l.c_str());
        if (name == "A:") continue; // drop warning
        msg = msg.substr(msg.find(": ") + 2);
        if (msg.rfind("try", 0) == 0) { mc::outcome(msg); if (msg.find("CORRUPT") != std::string::npos) mc::fail("corrupt"); continue; }
        got.push_back(msg);
    }
    if (got != std::vector<std::string>{"blob0", "blob3", "last"}) {
        std::string g; for (auto& x : got) g += x + ",";
        mc::fail("blocking messages lost, reordered or corrupted next to non-blocking ones: %.300s", g.c_str());
    }
}

// --- every sequence of N records of six kinds, from several positions of the queue
template<int N> static void any()
{
    std::vector<std::string> exp;
    {
        mc::quiet(true);
        xtr::logger log(std::make_unique<mem_storage>(&rec, 300), fixed_clock(), xtr::null_command_path);
        xtr::sink s = log.get_sink("A");
        int start = mc::choose(3);
        if (start == 1) { XTR_LOG(s, "{}", mk<2036>(90)); exp.push_back("blob90"); }
        if (start == 2) { XTR_LOG(s, "{}", mk<3900>(91)); exp.push_back("blob91"); }
        s.sync();
        mc::quiet(false);
        for (int i = 0; i < N; ++i) {
            std::string t = pat(i, i % 2 ? 600 : 1500);
            switch (mc::choose(6)) {
            case 0: XTR_LOG(s, "n"); exp.push_back("n"); break;
            case 1: XTR_LOG(s, "{}", i); exp.push_back(std::to_string(i)); break;
            case 2: XTR_LOG(s, "{}", mk<2036>(i)); exp.push_back("blob" + std::to_string(i)); break;
            case 3: XTR_LOG(s, "{}", mk<4076>(i)); exp.push_back("blob" + std::to_string(i)); break;
            case 4: XTR_LOG(s, "{}{}", t, i); exp.push_back(t + std::to_string(i)); break;
            case 5: XTR_LOG(s, "{} {}", t.c_str(), std::string_view(t)); exp.push_back(t + " " + t); break;
            }
        }
    }
    expect_lines({{"A", exp}}, exp.size());
}
}
