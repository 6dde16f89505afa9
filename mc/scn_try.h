// Non-blocking logging scenarios (C03, reused by C02).
#pragma once
#include "harness.h"
#include <map>

namespace trylog {

// Splits the output into messages per sink and dropped totals per sink.
struct Out {
    std::map<std::string, std::vector<std::string>> msgs;
    std::map<std::string, unsigned long> dropped;
    std::map<std::string, int> warnings;
};
inline Out collect(const std::string& data)
{
    Out o;
    if (!data.empty() && data.back() != '\n') mc::fail("output does not end with a complete line");
    for (auto& l : split_lines(data)) {
        std::string lev, name, msg;
        if (!parse_line(l, lev, name, msg)) mc::fail("unparsable line '%.200s'", l.c_str());
        size_t p = msg.find(" messages dropped");
        if (!name.empty() && name.back() == ':' && p != std::string::npos && p + 17 == msg.size()) {
            unsigned long n = strtoul(msg.c_str(), nullptr, 10);
            if (n == 0 || std::to_string(n) != msg.substr(0, p)) mc::fail("bad drop warning '%.200s'", l.c_str());
            o.dropped[name.substr(0, name.size() - 1)] += n;
            o.warnings[name.substr(0, name.size() - 1)]++;
            continue;
        }
        size_t c = msg.find(": ");
        if (c == std::string::npos) mc::fail("unexpected line '%.200s'", l.c_str());
        o.msgs[name].push_back(msg.substr(c + 2));
    }
    return o;
}
// sent: messages in call order; must: blocking ones. Checks that the delivered
// ones are an in-order subset containing all blocking ones, and that the drop
// warnings account for exactly the rest.
struct Sent { std::string text; bool blocking; };
inline void judge(const Out& o, const std::string& name, const std::vector<Sent>& sent)
{
    auto it = o.msgs.find(name);
    static const std::vector<std::string> none;
    const auto& got = it == o.msgs.end() ? none : it->second;
    size_t g = 0; unsigned long lost = 0;
    for (auto& s : sent) {
        if (g < got.size() && got[g] == s.text) { ++g; continue; }
        if (s.blocking) mc::fail("sink %s: blocking message '%.80s' lost or out of order", name.c_str(), s.text.c_str());
        ++lost;
    }
    if (g != got.size()) mc::fail("sink %s: unexpected, duplicated or corrupted message '%.80s'", name.c_str(), got[g].c_str());
    auto d = o.dropped.find(name);
    unsigned long rep = d == o.dropped.end() ? 0 : d->second;
    if (rep != lost) mc::fail("sink %s: %lu messages were discarded but the warnings report %lu", name.c_str(), lost, rep);
    auto w = o.warnings.find(name);
    mc::outcome(name + ":" + std::to_string(lost) + "/" + std::to_string(w == o.warnings.end() ? 0 : w->second));
}

#define TRY_BEGIN mc::forbid_blocking("a non-blocking log call")
#define TRY_END mc::forbid_blocking(nullptr)

// --- drops racing with the drain, then close
static void drop_close()
{
    std::vector<Sent> sent;
    {
        mc::quiet(true);
        xtr::logger log(std::make_unique<mem_storage>(&rec), fixed_clock(), xtr::null_command_path);
        xtr::sink s = log.get_sink("A");
        s.sync();
        mc::quiet(false);
        for (int i = 0; i < 4; ++i) {
            auto b = mk<1900>(i);
            TRY_BEGIN; XTR_TRY_LOG(s, "{}", b); TRY_END;
            sent.push_back({"blob" + std::to_string(i), false});
        }
    }
    judge(collect(rec.data), "A", sent);
}
// --- drops, then a blocking message, then more, then sync: everything reported by the end
static void drop_mixed()
{
    std::vector<Sent> sent;
    {
        mc::quiet(true);
        xtr::logger log(std::make_unique<mem_storage>(&rec), fixed_clock(), xtr::null_command_path);
        xtr::sink s = log.get_sink("A");
        s.sync();
        mc::quiet(false);
        for (int i = 0; i < 3; ++i) {
            auto b = mk<1900>(i);
            TRY_BEGIN; XTR_TRY_LOG(s, "{}", b); TRY_END;
            sent.push_back({"blob" + std::to_string(i), false});
        }
        XTR_LOG(s, "{}", mk<1000>(7)); sent.push_back({"blob7", true});
        auto b = mk<3000>(8);
        TRY_BEGIN; XTR_TRY_LOG(s, "{}", b); TRY_END; sent.push_back({"blob8", false});
        TRY_BEGIN; XTR_TRY_LOG(s, "noarg"); TRY_END; sent.push_back({"noarg", false});
    }
    judge(collect(rec.data), "A", sent);
}
// --- the three record kinds when there is hardly any room
static void kinds()
{
    std::vector<Sent> sent;
    {
        mc::quiet(true);
        xtr::logger log(std::make_unique<mem_storage>(&rec), fixed_clock(), xtr::null_command_path);
        xtr::sink s = log.get_sink("A");
        s.sync();
        mc::quiet(false);
        auto b = mk<4076>(0); // record of 4088 bytes: eight bytes left
        XTR_LOG(s, "{}", b); sent.push_back({"blob0", true});
        TRY_BEGIN; XTR_TRY_LOG(s, "{}", 42); TRY_END; sent.push_back({"42", false});
        TRY_BEGIN; XTR_TRY_LOG(s, "{}", "str"); TRY_END; sent.push_back({"str", false});
        TRY_BEGIN; XTR_TRY_LOG(s, "none"); TRY_END; sent.push_back({"none", false});
        TRY_BEGIN; XTR_TRY_LOG(s, "none2"); TRY_END; sent.push_back({"none2", false});
    }
    // the string record may also be enqueued with its string truncated
    auto o = collect(rec.data);
    for (auto& m : o.msgs["A"]) if (m == "<truncated>") m = "str";
    judge(o, "A", sent);
}
// --- two sinks dropping at once: warnings carry the right name and count
static void two_sinks()
{
    std::vector<Sent> sa, sb;
    {
        mc::quiet(true);
        xtr::logger log(std::make_unique<mem_storage>(&rec), fixed_clock(), xtr::null_command_path);
        xtr::sink a = log.get_sink("A"), b = log.get_sink("B");
        a.sync();
        mc::quiet(false);
        std::thread t([&] {
            for (int i = 10; i < 13; ++i) { auto x = mk<2500>(i); TRY_BEGIN; XTR_TRY_LOG(b, "{}", x); TRY_END; sb.push_back({"blob" + std::to_string(i), false}); }
            b.close();
        });
        for (int i = 0; i < 2; ++i) { auto x = mk<2500>(i); TRY_BEGIN; XTR_TRY_LOG(a, "{}", x); TRY_END; sa.push_back({"blob" + std::to_string(i), false}); }
        a.close();
        t.join();
    }
    auto o = collect(rec.data);
    judge(o, "A", sa); judge(o, "B", sb);
}
// --- an idle logger accepts anything that fits the whole queue
static void idle_accepts()
{
    {
        mc::quiet(true);
        xtr::logger log(std::make_unique<mem_storage>(&rec), fixed_clock(), xtr::null_command_path);
        xtr::sink s = log.get_sink("A");
        s.sync();
        mc::quiet(false);
        XTR_LOG(s, "{}", mk<1900>(0));
        XTR_LOG(s, "{}", mk<1900>(1));
        mc::wait_quiescent();
        auto x = mk<2500>(2);
        TRY_BEGIN; XTR_TRY_LOG(s, "{}", x); TRY_END;
        mc::wait_quiescent();
        auto y = mk<4084>(3);
        TRY_BEGIN; XTR_TRY_LOG(s, "{}", y); TRY_END;
    }
    judge(collect(rec.data), "A", {{"blob0", true}, {"blob1", true}, {"blob2", true}, {"blob3", true}});
}
// --- drops around a close and a re-registration under another name
static void drop_reregister()
{
    std::vector<Sent> s1, s2;
    {
        mc::quiet(true);
        xtr::logger log(std::make_unique<mem_storage>(&rec), fixed_clock(), xtr::null_command_path);
        xtr::sink s = log.get_sink("A");
        s.sync();
        mc::quiet(false);
        for (int i = 0; i < 2; ++i) { auto b = mk<2500>(i); TRY_BEGIN; XTR_TRY_LOG(s, "{}", b); TRY_END; s1.push_back({"blob" + std::to_string(i), false}); }
        s.close();
        log.register_sink(s, "B");
        for (int i = 5; i < 7; ++i) { auto b = mk<2500>(i); TRY_BEGIN; XTR_TRY_LOG(s, "{}", b); TRY_END; s2.push_back({"blob" + std::to_string(i), false}); }
    }
    auto o = collect(rec.data);
    judge(o, "A", s1); judge(o, "B", s2);
}
}
