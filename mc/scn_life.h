// Sink and logger life cycle (C05, reused by C02).
#pragma once
#include "harness.h"
#include <map>

namespace life {
static Rec recs[2];
static std::unique_ptr<xtr::logger> mklog(int i)
{
    return std::make_unique<xtr::logger>(std::make_unique<mem_storage>(&recs[i]), fixed_clock(), xtr::null_command_path);
}
static void check_released(int i)
{
    if (!recs[i].destroyed) mc::fail("logger destroyed but its back-end was not released");
    if (recs[i].at_destroy != recs[i].data.size()) mc::fail("back-end used after its release");
    if (recs[i].flushed != recs[i].data.size()) mc::fail("logger destroyed but only %zu of %zu bytes were flushed", recs[i].flushed, recs[i].data.size());
}
struct Exp { int logger; std::string name; int sink; };
static std::map<int, Exp> expect;  // message number -> where it has to appear
static void check_all(int loggers)
{
    size_t seen = 0;
    for (int i = 0; i < loggers; ++i) {
        check_released(i);
        if (!recs[i].data.empty() && recs[i].data.back() != '\n') mc::fail("incomplete last line");
        std::map<int, int> last;
        for (auto& l : split_lines(recs[i].data)) {
            std::string lev, name, msg;
            if (!parse_line(l, lev, name, msg)) mc::fail("unparsable line '%.200s'", l.c_str());
            size_t c = msg.find(": m");
            if (c == std::string::npos) mc::fail("unexpected line '%.200s'", l.c_str());
            int id = atoi(msg.c_str() + c + 3);
            auto it = expect.find(id);
            if (it == expect.end()) mc::fail("message m%d was not logged or is duplicated: '%.100s'", id, l.c_str());
            if (it->second.logger != i) mc::fail("message m%d went to the wrong logger", id);
            if (it->second.name != name) mc::fail("message m%d carries name '%s' instead of '%s'", id, name.c_str(), it->second.name.c_str());
            if (last.count(it->second.sink) && last[it->second.sink] > id) mc::fail("messages of one sink out of order");
            last[it->second.sink] = id;
            expect.erase(it); ++seen;
        }
    }
    if (!expect.empty()) mc::fail("message m%d was lost", expect.begin()->first);
    mc::outcome(std::to_string(seen));
}

// ---- operation sequences against a reference model
struct Model { bool exists = false, open = false; int logger = -1; std::string name; xtr::log_level_t level = xtr::log_level_t::info; int inst = 0; };
template<int DEPTH, int NL, int NS> static void ops()
{
    std::unique_ptr<xtr::logger> L[2];
    std::unique_ptr<xtr::sink> S[NS];
    Model M[NS];
    int msg = 0, inst = 0, names = 0;
    xtr::log_level_t dflt[2] = {xtr::log_level_t::info, xtr::log_level_t::info};
    mc::quiet(true);
    L[0] = mklog(0); if (NL > 1) L[1] = mklog(1);
    // start: sink 0 is open on logger 0
    S[0] = std::make_unique<xtr::sink>(L[0]->get_sink("n0"));
    M[0] = {true, true, 0, "n0", xtr::log_level_t::info, ++inst};
    names = 1;
    mc::quiet(false);
    auto log = [&](int i) {
        if (!M[i].exists || !M[i].open) return;
        int id = ++msg;
        XTR_LOG(*S[i], "m{}", id);
        expect[id] = {M[i].logger, M[i].name, M[i].inst};
        int id2 = ++msg;
        XTR_LOGL(info, *S[i], "m{}", id2);
        if (M[i].level >= xtr::log_level_t::info) expect[id2] = {M[i].logger, M[i].name, M[i].inst};
    };
    std::string trace;
    for (int d = 0; d < DEPTH; ++d) {
        // enabled operations in this state
        struct Op { int k, a, b; };
        std::vector<Op> en;
        bool fresh_used = false;
        for (int i = 0; i < NS; ++i) {
            if (!M[i].exists) {
                if (fresh_used) continue;      // unused slots are interchangeable
                fresh_used = true;
                for (int j = 0; j < NL; ++j) en.push_back({0, i, j}); // get_sink from logger 0/1
                en.push_back({1, i, 0});                          // default construct (closed)
                for (int j = 0; j < NS; ++j) if (M[j].exists) en.push_back({2, i, j}); // copy construct
            } else {
                if (M[i].open) { en.push_back({3, i, 0}); en.push_back({4, i, 0}); } // rename, close
                else for (int j = 0; j < NL; ++j) en.push_back({5, i, j});           // register
                en.push_back({6, i, 0});                                            // destroy
                en.push_back({7, i, 0});                                            // level
                for (int j = 0; j < NS; ++j) if (M[j].exists) en.push_back({8, i, j}); // assign (incl. self)
            }
        }
        Op o = en[size_t(mc::choose(int(en.size())))];
        trace += char('a' + o.k); trace += char('0' + o.a); trace += char('0' + o.b);
        switch (o.k) {
        case 0: { std::string nm = "n" + std::to_string(names++); S[o.a] = std::make_unique<xtr::sink>(L[o.b]->get_sink(nm)); M[o.a] = {true, true, o.b, nm, dflt[o.b], ++inst}; break; }
        case 1: S[o.a] = std::make_unique<xtr::sink>(); M[o.a] = {true, false, -1, "", xtr::log_level_t::info, ++inst}; break;
        case 2: S[o.a] = std::make_unique<xtr::sink>(*S[o.b]); M[o.a] = M[o.b]; M[o.a].inst = ++inst; break;
        case 3: { std::string nm = "n" + std::to_string(names++) + (names % 2 ? "" : "_a_longer_name_than_fits_inline"); S[o.a]->set_name(nm); M[o.a].name = nm; break; }
        case 4: S[o.a]->close(); M[o.a].open = false; break;
        case 5: { std::string nm = "n" + std::to_string(names++); L[o.b]->register_sink(*S[o.a], nm); M[o.a].open = true; M[o.a].logger = o.b; M[o.a].name = nm; M[o.a].inst = ++inst; break; }
        case 6: S[o.a].reset(); M[o.a] = Model{}; break;
        case 7: { auto lv = M[o.a].level == xtr::log_level_t::info ? xtr::log_level_t::error : xtr::log_level_t::info; S[o.a]->set_level(lv); M[o.a].level = lv; break; }
        case 8: *S[o.a] = *S[o.b]; if (o.a != o.b) { M[o.a] = M[o.b]; M[o.a].inst = ++inst; } break;
        }
        for (int i = 0; i < NS; ++i) {
            if (!M[i].exists) continue;
            if (S[i]->is_open() != M[i].open) mc::fail("after %s: sink %d is_open()==%d", trace.c_str(), i, int(S[i]->is_open()));
            if (S[i]->level() != M[i].level) mc::fail("after %s: sink %d has the wrong level", trace.c_str(), i);
            log(i);
        }
    }
    mc::outcome(trace);
    for (int i = 0; i < NS; ++i) S[i].reset();
    L[0].reset(); L[1].reset();
    check_all(NL);
}

static void lg(xtr::sink& s, int id, int logger, const char* name, int sink) { XTR_LOG(s, "m{}", id); expect[id] = {logger, name, sink}; }

// --- the source of a copy is closed right away
static void copy_close()
{
    {
        mc::quiet(true);
        auto L = mklog(0);
        auto a = std::make_unique<xtr::sink>(L->get_sink("A"));
        a->sync();
        mc::quiet(false);
        lg(*a, 1, 0, "A", 1);
        xtr::sink b = *a;
        lg(b, 2, 0, "A", 2);
        lg(*a, 3, 0, "A", 1);
        a.reset();
        lg(b, 4, 0, "A", 2);
    }
    check_all(1);
}
static void rename_()
{
    {
        mc::quiet(true);
        auto L = mklog(0);
        xtr::sink a = L->get_sink("A");
        a.sync();
        mc::quiet(false);
        lg(a, 1, 0, "A", 1);
        a.set_name("a_name_that_does_not_fit_inline");
        lg(a, 2, 0, "a_name_that_does_not_fit_inline", 1);
        xtr::sink b = a;
        a.set_name("C");
        lg(a, 3, 0, "C", 1);
        lg(b, 4, 0, "a_name_that_does_not_fit_inline", 2);
        b.set_name("D");
        lg(b, 5, 0, "D", 2);
    }
    check_all(1);
}
static void reregister()
{
    {
        mc::quiet(true);
        auto L = mklog(0);
        xtr::sink a = L->get_sink("A");
        a.sync();
        mc::quiet(false);
        lg(a, 1, 0, "A", 1);
        a.close();
        if (a.is_open()) mc::fail("closed sink reports open");
        L->register_sink(a, "B");
        lg(a, 2, 0, "B", 1); lg(a, 3, 0, "B", 1);
        a.close(); a.close();
        L->register_sink(a, "C");
        lg(a, 4, 0, "C", 1);
    }
    check_all(1);
}
// --- the logger is destroyed while another thread still owns a sink
static void dtor_waits()
{
    {
        mc::quiet(true);
        auto L = mklog(0);
        auto a = std::make_unique<xtr::sink>(L->get_sink("A"));
        auto b = std::make_unique<xtr::sink>(L->get_sink("B"));
        a->sync();
        expect[1] = {0, "A", 1}; expect[2] = {0, "A", 1}; expect[3] = {0, "B", 2};
        static uint64_t closing; closing = 0;
        mc::quiet(false);
        std::thread t([&] { XTR_LOG(*a, "m1"); XTR_LOG(*a, "m2"); mc::var_store(&closing, 1); a.reset(); });
        XTR_LOG(*b, "m3");
        b.reset();
        L.reset();
        if (!mc::var_load(&closing)) mc::fail("logger destructor returned before every sink was closed");
        check_released(0);
        t.join();
    }
    check_all(1);
}
static void dtor_now()
{
    {
        mc::quiet(true);
        auto L = mklog(0);
        mc::quiet(false);
        xtr::sink a = L->get_sink("A");
        lg(a, 1, 0, "A", 1);
        xtr::sink b = L->get_sink("B");
        lg(b, 2, 0, "B", 2);
        b.close(); a.close();
        L.reset();
        check_released(0);
    }
    check_all(1);
}
// --- sinks on the heap: memory is reused as soon as the destructor returns
static void heap_sinks()
{
    {
        mc::quiet(true);
        auto L = mklog(0);
        xtr::sink keep = L->get_sink("K");
        keep.sync();
        mc::quiet(false);
        for (int i = 0; i < 3; ++i) {
            auto s = std::make_unique<xtr::sink>(L->get_sink("H" + std::to_string(i)));
            XTR_LOG(*s, "m{}", i + 1); expect[i + 1] = {0, "H" + std::to_string(i), i};
            s.reset();
            lg(keep, 10 + i, 0, "K", 99);
        }
    }
    check_all(1);
}
// --- every order of closing four sinks, with a message on each of the rest after every close
static void close_order()
{
    {
        mc::quiet(true);
        auto L = mklog(0);
        std::vector<std::unique_ptr<xtr::sink>> v; std::vector<int> id;
        for (int i = 0; i < 4; ++i) { v.push_back(std::make_unique<xtr::sink>(L->get_sink("S" + std::to_string(i)))); id.push_back(i); }
        v[0]->sync();
        mc::quiet(false);
        int m = 0;
        std::string o;
        while (!v.empty()) {
            for (size_t i = 0; i < v.size(); ++i) { ++m; XTR_LOG(*v[i], "m{}", m); expect[m] = {0, "S" + std::to_string(id[i]), id[i]}; }
            size_t k = size_t(mc::choose(int(v.size())));
            o += char('0' + id[k]);
            v.erase(v.begin() + long(k)); id.erase(id.begin() + long(k));
        }
        mc::outcome(o);
    }
    check_all(1);
}
// --- a sink moves from one logger to another while both run
static void two_loggers()
{
    {
        mc::quiet(true);
        auto L0 = mklog(0), L1 = mklog(1);
        xtr::sink a = L0->get_sink("A"), b = L1->get_sink("B");
        a.sync(); b.sync();
        mc::quiet(false);
        lg(a, 1, 0, "A", 1); lg(b, 2, 1, "B", 2);
        a = b;
        lg(a, 3, 1, "B", 3); lg(b, 4, 1, "B", 2);
        b.close();
        L0->register_sink(b, "C");
        lg(b, 5, 0, "C", 4);
    }
    check_all(2);
}
}
