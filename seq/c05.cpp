// C05: life-cycle histories with a volume of messages that takes the queues round several times.
#include "lg.h"
#include <map>
#include <memory>
using namespace lg;

static Out outs[2];
struct Mem2 : xtr::storage_interface {
    int i; char b[700]; explicit Mem2(int k) : i(k) {}
    std::span<char> allocate_buffer() override { return {b, sizeof b}; }
    void submit_buffer(char* p, std::size_t n) override { std::scoped_lock l(outs[i].m); outs[i].data.append(p, n); }
    void flush() override {}
    void sync() noexcept override {}
    int reopen() noexcept override { return 0; }
};
static std::unique_ptr<xtr::logger> mk(int i) { return std::make_unique<xtr::logger>(std::make_unique<Mem2>(i), Clock(), xtr::null_command_path); }
struct Exp { int logger; std::string name; int inst; };
struct Model { bool exists = false, open = false; int logger = -1; std::string name; int inst = 0; };
static constexpr int NS = 2;
struct World {
    std::unique_ptr<xtr::logger> L[2]; std::unique_ptr<xtr::sink> S[NS]; Model M[NS];
    std::map<long, Exp> expect; long msg = 0; int inst = 0, names = 0; std::map<std::string, long> tried, accepted;
    static inline int hold_id = 0;
    World() { for (int i = 0; i < 2; ++i) { outs[i].data.clear(); L[i] = mk(i); } }
    void note(int i) { expect[msg] = {M[i].logger, M[i].name, M[i].inst}; }
    void small(int i) { ++msg; XTR_LOG(*S[i], "m{}", msg); note(i); }
    void vol(int i, int n) { static Blk b; while (n--) { ++msg; XTR_LOG(*S[i], "m{} {}", msg, b); note(i); } }
    void check()
    {
        std::map<std::string, long> reported;
        for (int i = 0; i < 2; ++i) {
            std::string o; { std::scoped_lock l(outs[i].m); o.swap(outs[i].data); }
            std::map<int, long> last; size_t p = 0;
            while (p < o.size()) {
                size_t e = o.find('\n', p); if (e == std::string::npos) seq::fail("an incomplete line");
                std::string l = o.substr(p, e - p); p = e + 1;
                // "I <date> <time> <name> c05.cpp:<line>: m<id>..." or a drop warning
                size_t c = l.find(" c05.cpp:");
                if (c == std::string::npos) {
                    size_t q = l.find(": "), r = l.find(" messages dropped"); if (l.compare(0, 2, "W ") || q == std::string::npos || r == std::string::npos) seq::fail("an unexpected line '%s'", esc(l).c_str());
                    reported[std::to_string(i) + l.substr(29, q - 29)] += atol(l.c_str() + q + 2); continue;
                }
                if (l.compare(0, 29, std::string("I ") + TS + " ")) seq::fail("an unexpected line '%s'", esc(l).c_str());
                std::string name = l.substr(29, c - 29); size_t m = l.find(": m", c);
                if (m == std::string::npos) { if (l.find(": stall") != std::string::npos) continue; if (l.find(": q") != std::string::npos) { accepted[std::to_string(i) + name]++; continue; } seq::fail("an unexpected line '%s'", esc(l).c_str()); }
                long id = atol(l.c_str() + m + 3); auto it = expect.find(id);
                if (it == expect.end()) seq::fail("message m%ld was not logged or appears twice", id);
                if (it->second.logger != i) seq::fail("message m%ld went to the wrong logger", id);
                if (it->second.name != name) seq::fail("message m%ld carries the name '%s' instead of '%s'", id, esc(name).c_str(), it->second.name.c_str());
                if (last[it->second.inst] > id) seq::fail("messages of one sink out of order"); last[it->second.inst] = id;
                expect.erase(it);
            }
        }
        if (!expect.empty()) seq::fail("message m%ld was lost", expect.begin()->first);
        for (auto& [k, n] : tried) if (reported[k] + accepted[k] != n) seq::fail("sink '%s': of %ld non-blocking messages %ld appear and %ld are reported as dropped", k.c_str(), n, accepted[k], reported[k]);
        for (auto& [k, n] : reported) if (n && !tried.count(k)) seq::fail("sink '%s' reports %ld dropped messages, there were none", k.c_str(), n);
    }
    // with its logger held up the sink takes exactly as many messages as a new one
    void as_new(int i)
    {
        static long fresh = 0; long n = fill(i);
        if (!fresh) { xtr::sink f = L[0]->get_sink("fresh"); fresh = measure(f, 0, "fresh"); }
        if (n != fresh) seq::fail("a sink in use again takes %ld messages while the background thread is held up, a new one takes %ld", n, fresh);
    }
    long fill(int i) { return measure(*S[i], M[i].logger, M[i].name); }
    long measure(xtr::sink& s, int lg, const std::string& nm)
    {
        s.sync(); int id = ++hold_id; XTR_LOG(s, "{}", Stall{id}); wait_entered(id);
        long cap = long(s.capacity()) / 8 + 4; for (long k = 0; k < cap; ++k) XTR_TRY_LOG(s, "q");
        release(id); s.sync();
        std::string key = std::to_string(lg) + nm; tried[key] += cap;
        std::scoped_lock l(outs[lg].m); return count_name(outs[lg].data, nm);
    }
    static long count_name(const std::string& o, const std::string& nm) { long n = 0; std::string a = " " + nm + " c05.cpp:"; size_t p = 0; while ((p = o.find(a, p)) != std::string::npos) { size_t e = o.find('\n', p); if (o.compare(e - 3, 3, ": q") == 0) ++n; p = e; } return n; }
};
static void ops()
{
    int depth = seq::thorough() ? 4 : 3; World w;
    w.S[0] = std::make_unique<xtr::sink>(w.L[0]->get_sink("n0")); w.M[0] = {true, true, 0, "n0", ++w.inst}; w.names = 1;
    { static const int pre[] = {0, 5, 11}; int k = seq::pick(pre); seq::note("pre%d", k); w.vol(0, k); }
    for (int d = 0; d < depth; ++d) {
        struct Op { int k, a, b; }; std::vector<Op> en;
        for (int i = 0; i < NS; ++i) {
            auto& m = w.M[i];
            if (!m.exists) { en.push_back({0, i, 1}); for (int j = 0; j < NS; ++j) if (w.M[j].exists) en.push_back({1, i, j}); continue; }
            if (m.open) { en.push_back({2, i, 0}); en.push_back({3, i, 5}); en.push_back({3, i, 13}); en.push_back({9, i, 0}); } else for (int j = 0; j < 2; ++j) en.push_back({4, i, j});
            en.push_back({5, i, 0});
            for (int j = 0; j < NS; ++j) if (w.M[j].exists && j != i) en.push_back({6, i, j});
        }
        Op o = en[size_t(seq::choose(int(en.size())))]; auto& m = w.M[o.a]; auto& s = w.S[o.a];
        seq::note("%d.%d.%d", o.k, o.a, o.b);
        switch (o.k) {
        case 0: { std::string nm = "n" + std::to_string(w.names++); s = std::make_unique<xtr::sink>(w.L[o.b]->get_sink(nm)); m = {true, true, o.b, nm, ++w.inst}; break; }
        case 1: s = std::make_unique<xtr::sink>(*w.S[o.b]); m = w.M[o.b]; m.inst = ++w.inst; if (m.open) { std::string nm = "n" + std::to_string(w.names++); s->set_name(nm); m.name = nm; } break;
        case 2: s->close(); m.open = false; break;
        case 3: w.vol(o.a, o.b); break;
        case 4: { std::string nm = "n" + std::to_string(w.names++); w.L[o.b]->register_sink(*s, nm); m.open = true; m.logger = o.b; m.name = nm; m.inst = ++w.inst; break; }
        case 5: s.reset(); m = Model{}; break;
        case 6: *s = *w.S[o.b]; m = w.M[o.b]; m.inst = ++w.inst; if (m.open) { std::string nm = "n" + std::to_string(w.names++); s->set_name(nm); m.name = nm; } break;
        case 9: { std::string nm = "n" + std::to_string(w.names++); s->set_name(nm); m.name = nm; break; }
        }
        for (int i = 0; i < NS; ++i) if (w.M[i].exists && w.M[i].open) w.small(i);
    }
    for (int i = 0; i < NS; ++i) if (w.M[i].exists && w.M[i].open) { w.as_new(i); w.small(i); w.vol(i, 9); }
    for (auto& s : w.S) s.reset();
    for (auto& l : w.L) l.reset();
    w.check(); seq::outcome(std::to_string(w.msg));
}
// names: every sequence of obtaining, renaming, copying, assigning and registering with unusual names
static void names()
{
    static const std::string nm[] = {"", "n", "{} %s", std::string(300, 'x')};
    constexpr int NN = 4; int depth = seq::thorough() ? 4 : 3; int n0 = seq::choose(NN); seq::note("get%d", n0);
    outs[0].data.clear(); auto L = mk(0); std::unique_ptr<xtr::sink> s[2]; int name[2] = {n0, -1}; // -1: none, -2: closed
    s[0] = std::make_unique<xtr::sink>(L->get_sink(nm[n0])); int id = 0;
    auto logs = [&] {
        for (int i = 0; i < 2; ++i) if (name[i] >= 0) {
            ++id; int ln; XTR_LOG(*s[i], "m{}", id); ln = __LINE__; s[i]->sync(); std::string o; { std::scoped_lock l(outs[0].m); o.swap(outs[0].data); }
            expect(o, line('I', nm[name[i]], "c05.cpp", ln, "m" + std::to_string(id)), "message");
        }
    };
    logs();
    for (int d = 0; d < depth; ++d) {
        int i = seq::choose(2), op = seq::choose(NN + 2), j = 1 - i;
        if (op < NN) {
            seq::note("%d=%d", i, op);
            if (name[i] >= 0) s[i]->set_name(nm[op]);
            else if (name[i] == -1) s[i] = std::make_unique<xtr::sink>(L->get_sink(nm[op]));
            else L->register_sink(*s[i], nm[op]);
            name[i] = op;
        } else if (op == NN) {
            if (name[j] == -1) return;
            seq::note("%d<-%d", i, j);
            if (name[i] == -1) s[i] = std::make_unique<xtr::sink>(*s[j]); else *s[i] = *s[j];
            name[i] = name[j];
        } else { if (name[i] < 0) return; seq::note("close%d", i); s[i]->close(); name[i] = -2; }
        if (d + 1 == depth || seq::flip()) logs();
    }
    { std::scoped_lock l(outs[0].m); if (!outs[0].data.empty()) seq::fail("unexpected output \"%s\"", esc(outs[0].data).c_str()); }
    for (auto& x : s) x.reset(); L.reset(); seq::outcome(std::to_string(id));
}
int main(int argc, char** argv)
{
    seq::Options o; o.timeout_s = 60;
    return seq::main_(argc, argv, "C05",
        "all histories of 3 (thorough 4) operations (obtain, copy, assign, close, register, destroy, rename, log more than a queue-full) over two loggers and two sinks after three amounts of earlier traffic; every sink still open then has to take exactly as many messages as a new one while the background thread is held up; all sequences of 3 (4) obtain/rename/register/copy/assign/close operations with empty, short, brace-bearing and long names",
        {{"volume", ops}, {"names", names}}, {}, o);
}
