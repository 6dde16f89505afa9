// C01: every sequence of records at every position of the queue is delivered once, in order, unmodified.
#include "lg.h"
#include <thread>
using namespace lg;
template<size_t N> struct Rec { unsigned char c[N]; };
template<size_t N> struct fmt::formatter<Rec<N>> {
    template<class C> constexpr auto parse(C& c) { return c.begin(); }
    template<class C> auto format(const Rec<N>& b, C& c) const { for (size_t i = 0; i < N; ++i) if (b.c[i] != (unsigned char)(b.c[0] + i * 7)) return fmt::format_to(c.out(), "CORRUPT at {} of {}", i, N); return fmt::format_to(c.out(), "rec{}:{}", N, b.c[0]); }
};
template<size_t N> Rec<N> mk(int k) { Rec<N> r; for (size_t i = 0; i < N; ++i) r.c[i] = (unsigned char)(size_t(k) + i * 7); return r; }
static std::string text(int k, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += char('a' + (size_t(k) + i) % 26); return s; }
static int LN;
static std::string body;
#define B(...) (LN = __LINE__, body = fmt::format(__VA_ARGS__))
constexpr int NK = 16;
static void post(xtr::sink& s, int kind, int k)
{
    static const std::timespec ts{946688523, 123456789};
    switch (kind) {
    case 0: B("none"); XTR_LOG(s, "none"); break;
    case 1: B("{}", k); XTR_LOG(s, "{}", k); break;
    case 2: B("{} {}", k, 2.5); XTR_LOG(s, "{} {}", k, 2.5); break;
    case 3: B("rec100:{}", k); XTR_LOG(s, "{}", mk<100>(k)); break;
    case 4: B("rec2036:{}", k); XTR_LOG(s, "{}", mk<2036>(k)); break;
    case 5: B("rec4088:{}", k); XTR_LOG(s, "{}", mk<4088>(k)); break; // the whole queue
    case 6: { std::string t = text(k, 3); B("{}", t); XTR_LOG(s, "{}", t); t.assign(3, '!'); break; }
    case 7: { std::string t = text(k, 700); B("{} {}", k, t); XTR_LOG(s, "{} {}", k, t.c_str()); t.assign(700, '!'); break; }
    case 8: { std::string t = text(k, 1300), u = text(k + 3, 0); B("{}|{}|{}", t, u, text(k, 9)); XTR_LOG(s, "{}|{}|{}", std::string_view(t), u, text(k, 9)); t.assign(1300, '!'); break; }
    case 9: { std::string t = text(k, 4000); B("{}", t); XTR_LOG(s, "{}", t); t.assign(4000, '!'); break; }
    case 10: { std::string t = text(k, 60); B("{}", t); XTR_LOG(s, "{}", std::move(t)); break; }
    case 11: B("ts {}", k); XTR_LOG_TS(s, xtr::timespec(ts), "ts {}", k); break;
    case 12: B("l {}", k); XTR_LOGL(info, s, "l {}", k); break;
    case 13: B("rec1:{}", k); XTR_LOG(s, "{}", mk<1>(k)); break;
    case 14: B("rec9:{}", k); XTR_LOG(s, "{}", mk<9>(k)); break;
    case 15: B("rec4080:{}", k); XTR_LOG(s, "{}", mk<4080>(k)); break;
    }
}
static xtr::sink& z() { static xtr::sink* s = new xtr::sink(L().get_sink("z")); return *s; }
static void prefill(xtr::sink& s, unsigned n) { static Blk b; unsigned per = blk_units(); while (n >= per) { XTR_LOG(s, "{}", b); n -= per; } while (n--) XTR_LOG(s, "f"); s.sync(); take(); }
static unsigned pick_pos(bool wide) { static const unsigned q[] = {0, 511, 510, 256, 509, 507, 500, 1, 400, 488, 300, 505, 508, 255, 257, 100}; return q[seq::choose(wide ? 16 : 3)]; }
// the background thread runs freely: a full queue makes the call wait
static void free_running()
{
    unsigned pos = pick_pos(seq::thorough()); int n = seq::thorough() ? 4 : 3; bool close = seq::flip(); seq::note("pos%u", pos);
    xtr::sink s = L().get_sink("s"); prefill(s, pos); std::string want;
    for (int i = 0; i < n; ++i) { int k = seq::choose(NK); seq::note("%d", k); post(s, k, 11 * i + 1); want += line('I', "s", "c01.cpp", LN, body); }
    if (close) { s.close(); z().sync(); } else s.sync();
    expect(take(), want, "free running"); seq::outcome(std::to_string(want.size()));
}
// every position of the queue
static void positions()
{
    unsigned pos = unsigned(seq::choose(512)); int a = seq::choose(NK); int b = seq::thorough() ? seq::choose(NK) : (a * 5 + int(pos)) % NK; seq::note("pos%u %d %d", pos, a, b);
    xtr::sink s = L().get_sink("s"); prefill(s, pos); std::string want;
    for (int i = 0; i < 3; ++i) { post(s, i == 1 ? b : a, 11 * i + 1); want += line('I', "s", "c01.cpp", LN, body); }
    s.sync(); expect(take(), want, "positions"); seq::outcome(std::to_string(want.size()));
}
// messages pile up behind a held-up background thread, which then processes them in one batch that wraps
static void batches()
{
    static const unsigned fill[] = {0, 400, 490, 500, 505, 508, 510}; unsigned pos = pick_pos(seq::thorough()); int n = 3; seq::note("pos%u", pos);
    static unsigned base = room_after(0, [](xtr::sink&) {}); unsigned fl = seq::pick(fill);
    Held h{pos};
    h.fill(std::min(fl, base)); seq::note("fill%u", fl);
    static const int small[] = {0, 1, 2, 3, 6, 13, 14, 7};
    for (int i = 0; i < n; ++i) { int k = seq::pick(small); seq::note("%d", k); if (fl > 300 || i == 2) h.let_go(); post(h.s, k, 11 * i + 1); h.want += line('I', "s", "c01.cpp", LN, body); }
    h.let_go(); h.s.sync(); expect(take(), h.want, "batch"); seq::outcome(std::to_string(h.want.size()));
}
// three sinks take turns: no line is split or mixed, each sink's order is kept
static void sinks()
{
    int n = seq::thorough() ? 6 : 4; xtr::sink s[3] = {L().get_sink("s0"), L().get_sink("s1"), L().get_sink("s2")}; std::vector<std::string> w[3];
    for (auto& x : s) x.sync(); take();
    static const int kinds[] = {1, 4, 7};
    for (int i = 0; i < n; ++i) { int j = seq::choose(3), k = seq::pick(kinds); seq::note("%d:%d", j, k); post(s[j], k, i); w[j].push_back(line('I', "s" + std::to_string(j), "c01.cpp", LN, body)); }
    for (auto& x : s) x.sync();
    std::string o = take(); size_t p = 0, at[3] = {0, 0, 0};
    while (p < o.size()) {
        size_t e = o.find('\n', p); if (e == std::string::npos) seq::fail("an incomplete line"); std::string l = o.substr(p, e + 1 - p); p = e + 1;
        bool ok = false; for (int j = 0; j < 3 && !ok; ++j) if (at[j] < w[j].size() && l == w[j][at[j]]) { ++at[j]; ok = true; }
        if (!ok) seq::fail("unexpected line '%s'", esc(l).c_str());
    }
    for (int j = 0; j < 3; ++j) if (at[j] != w[j].size()) seq::fail("a message of sink %d is missing: '%s'", j, esc(w[j][at[j]]).c_str());
}
// one sink is never idle: what happens on the others still completes
static void busy()
{
    static const char* const ops[] = {"log", "sync", "close", "fill", "new sink", "copy", "style", "rename", "register"}; int op = seq::choose(9), before = seq::choose(3), after = seq::choose(2); bool first = seq::flip(); seq::note("%s, %d+%d idle sinks%s", ops[op], before, after, first ? ", older" : "");
    std::atomic<bool> done{false}; std::string want; take();
    {
        xtr::logger lg(std::make_unique<Mem>(), Clock(), xtr::null_command_path); std::vector<std::unique_ptr<xtr::sink>> idle; for (int i = 0; i < before; ++i) idle.emplace_back(new xtr::sink(lg.get_sink("idle")));
        std::unique_ptr<xtr::sink> b; if (first) { b.reset(new xtr::sink(lg.get_sink("b"))); b->sync(); }
        Busy busy(lg); if (!first) { b.reset(new xtr::sink(lg.get_sink("b"))); } for (int i = 0; i < after; ++i) idle.emplace_back(new xtr::sink(lg.get_sink("idle")));
        std::thread t([&] {
            xtr::sink& s = *b; int n = 1; std::string nm = "b";
            switch (op) {
            case 1: s.sync(); break;
            case 2: s.close(); done = true; return;
            case 3: n = 9; break;
            case 4: { xtr::sink x = lg.get_sink("x"); XTR_LOG(x, "x"); x.sync(); break; }
            case 5: { xtr::sink x(s); XTR_LOG(x, "x"); x.sync(); break; }
            case 6: lg.set_log_level_style(xtr::default_log_level_style); break;
            case 7: s.set_name(nm = "other"); break;
            case 8: s.close(); lg.register_sink(s, nm = "again"); break;
            }
            for (int i = 0; i < n; ++i) post(s, 4, i);
            std::string last = " " + nm + " c01.cpp:" + std::to_string(LN) + ": " + body + "\n";
            while (!done) { { std::scoped_lock l(out().m); if (out().data.find(last) != std::string::npos) done = true; } sched_yield(); if (seq::now_ms() < 0) break; }
        });
        bool ok = busy.until([&] { return done.load(); });
        if (!ok) seq::fail("%s on a sink does not complete as long as another sink has messages", ops[op]);
        t.join(); release(busy.id); idle.clear();
    }
    seq::outcome(std::to_string(op));
}
int main(int argc, char** argv)
{
    seq::Options o; o.timeout_s = 60;
    return seq::main_(argc, argv, "C01",
        "sequences of 3 (thorough 4) of 16 kinds of records x queue positions, every queue position x record kinds, batches that pile up behind a held-up background thread, three sinks taking turns, a sink that is never idle next to operations on others",
        {{"free_running", free_running}, {"positions", positions}, {"batches", batches}, {"sinks", sinks}, {"busy", busy}}, {}, o);
}
