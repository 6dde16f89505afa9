// C03: which non-blocking messages are discarded, and how they are counted, at every fill level.
#include "lg.h"
using namespace lg;

static xtr::sink& z() { static xtr::sink* s = new xtr::sink(L().get_sink("z")); return *s; }
struct Op { const char* nm; void (*f)(xtr::sink&, std::string&); bool blocking; bool str; };
static int LN;
#define O(NM, BL, ST, TEXT, CALL) {NM, [](xtr::sink& s, std::string& w) { LN = __LINE__; CALL; w = line('I', "s", "c03.cpp", LN, TEXT); }, BL, ST}
struct B100 { char c[100]; };
template<> struct fmt::formatter<B100> {
    template<class C> constexpr auto parse(C& c) { return c.begin(); }
    template<class C> auto format(const B100& b, C& c) const { for (char x : b.c) if (x != 'k') return fmt::format_to(c.out(), "CORRUPT"); return fmt::format_to(c.out(), "b100"); }
};
static B100 b100() { B100 b; memset(b.c, 'k', sizeof b.c); return b; }
static const std::timespec ts{946688523, 123456789};
static const Op ops[] = {
    O("noarg", false, false, "n", XTR_TRY_LOG(s, "n")),
    O("int", false, false, "7", XTR_TRY_LOG(s, "{}", 7)),
    O("b100", false, false, "b100", XTR_TRY_LOG(s, "{}", b100())),
    O("str", false, true, "str", XTR_TRY_LOG(s, "{}", "str")),
    O("strs", false, true, "0123456789 5 abcdefgh", XTR_TRY_LOG(s, "{} {} {}", std::string_view("0123456789"), 5, "abcdefgh")),
    O("levelled", false, false, "l 1", XTR_TRY_LOGL(info, s, "l {}", 1)),
    O("ts", false, false, "t", XTR_TRY_LOG_TS(s, xtr::timespec(ts), "t")),
    O("moved", false, true, "moved", { std::string m("moved"); XTR_TRY_LOG(s, "{}", std::move(m)); }),
    O("block", true, false, "B", XTR_LOG(s, "B")),
    O("block-int", true, false, "8", XTR_LOG(s, "{}", 8)),
};
constexpr int NOP = sizeof ops / sizeof *ops;
static unsigned base() { static unsigned n = room_after(0, [](xtr::sink&) {}); return n; }
// units an operation's record takes when there is plenty of room
static unsigned size_of(int i) { static unsigned c[NOP]; if (!c[i]) { std::string w; c[i] = base() - room_after(0, [&](xtr::sink& s) { ops[i].f(s, w); }); } return c[i]; }
// the fewest units with which it is accepted (its strings truncated)
static unsigned least(int i)
{
    static unsigned c[NOP]; if (c[i]) return c[i];
    if (!ops[i].str) return c[i] = size_of(i);
    for (unsigned r = 1; r <= size_of(i); ++r) {
        Held h{0}; h.fill(base() - r); std::string w; ops[i].f(h.s, w); h.let_go(); h.s.close(); z().sync(); std::string o = take();
        if (o.find("messages dropped") == std::string::npos) return c[i] = r;
    }
    seq::fail("'%s' is discarded although %u units are free, as many as it takes", ops[i].nm, size_of(i));
}
struct Hist {
    xtr::sink s; unsigned free_ = 0; int id = 0; static inline int next = 1000000; std::vector<std::string> want; unsigned long drops = 0, reported = 0; bool held = false;
    explicit Hist(unsigned filler) : s(L().get_sink("s"))
    {
        static Blk b; unsigned n = filler, per = blk_units();
        while (n >= per) { XTR_LOG(s, "{}", b); n -= per; } while (n--) XTR_LOG(s, "f");
        s.sync(); take();
    }
    void hold(unsigned room)
    {
        s.sync(); id = ++next; XTR_LOG(s, "{}", Stall{id}); want.push_back(line('I', "s", "c03.cpp", __LINE__, "stall")); wait_entered(id); held = true; free_ = base();
        static Blk b; unsigned per = blk_units(), n = room < free_ ? free_ - room : 0; free_ -= n;
        while (n >= per) { XTR_LOG(s, "{}", b); want.push_back(line('I', "s", "c03.cpp", __LINE__, "blk")); n -= per; }
        while (n--) { XTR_LOG(s, "u"); want.push_back(line('I', "s", "c03.cpp", __LINE__, "u")); }
    }
    bool can(int i) const { return !ops[i].blocking || size_of(i) <= free_; }
    void op(int i)
    {
        std::string w; ops[i].f(s, w);
        if (size_of(i) <= free_) { want.push_back(w); free_ -= size_of(i); return; }
        if (!ops[i].str || free_ < least(i)) { ++drops; return; }
        // accepted with at least one string cut: how many units that takes is the record's business, so nothing may follow
        want.push_back(""); free_ = 0; cut = true;
    }
    bool cut = false;
    void let_go() { if (held) { release(id); held = false; s.sync(); check(false); } }
    void check(bool final)
    {
        z().sync(); // whatever was printed before is flushed now
        std::string o = take(); size_t p = 0, k = 0;
        while (p < o.size()) {
            size_t e = o.find('\n', p); if (e == std::string::npos) seq::fail("an incomplete line");
            std::string l = o.substr(p, e + 1 - p); p = e + 1;
            std::string pre = "W " + std::string(TS) + " s: ", suf = " messages dropped\n";
            if (l.rfind(pre, 0) == 0 && l.size() > pre.size() + suf.size() && l.compare(l.size() - suf.size(), suf.size(), suf) == 0) { unsigned long n = strtoul(l.c_str() + pre.size(), nullptr, 10); if (!n) seq::fail("a warning that no messages were dropped"); reported += n; continue; }
            if (k >= want.size()) seq::fail("an unexpected line '%s'", esc(l).c_str());
            const std::string& w = want[k++];
            if (w.empty()) { if (l.find("<truncated>") == std::string::npos) seq::fail("a message with strings that did not fit appears as '%s'", esc(l).c_str()); continue; }
            if (l != w) seq::fail("got '%s', expected '%s'", esc(l).c_str(), esc(w).c_str());
        }
        if (k != want.size()) seq::fail("%zu of %zu messages are missing, the first being '%s'", want.size() - k, want.size(), esc(want[k]).c_str());
        want.clear();
        if (reported > drops || (final && reported != drops)) seq::fail("%lu messages were discarded but %lu reported", drops, reported);
    }
    void end() { release(id); s.close(); check(true); }
    ~Hist() { if (held) release(id); }
};
static unsigned pick_filler() { static const unsigned q[] = {0, 506, 509, 511, 3, 300, 490, 500, 508, 510}; return q[seq::choose(seq::thorough() ? 10 : 2)]; }
// one hold: every fill level near full, every sequence of calls
static void levels()
{
    for (int i = 0; i < NOP; ++i) least(i);
    unsigned f = pick_filler(), room = unsigned(seq::choose(seq::thorough() ? 20 : 9)); int depth = seq::thorough() ? 4 : 3; seq::note("filler%u room%u", f, room);
    Hist h(f); h.hold(room);
    for (int d = 0; d < depth && !h.cut; ++d) { std::vector<int> en; for (int i = 0; i < NOP; ++i) if (h.can(i)) en.push_back(i); int i = en[size_t(seq::choose(int(en.size())))]; seq::note("%s", ops[i].nm); h.op(i); }
    if (seq::flip()) { h.let_go(); h.s.close(); h.check(true); } else h.end();
    seq::outcome(std::to_string(h.drops));
}
// several rounds of discarding on one sink; the queue position moves on between them
static void rounds()
{
    for (int i = 0; i < NOP; ++i) least(i);
    unsigned f = pick_filler(); static const unsigned rooms[] = {0, 1, 2, 1000}; int n = seq::thorough() ? 4 : 3; seq::note("filler%u", f);
    Hist h(f);
    for (int r = 0; r < n; ++r) {
        unsigned room = seq::pick(rooms); int k = seq::choose(4); seq::note("room%u x%d", room, k);
        h.hold(room); for (int j = 0; j < k; ++j) h.op(j % 2); if (room == 1000 && k == 3) for (int j = 0; j < 600; ++j) h.op(0);
        if (r + 1 < n) h.let_go();
    }
    h.end(); seq::outcome(std::to_string(h.drops));
}
// a sink that discarded messages is closed, registered again and used again: nothing is counted twice
static void again()
{
    for (int i = 0; i < NOP; ++i) least(i);
    unsigned f = pick_filler(); int a = seq::choose(4), b = seq::choose(4), how = seq::choose(4); bool go = seq::flip(); seq::note("filler%u %d drops, how%d, %d drops", f, a, how, b);
    Hist h(f); h.hold(0); for (int j = 0; j < a; ++j) h.op(0);
    if (go) h.let_go();
    release(h.id); h.held = false;
    xtr::sink other = L().get_sink("s");
    switch (how) {
    case 0: h.s.close(); h.check(true); L().register_sink(h.s, "s"); break;
    case 1: h.s = other; other.sync(); h.check(true); break;
    case 2: { xtr::sink c(h.s); h.s.close(); h.check(true); h.s = c; break; }
    case 3: break;
    }
    h.hold(0); for (int j = 0; j < b; ++j) h.op(1); h.end();
    other.close(); h.check(true);
    seq::outcome(std::to_string(a) + std::to_string(b) + std::to_string(how));
}
int main(int argc, char** argv)
{
    seq::Options o; o.timeout_s = 60;
    return seq::main_(argc, argv, "C03",
        "with the background thread held up: queue positions x free units near full x all sequences of up to 3 (thorough 4) of ten blocking and non-blocking calls; up to 3 (4) rounds of filling and draining; closing, re-registering, assigning and copying a sink that discarded messages",
        {{"levels", levels}, {"rounds", rounds}, {"again", again}}, {"record sizes are measured from the outside in units of an argument-less record"}, o);
}
