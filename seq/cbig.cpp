// C01, C03, C10 with the default queue capacity (256 KiB): lengths, positions and counts that do not fit in 16 bits.
#include "lg.h"
#include <thread>
using namespace lg;
#ifndef PROP
#define PROP "C01"
#endif
constexpr size_t CAP = XTR_SINK_CAPACITY;
static_assert(CAP >= 262144);
template<size_t N> struct Rec { unsigned char c[N]; };
template<size_t N> struct fmt::formatter<Rec<N>> {
    template<class C> constexpr auto parse(C& c) { return c.begin(); }
    template<class C> auto format(const Rec<N>& b, C& c) const { for (size_t i = 0; i < N; ++i) if (b.c[i] != (unsigned char)(b.c[0] + i * 7 + (i >> 8))) return fmt::format_to(c.out(), "CORRUPT at {} of {}", i, N); return fmt::format_to(c.out(), "rec{}:{}", N, b.c[0]); }
};
template<size_t N> const Rec<N>& mk(int k) { static Rec<N>* r = new Rec<N>; for (size_t i = 0; i < N; ++i) r->c[i] = (unsigned char)(size_t(k) + i * 7 + (i >> 8)); return *r; }
static std::string text(int k, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = char('a' + (size_t(k) + i + (i >> 12)) % 26); return s; }
static xtr::sink& z() { static xtr::sink* s = new xtr::sink(L().get_sink("z")); return *s; }
static void prefill(xtr::sink& s, unsigned n) { static Blk b; unsigned per = blk_units(); while (n >= per) { XTR_LOG(s, "{}", b); n -= per; } while (n--) XTR_LOG(s, "f"); s.sync(); take(); }
// long expected text: show only where it differs
static void same(const std::string& got, const std::string& want, const char* what)
{
    if (got == want) return;
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; size_t b = i > 60 ? i - 60 : 0;
    seq::fail("%s: differs at byte %zu (lengths %zu, %zu): got \"...%s\", expected \"...%s\"", what, i, got.size(), want.size(), esc(got.substr(b, 160)).c_str(), esc(want.substr(b, 160)).c_str());
}
static unsigned pick_pos()
{
    static const unsigned q[] = {0, 8191, 8192, 16383, 32767, 32760, 24000, 1, 4095, 4096, 8190, 16384, 32766, 30000};
    return q[seq::choose(seq::thorough() ? 14 : 5)];
}
static const size_t LEN[] = {0, 255, 256, 4096, 32767, 32768, 65535, 65536, 65537, 131072, 200000, CAP - 64, CAP + 1, CAP - 5000, 1, 127, 128, 257, 4095, 4097, 16383, 16384, 65534, 65528, 65600, 131071, 131073, 262100, 2 * CAP, 2 * CAP - 1};
static int LN;
static void one(xtr::sink& s, int kind, std::string x)
{
    switch (kind) {
    case 0: LN = __LINE__; XTR_LOG(s, "[{}]", x.c_str()); break;
    case 1: LN = __LINE__; XTR_LOG(s, "[{}]", x); break;
    case 2: LN = __LINE__; XTR_LOG(s, "[{}]", std::string_view(x)); break;
    case 3: LN = __LINE__; XTR_LOG(s, "[{}]", std::move(x)); return;
    case 4: LN = __LINE__; XTR_TRY_LOG(s, "[{}]", x.c_str()); break;
    case 5: LN = __LINE__; XTR_TRY_LOG(s, "[{}]", x); break;
    case 6: LN = __LINE__; XTR_TRY_LOG(s, "[{}]", std::string_view(x)); break;
    }
    std::fill(x.begin(), x.end(), '!');
}
static void strings()
{
    unsigned pos = pick_pos(); int kind = seq::choose(7); size_t n = LEN[seq::choose(seq::thorough() ? int(std::size(LEN)) : 14)]; seq::note("pos%u kind%d len%zu", pos, kind, n);
    xtr::sink s = L().get_sink("s"); prefill(s, pos);
    std::string x = text(kind, n); // when sync returns, its own record may not have left the queue yet
    bool fits = n <= CAP - (kind < 4 ? 64 : 4096) || kind == 3, unsure = !fits && n < CAP;
    if (kind < 4) XTR_LOG(s, "before {}", 1); else { XTR_LOG(s, "before {}", 1); s.sync(); }
    int bl = __LINE__ - 1;
    one(s, kind, x); int ml = LN;
    XTR_LOG(s, "after {}", 2); int al = __LINE__;
    s.sync(); std::string o = take(), b = line('I', "s", "cbig.cpp", bl, "before 1"), a = line('I', "s", "cbig.cpp", al, "after 2"), t = b + line('I', "s", "cbig.cpp", ml, "[<truncated>]") + a;
    if (unsure && o == t) return;
    same(o, fits || unsure ? b + line('I', "s", "cbig.cpp", ml, "[" + x + "]") + a : t, "string");
    seq::outcome(std::to_string(n));
}
static void pairs()
{
    static const size_t len[] = {0, 300, 65535, 65536, 131000, 200000, 262000, 1, 40000, 65534, 131072}; int m = seq::thorough() ? 11 : 7;
    unsigned pos = pick_pos(); int kind = seq::choose(4); size_t a = len[seq::choose(m)], b = len[seq::choose(m)]; seq::note("pos%u kind%d len%zu,%zu", pos, kind, a, b);
    xtr::sink s = L().get_sink("s"); prefill(s, pos); std::string x = text(1, a), y = text(9, b), x0 = x, y0 = y;
    switch (kind) {
    case 0: LN = __LINE__; XTR_LOG(s, "{}|{}|{}", x, 7, y); break;
    case 1: LN = __LINE__; XTR_LOG(s, "{}|{}|{}", x.c_str(), 7, y.c_str()); break;
    case 2: LN = __LINE__; XTR_LOG(s, "{}|{}|{}", std::string_view(x), 7, y.c_str()); break;
    case 3: LN = __LINE__; XTR_LOG(s, "{}|{}|{}", x.c_str(), 7, y); break;
    }
    std::fill(x.begin(), x.end(), '!'); std::fill(y.begin(), y.end(), '!');
    int ml = LN; XTR_LOG(s, "after {}", 2); int al = __LINE__; s.sync(); std::string o = take(), T = "<truncated>";
    auto res = [&](const std::string& p, const std::string& q) { return line('I', "s", "cbig.cpp", ml, p + "|7|" + q) + line('I', "s", "cbig.cpp", al, "after 2"); };
    // which of the two is left out if both do not fit together is not stated
    bool fits = a + b <= CAP - 64; if (!fits && a && b && (o == res(x0, T) || o == res(T, y0)) ) { seq::outcome("T"); return; }
    if (a + b > CAP) seq::fail("two strings of %zu and %zu bytes: neither result is right (%zu bytes)", a, b, o.size());
    same(o, res(x0, y0), "two strings");
}
template<size_t N> void rec(xtr::sink& s, int k, std::string& want) { LN = __LINE__; XTR_LOG(s, "{}", mk<N>(k)); want += line('I', "s", "cbig.cpp", LN, fmt::format("rec{}:{}", N, k)); }
static void records()
{
    unsigned pos = pick_pos(); xtr::sink s = L().get_sink("s"); prefill(s, pos); std::string want; seq::note("pos%u", pos);
    for (int i = 0; i < 2; ++i) {
        int k = seq::choose(7); seq::note("%d", k);
        switch (k) { case 0: rec<255>(s, i, want); break; case 1: rec<256>(s, i, want); break; case 2: rec<32768>(s, i, want); break; case 3: rec<65528>(s, i, want); break; case 4: rec<65536>(s, i, want); break; case 5: rec<131072>(s, i, want); break; case 6: rec<CAP - 16>(s, i, want); break; }
    }
    s.sync(); same(take(), want, "records"); seq::outcome(std::to_string(want.size()));
}
// far more than the queue holds, without any synchronisation
static void volume()
{
    int kind = seq::choose(3); bool close = seq::flip(); int n = kind == 0 ? 100000 : kind == 1 ? 70000 : 400; seq::note("kind%d", kind);
    xtr::sink s = L().get_sink("s"); s.sync(); take(); std::string want, t = text(3, 3000);
    for (int i = 0; i < n; ++i) switch (kind) {
        case 0: XTR_LOG(s, "{}", i); want += line('I', "s", "cbig.cpp", __LINE__, std::to_string(i)); break;
        case 1: XTR_LOG(s, "{}", std::string_view(t).substr(size_t(i % 26), 5)); want += line('I', "s", "cbig.cpp", __LINE__, t.substr(size_t(i % 26), 5)); break;
        case 2: XTR_LOG(s, "{} {}", i, t); want += line('I', "s", "cbig.cpp", __LINE__, std::to_string(i) + " " + t); break;
    }
    if (close) { s.close(); z().sync(); } else s.sync();
    same(take(), want, "volume"); seq::outcome(std::to_string(want.size()));
}
// a queue filled completely behind a held-up background thread: what is accepted arrives, the rest is counted
static void full()
{
    unsigned pos = pick_pos(); int kind = seq::choose(3); static const int extra[] = {1, 255, 256, 65535, 65536, 65537, 200000}; int x = seq::pick(extra), rounds = 1 + seq::choose(seq::thorough() ? 2 : 1); seq::note("pos%u kind%d +%d", pos, kind, x);
    static unsigned base = room_after(0, [](xtr::sink&) {});
    static const unsigned u1 = base - room_after(0, [](xtr::sink& s) { XTR_TRY_LOG(s, "{}", 7); }), u2 = base - room_after(0, [](xtr::sink& s) { std::string t(20, 'x'); XTR_TRY_LOG(s, "{}", t); });
    if (base < (CAP - 64) / 8) seq::fail("only %u units fit in a queue of %zu bytes", base, CAP);
    Held h{pos};
    for (int r = 0; r < rounds; ++r) {
        unsigned per = kind == 0 ? 1 : kind == 1 ? u1 : u2; int fit = int(base / per), n = fit + x; std::string str = text(5, 20), o;
        for (int i = 0; i < n; ++i) {
            switch (kind) {
            case 0: XTR_TRY_LOG(h.s, "n"); LN = __LINE__; if (i < fit) h.want += line('I', "s", "cbig.cpp", LN, "n"); break;
            case 1: XTR_TRY_LOG(h.s, "{}", i); LN = __LINE__; if (i < fit) h.want += line('I', "s", "cbig.cpp", LN, std::to_string(i)); break;
            case 2: XTR_TRY_LOG(h.s, "{}", str); LN = __LINE__; if (i < fit) h.want += line('I', "s", "cbig.cpp", LN, str); else if (i == fit && base - unsigned(fit) * per >= u1) { h.want += line('I', "s", "cbig.cpp", LN, "<truncated>"); } break;
            }
        }
        int acc = fit; if (kind == 2 && base - unsigned(fit) * per >= u1) ++acc;
        h.let_go(); h.s.sync(); z().sync(); o = take(); unsigned long drops = 0; size_t p;
        while ((p = o.find(" messages dropped\n")) != std::string::npos) { size_t b = o.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; size_t d = o.rfind(' ', p - 1); drops += strtoul(o.c_str() + d + 1, nullptr, 10); o.erase(b, p + strlen(" messages dropped\n") - b); }
        if (o != h.want) same(o, h.want, "full queue");
        if (drops != (unsigned long)(n - acc)) seq::fail("%d messages discarded, %lu reported", n - acc, drops);
        h.want.clear(); if (r + 1 < rounds) { h.id = ++Held::next; XTR_LOG(h.s, "{}", Stall{h.id}); h.want += line('I', "s", "cbig.cpp", __LINE__, "stall"); wait_entered(h.id); h.held = true; }
    }
    seq::outcome(std::to_string(kind));
}
int main(int argc, char** argv)
{
    seq::Options o; o.timeout_s = 60;
    std::string p = PROP;
    if (p == "C03") return seq::main_(argc, argv, "C03", "the default capacity of 256 KiB: fully filled queues x positions x kinds of records x 1 to 200000 discarded messages", {{"big_full", full}}, {}, o);
    if (p == "C10") return seq::main_(argc, argv, "C10", "the default capacity of 256 KiB: strings and pairs of strings of up to twice the capacity x kinds x queue positions", {{"big_strings", strings}, {"big_pairs", pairs}}, {}, o);
    return seq::main_(argc, argv, "C01", "the default capacity of 256 KiB: records of up to the whole queue, strings of up to the capacity, volumes of several times the capacity without synchronisation", {{"big_records", records}, {"big_strings", strings}, {"big_volume", volume}}, {}, o);
}
