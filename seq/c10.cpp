// C10: string arguments: complete if they fit, the truncation marker otherwise.
#include "lg.h"
#include <map>
#include <tuple>
using namespace lg;

static int g_line;
template<bool Try, class A> void emit(xtr::sink& s, std::integral_constant<int, 0>, A&& a) { g_line = __LINE__; if constexpr (Try) XTR_TRY_LOG(s, "[{}]", std::forward<A>(a)); else XTR_LOG(s, "[{}]", std::forward<A>(a)); }
template<bool Try, class A> void emit(xtr::sink& s, std::integral_constant<int, 1>, A&& a) { g_line = __LINE__; if constexpr (Try) XTR_TRY_LOG(s, "{}[{}]", 42, std::forward<A>(a)); else XTR_LOG(s, "{}[{}]", 42, std::forward<A>(a)); }
template<bool Try, class A> void emit(xtr::sink& s, std::integral_constant<int, 2>, A&& a) { g_line = __LINE__; if constexpr (Try) XTR_TRY_LOG(s, "[{}]{}{}", std::forward<A>(a), 2.5, 'c'); else XTR_LOG(s, "[{}]{}{}", std::forward<A>(a), 2.5, 'c'); }
template<bool Try, class A, class B> void emit(xtr::sink& s, std::integral_constant<int, 3>, A&& a, B&& b) { g_line = __LINE__; if constexpr (Try) XTR_TRY_LOG(s, "[{}][{}]", std::forward<A>(a), std::forward<B>(b)); else XTR_LOG(s, "[{}][{}]", std::forward<A>(a), std::forward<B>(b)); }
template<bool Try, class A, class B> void emit(xtr::sink& s, std::integral_constant<int, 4>, A&& a, B&& b) { g_line = __LINE__; if constexpr (Try) XTR_TRY_LOG(s, "[{}]{}[{}]{}", std::forward<A>(a), 7ll, std::forward<B>(b), true); else XTR_LOG(s, "[{}]{}[{}]{}", std::forward<A>(a), 7ll, std::forward<B>(b), true); }
template<bool Try, class A, class B, class C> void emit(xtr::sink& s, std::integral_constant<int, 5>, A&& a, B&& b, C&& c) { g_line = __LINE__; if constexpr (Try) XTR_TRY_LOG(s, "[{}][{}]{}[{}]", std::forward<A>(a), std::forward<B>(b), 1, std::forward<C>(c)); else XTR_LOG(s, "[{}][{}]{}[{}]", std::forward<A>(a), std::forward<B>(b), 1, std::forward<C>(c)); }
static std::string text(int sig, const std::vector<std::string>& v)
{
    switch (sig) {
    case 0: return "[" + v[0] + "]"; case 1: return "42[" + v[0] + "]"; case 2: return "[" + v[0] + "]2.5c";
    case 3: return "[" + v[0] + "][" + v[1] + "]"; case 4: return "[" + v[0] + "]7[" + v[1] + "]true";
    default: return "[" + v[0] + "][" + v[1] + "]1[" + v[2] + "]";
    }
}
static int nstr(int sig) { return sig < 3 ? 1 : sig < 5 ? 2 : 3; }
constexpr int NK = 4; // const char*, std::string, std::string_view, char array
static char g_arr[3][8300];
template<class F> void with(int kind, const std::string& x, int slot, F&& f)
{
    // the caller's copy is overwritten right after the call
    switch (kind) {
    case 0: { std::string c = x; const char* p = c.c_str(); f(p); std::fill(c.begin(), c.end(), '!'); break; }
    case 1: { std::string c = x; f(c); std::fill(c.begin(), c.end(), '!'); break; }
    case 2: { std::string c = x; std::string_view v = c; f(v); std::fill(c.begin(), c.end(), '!'); break; }
    case 3: { memcpy(g_arr[slot], x.c_str(), x.size() + 1); f(g_arr[slot]); memset(g_arr[slot], '!', x.size()); break; }
    }
}
template<bool Try> void call(xtr::sink& s, int sig, const std::vector<int>& k, const std::vector<std::string>& v)
{
    with(k[0], v[0], 0, [&](auto&& a) {
        switch (sig) {
        case 0: emit<Try>(s, std::integral_constant<int, 0>(), a); return;
        case 1: emit<Try>(s, std::integral_constant<int, 1>(), a); return;
        case 2: emit<Try>(s, std::integral_constant<int, 2>(), a); return;
        }
        with(k[1], v[1], 1, [&](auto&& b) {
            switch (sig) {
            case 3: emit<Try>(s, std::integral_constant<int, 3>(), a, b); return;
            case 4: emit<Try>(s, std::integral_constant<int, 4>(), a, b); return;
            }
            with(k[2], v[2], 2, [&](auto&& c) { emit<Try>(s, std::integral_constant<int, 5>(), a, b, c); });
        });
    });
}
static std::string mkstr(int which, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += char((which == 1 ? 'A' : 'a') + (i + size_t(which) * 5) % 26); return s; }
static unsigned base_room() { static unsigned n = room_after(0, [](xtr::sink&) {}); return n; }
// size in units of a record whose stored strings total t bytes, measured from the outside
static unsigned rec(int sig, const std::vector<int>& k, size_t t)
{
    static std::map<std::pair<int, std::vector<int>>, std::vector<unsigned>> cache;
    auto& c = cache[{sig, k}];
    if (c.empty()) for (size_t i = 0; i < 16; ++i) {
        std::vector<std::string> v(size_t(nstr(sig)), ""); v[0] = mkstr(0, i);
        unsigned b = base_room();
        unsigned r = room_after(0, [&](xtr::sink& s) { call<true>(s, sig, k, v); });
        c.push_back(b - r);
    }
    if (t < 16) return c[t];
    return c[8 + t % 8] + unsigned((t - (8 + t % 8)) / 8);
}
static const char* MARK = "<truncated>";
// results permitted by including strings greedily from either end
static std::vector<std::string> permitted(int sig, const std::vector<int>& k, const std::vector<std::string>& v, unsigned room)
{
    std::vector<std::string> res;
    for (int dir = 0; dir < 2; ++dir) {
        std::vector<std::string> o = v; size_t tot = 0;
        for (size_t j = 0; j < v.size(); ++j) {
            size_t i = dir ? v.size() - 1 - j : j;
            if (rec(sig, k, tot + v[i].size()) <= room) tot += v[i].size(); else o[i] = MARK;
        }
        res.push_back(text(sig, o));
    }
    return res;
}
static xtr::sink& z() { static xtr::sink* s = new xtr::sink(L().get_sink("z")); return *s; }
static unsigned long strip_drops(std::string& o)
{
    unsigned long n = 0; size_t p;
    while ((p = o.find(" messages dropped\n")) != std::string::npos) {
        size_t b = o.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1;
        size_t d = o.rfind(' ', p - 1); n += strtoul(o.c_str() + d + 1, nullptr, 10);
        o.erase(b, p + strlen(" messages dropped\n") - b);
    }
    return n;
}
static void tight(int sig, const std::vector<int>& k, const std::vector<std::string>& v, unsigned room, int filler)
{
    unsigned base = base_room(); if (room > base) room = base;
    unsigned r0 = rec(sig, k, 0);
    auto ok = permitted(sig, k, v, room);
    Held h{unsigned(filler)};
    h.fill(base - room);
    call<true>(h.s, sig, k, v);
    h.let_go();
    XTR_LOG(h.s, "after"); int al = __LINE__;
    h.s.close(); z().sync();
    std::string o = take();
    unsigned long drops = strip_drops(o);
    bool fits = r0 <= room;
    if (drops != (fits ? 0u : 1u)) seq::fail("%s although %u of the %u units it needs are free", fits ? "message dropped" : "message not counted as dropped", room, r0);
    std::string a = line('I', "s", "c10.cpp", al, "after"), got;
    for (auto& t : ok) { std::string w = h.want + (fits ? line('I', "s", "c10.cpp", g_line, t) : "") + a; if (o == w) { seq::outcome(std::to_string(sig) + (fits ? t.find(MARK) != std::string::npos ? "T" : "C" : "D")); return; } got = w; }
    // show only the interesting tail
    expect(o.size() > h.want.size() ? o.substr(h.want.size()) : o, got.substr(h.want.size()), "tight queue");
    seq::fail("earlier messages disturbed");
}
static void prefill(xtr::sink& s, unsigned n) { static Blk b; unsigned per = blk_units(); while (n >= per) { XTR_LOG(s, "{}", b); n -= per; } while (n--) XTR_LOG(s, "f"); }
static int pick_filler() { static const int q[] = {0, 1, 255, 480, 490, 496, 500, 502, 504, 505, 506, 507, 508, 509, 510, 511}; if (seq::thorough()) return seq::choose(512); return q[seq::choose(16)]; }
static void one_tight()
{
    int sig = seq::choose(3); std::vector<int> k{seq::choose(NK)};
    unsigned room = unsigned(seq::choose(seq::thorough() ? 30 : 16));
    static const int q[] = {0, 1, 500, 507, 509}; int filler = seq::thorough() ? pick_filler() : q[seq::choose(5)];
    size_t n = size_t(seq::choose(int(room) * 8 + 10));
    seq::note("sig%d kind%d room%u len%zu filler%d", sig, k[0], room, n, filler);
    tight(sig, k, {mkstr(0, n)}, room, filler);
}
static void two_tight()
{
    int sig = 3 + seq::choose(2); std::vector<int> k{seq::choose(NK), seq::choose(NK)};
    static const size_t len[] = {0, 1, 7, 8, 9, 16, 17, 40};
    size_t a = seq::pick(len), b = seq::pick(len); int d = seq::choose(6); static const int q[] = {0, 507};
    int filler = seq::thorough() ? pick_filler() : q[seq::choose(2)];
    unsigned room = rec(sig, k, 0) + unsigned(d == 0 ? -1 : d == 5 ? 6 : d - 1);
    seq::note("sig%d kinds%d%d room%u len%zu,%zu filler%d", sig, k[0], k[1], room, a, b, filler);
    tight(sig, k, {mkstr(0, a), mkstr(1, b)}, room, filler);
}
static void three_tight()
{
    static const int kk[][3] = {{0, 0, 0}, {1, 1, 1}, {2, 2, 2}, {0, 1, 2}, {2, 3, 1}, {1, 0, 3}};
    auto& kp = kk[seq::choose(6)]; std::vector<int> k(kp, kp + 3);
    static const size_t len[] = {0, 1, 8, 17}; size_t a = seq::pick(len), b = seq::pick(len), c = seq::pick(len);
    int d = seq::choose(6); int filler = seq::flip() ? 0 : 507;
    unsigned room = rec(5, k, 0) + unsigned(d == 0 ? -1 : d - 1);
    seq::note("kinds%d%d%d room%u len%zu,%zu,%zu filler%d", k[0], k[1], k[2], room, a, b, c, filler);
    tight(5, k, {mkstr(0, a), mkstr(1, b), mkstr(2, c)}, room, filler);
}
// blocking calls with the background thread running: only what cannot fit in an empty queue is truncated
static void blocking()
{
    int sig = seq::choose(6); std::vector<int> k; for (int i = 0; i < nstr(sig); ++i) k.push_back(i && !seq::thorough() ? (k[0] + i) % NK : seq::choose(NK));
    int filler = pick_filler();
    unsigned cap; { xtr::sink t; cap = unsigned(t.capacity()); }
    // largest length of the first string that fits together with the others
    std::vector<std::string> v; size_t rest = 0;
    for (int i = 1; i < nstr(sig); ++i) { size_t n = size_t(seq::choose(2)) * 13; rest += n; v.push_back(mkstr(i, n)); }
    size_t fit = 0; { size_t lo = 0, hi = 2 * cap; while (lo < hi) { size_t m = (lo + hi + 1) / 2; if (rec(sig, k, m + rest) <= cap / 8) lo = m; else hi = m - 1; } fit = lo; }
    static const int d[] = {0, -1, 1, -8, 8, -9, 9, -4000, 4000}; int dd = d[seq::choose(9)];
    size_t n = size_t(std::max(0, int(fit) + dd));
    v.insert(v.begin(), mkstr(0, n));
    seq::note("sig%d kind%d len%zu (fits %zu) filler%d", sig, k[0], n, fit, filler);
    xtr::sink s = L().get_sink("s");
    prefill(s, unsigned(filler));
    s.sync(); take();
    XTR_LOG(s, "before"); int bl = __LINE__;
    call<false>(s, sig, k, v); int ml = g_line;
    XTR_LOG(s, "after {}", 1); int al = __LINE__;
    s.close(); z().sync();
    std::string o = take();
    auto ok = permitted(sig, k, v, cap / 8); std::string w;
    for (auto& t : ok) { w = line('I', "s", "c10.cpp", bl, "before") + line('I', "s", "c10.cpp", ml, t) + line('I', "s", "c10.cpp", al, "after 1"); if (o == w) { seq::outcome(std::to_string(sig) + (t.find(MARK) != std::string::npos ? "T" : "C")); return; } }
    expect(o, w, "blocking call");
}
// several large strings that together exceed the queue
static void blocking_pair()
{
    int sig = 3 + seq::choose(3); std::vector<int> k; for (int i = 0; i < nstr(sig); ++i) k.push_back(seq::choose(3));
    unsigned cap; { xtr::sink t; cap = unsigned(t.capacity()); }
    static const int len[] = {10, 2000, 2030, 2048, 3900, 4096, 5000};
    std::vector<std::string> v; for (int i = 0; i < nstr(sig); ++i) v.push_back(mkstr(i, size_t(seq::pick(len))));
    int filler = seq::flip() ? 300 : 0;
    seq::note("sig%d len%zu,%zu filler%d", sig, v[0].size(), v[1].size(), filler);
    xtr::sink s = L().get_sink("s");
    prefill(s, unsigned(filler));
    s.sync(); take();
    call<false>(s, sig, k, v); int ml = g_line;
    XTR_LOG(s, "after {}", 1); int al = __LINE__;
    s.close(); z().sync();
    std::string o = take(), w; auto ok = permitted(sig, k, v, cap / 8);
    for (auto& t : ok) { w = line('I', "s", "c10.cpp", ml, t) + line('I', "s", "c10.cpp", al, "after 1"); if (o == w) { seq::outcome(std::to_string(sig)); return; } }
    expect(o, w, "blocking call");
}
// zero bytes inside strings that have a length; empty strings
static void zeros()
{
    int sig = seq::choose(6); std::vector<int> k; std::vector<std::string> v, shown;
    for (int i = 0; i < nstr(sig); ++i) {
        k.push_back(seq::choose(NK)); int pat = k.back() == 1 || k.back() == 2 ? seq::choose(6) : seq::choose(2);
        static const std::string p[] = {std::string(), "x", std::string(1, '\0'), std::string("a\0b", 3), std::string("\0\0", 2), std::string("ab\0", 3)};
        v.push_back(p[pat]); std::string e; for (char c : p[pat]) if (c) e += c; else e += "\\x00"; shown.push_back(e);
    }
    bool tr = seq::flip();
    xtr::sink s = L().get_sink("s"); take();
    if (tr) call<true>(s, sig, k, v); else call<false>(s, sig, k, v);
    s.close(); z().sync();
    expect(take(), line('I', "s", "c10.cpp", g_line, text(sig, shown)), "zero bytes");
    seq::outcome(text(sig, shown));
}
int main(int argc, char** argv)
{
    seq::Options o; o.workers = 4; o.timeout_s = 30;
    return seq::main_(argc, argv, "C10",
        "argument lists with one to three strings of every kind x string lengths around every boundary x free space in the queue (unit by unit) x position in the queue x blocking and non-blocking calls; record sizes are measured from the outside; outcomes: complete, truncated, dropped",
        {{"one_tight", one_tight}, {"two_tight", two_tight}, {"three_tight", three_tight}, {"blocking", blocking}, {"blocking_pair", blocking_pair}, {"zeros", zeros}},
        {"string bytes are stored contiguously: a record grows by one unit of 8 bytes per 8 bytes of string"}, o);
}
