// C08: capture of arguments by value.
#include "lg.h"
#include <array>
#include <optional>
#include <vector>
using namespace lg;

// Instrumented argument: knows its own address and counts what happens to it.
struct Cnt { std::atomic<int> live{0}, copies{0}, moves{0}, bad{0}, shown{0}; void reset() { live = copies = moves = bad = shown = 0; } };
static Cnt cnt; static int g_throw_at = -1; // throw on the n-th copy
template<int Size, int Align, bool MoveOnly = false, bool Throws = false> struct alignas(Align) Obj {
    struct P { const void* self; int v; };
    alignas(Align) unsigned char pad[Size];
    const void* self; int v;
    explicit Obj(int x) : self(this), v(x) { fill(); cnt.live++; }
    Obj(const Obj& o) noexcept(!Throws) requires(!MoveOnly) : self(this), v(o.v) { if (Throws && g_throw_at == cnt.copies) { g_throw_at = -2; throw std::runtime_error("copy"); } o.check(); fill(); cnt.live++; cnt.copies++; }
    Obj(Obj&& o) noexcept : self(this), v(o.v) { o.check(); fill(); cnt.live++; cnt.moves++; o.v = -1; o.fill(); }
    Obj& operator=(const Obj&) = delete;
    ~Obj() { check(); self = nullptr; cnt.live--; }
    void fill() { for (int i = 0; i < Size; ++i) pad[i] = (unsigned char)(v * 31 + i); }
    void check() const { if (self != this || reinterpret_cast<uintptr_t>(this) % Align) { cnt.bad++; return; } for (int i = 0; i < Size; ++i) if (pad[i] != (unsigned char)(v * 31 + i)) { cnt.bad++; return; } }
};
template<int S, int A, bool M, bool T> struct fmt::formatter<Obj<S, A, M, T>> {
    template<class C> constexpr auto parse(C& c) { return c.begin(); }
    template<class C> auto format(const Obj<S, A, M, T>& o, C& c) const { o.check(); cnt.shown++; return fmt::format_to(c.out(), "<{}>", o.v); }
};
static int g_line;
template<bool Try, class... A> void emit(xtr::sink& s, A&&... a)
{
    g_line = __LINE__ + 1;
    if constexpr (sizeof...(A) == 1) { if constexpr (Try) XTR_TRY_LOG(s, "{}", std::forward<A>(a)...); else XTR_LOG(s, "{}", std::forward<A>(a)...); } else if constexpr (sizeof...(A) == 2) { if constexpr (Try) XTR_TRY_LOG(s, "{} {}", std::forward<A>(a)...); else XTR_LOG(s, "{} {}", std::forward<A>(a)...); } else if constexpr (sizeof...(A) == 3) { if constexpr (Try) XTR_TRY_LOG(s, "{} {} {}", std::forward<A>(a)...); else XTR_LOG(s, "{} {} {}", std::forward<A>(a)...); } else { if constexpr (Try) XTR_TRY_LOG(s, "{} {} {} {}", std::forward<A>(a)...); else XTR_LOG(s, "{} {} {} {}", std::forward<A>(a)...); }
}
static xtr::sink& z() { static xtr::sink* s = new xtr::sink(L().get_sink("z")); return *s; }
static void prefill(xtr::sink& s, unsigned n) { static Blk b; unsigned per = blk_units(); while (n >= per) { XTR_LOG(s, "{}", b); n -= per; } while (n--) XTR_LOG(s, "f"); }
static unsigned pick_filler() { static const unsigned q[] = {0, 1, 2, 3, 250, 470, 480, 485, 490, 492, 494, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511}; if (seq::thorough()) return unsigned(seq::choose(1024)); return q[seq::choose(27)]; }

// Cases: each logs one message built from changing objects and returns what it must look like.
struct Case { const char* name; std::string (*fn)(xtr::sink&, bool tr); int copies, moves_max; };
template<class... A> void em(bool tr, xtr::sink& s, A&&... a) { if (tr) emit<true>(s, std::forward<A>(a)...); else emit<false>(s, std::forward<A>(a)...); }
#define CASE(NAME, ...) {NAME, [](xtr::sink& s, bool tr) -> std::string __VA_ARGS__, -1, -1}
static std::string big(size_t n) { std::string x; for (size_t i = 0; i < n; ++i) x += char('a' + i % 26); return x; }
static int g_copies_wanted, g_moved;
static const Case cases[] = {
    CASE("bool+char+int8", { bool b = true; char c = 'q'; signed char d = -5; em(tr, s, b, c, int(d)); b = false; c = '!'; d = 0; return "true q -5"; }),
    CASE("ints", { short a = -3; unsigned b = 4000000000u; long long c = -9000000000000000000ll; em(tr, s, a, b, c); a = 0; b = 0; c = 0; return "-3 4000000000 -9000000000000000000"; }),
    CASE("floats", { float a = 0.5f; double b = -2.25; long double c = 8.0L; em(tr, s, a, b, double(c)); a = b = 0; return "0.5 -2.25 8"; }),
    CASE("int128", { __int128 a = -1; char c = 'x'; em(tr, s, c, a); a = 0; return "x -1"; }),
    CASE("enum-like pair of chars", { char a = 'a', b = 'b'; em(tr, s, a, b, a, b); a = b = '!'; return "a b a b"; }),
    CASE("obj 1/4", { Obj<1, 8> o(7); g_copies_wanted = 1; em(tr, s, o); o.v = 9; o.fill(); return "<7>"; }),
    CASE("obj 13/8", { Obj<13, 8> o(8); g_copies_wanted = 1; em(tr, s, o, 'c'); o.v = 9; o.fill(); return "<8> c"; }),
    CASE("obj 100/8", { Obj<100, 8> o(9); g_copies_wanted = 1; em(tr, s, 1, o); o.v = 3; o.fill(); return "1 <9>"; }),
    CASE("obj 16/16", { Obj<16, 16> o(10); g_copies_wanted = 1; em(tr, s, o); o.v = 3; o.fill(); return "<10>"; }),
    CASE("obj 32/32", { Obj<32, 32> o(11); g_copies_wanted = 1; em(tr, s, 'x', o); o.v = 3; o.fill(); return "x <11>"; }),
    CASE("obj 64/64", { Obj<64, 64> o(12); g_copies_wanted = 1; em(tr, s, o, 5); o.v = 3; o.fill(); return "<12> 5"; }),
    CASE("obj 128/128", { Obj<8, 128> o(13); g_copies_wanted = 1; em(tr, s, o); o.v = 3; o.fill(); return "<13>"; }),
    CASE("obj 256/256", { Obj<8, 256> o(13); g_copies_wanted = 1; em(tr, s, o, 1.5); o.v = 3; o.fill(); return "<13> 1.5"; }),
    CASE("const obj", { const Obj<20, 8> o(14); g_copies_wanted = 1; em(tr, s, o); return "<14>"; }),
    CASE("moved obj", { Obj<20, 8> o(15); em(tr, s, std::move(o)); if (o.v != -1) seq::fail("an argument passed as an rvalue was not moved from"); return "<15>"; }),
    CASE("temporary obj", { em(tr, s, Obj<20, 16>(16)); return "<16>"; }),
    CASE("move-only obj", { Obj<20, 8, true> o(17); em(tr, s, std::move(o), 2); return "<17> 2"; }),
    CASE("move-only over-aligned", { em(tr, s, Obj<40, 64, true>(18), Obj<1, 8, true>(19)); return "<18> <19>"; }),
    CASE("two objs", { Obj<9, 8> a(20); Obj<48, 16> b(21); g_copies_wanted = 1; em(tr, s, a, std::move(b)); a.v = 0; a.fill(); return "<20> <21>"; }),
    CASE("obj + C string", { Obj<9, 8> a(22); std::string t = big(33); g_copies_wanted = 1; em(tr, s, a, t.c_str()); std::fill(t.begin(), t.end(), '!'); a.v = 0; a.fill(); return "<22> " + big(33); }),
    CASE("string + obj 16", { Obj<16, 16> a(23); std::string t = big(5); g_copies_wanted = 1; em(tr, s, t, a); t = "?????"; a.v = 0; a.fill(); return big(5) + " <23>"; }),
    CASE("string + obj 64 + string", { Obj<16, 64> a(24); std::string t = big(5), u = big(70); g_copies_wanted = 1; em(tr, s, t, a, u); t = "?????"; u = "x"; a.v = 0; a.fill(); return big(5) + " <24> " + big(70); }),
    CASE("string_view + moved obj", { std::string t = big(17); em(tr, s, std::string_view(t), Obj<3, 32, true>(25)); t.assign(17, '!'); return big(17) + " <25>"; }),
    CASE("moved string", { std::string t = big(100); const char* p = t.data(); em(tr, s, std::move(t)); (void)p; return big(100); }),
    CASE("moved string + string + int", { std::string t = big(40), u = "zz"; em(tr, s, std::move(t), u, 4); u = "??"; return big(40) + " zz 4"; }),
    CASE("char array", { char a[] = "hello"; em(tr, s, a, 3); memset(a, '!', 5); return "hello 3"; }),
    CASE("unique_ptr address", { int x = 0; void* p = &x; em(tr, s, static_cast<const void*>(p)); p = nullptr; return fmt::format("{}", static_cast<const void*>(&x)); }),
    CASE("empty strings", { std::string e; em(tr, s, e, "", std::string_view()); e = "!"; return "  "; }),
    CASE("four", { Obj<5, 8> a(1), b(2), c(3), d(4); g_copies_wanted = 3; em(tr, s, a, b, std::move(c), d); a.v = b.v = d.v = 0; a.fill(); b.fill(); d.fill(); return "<1> <2> <3> <4>"; }),
};
constexpr int NC = int(sizeof cases / sizeof cases[0]);
static void verify(const Case& c, const char* when, int live)
{
    if (cnt.bad) seq::fail("%s: %s: an argument was misaligned, overwritten or not properly copied", c.name, when);
    if (cnt.live != live) seq::fail("%s: %s: %d captured arguments were not destroyed exactly once", c.name, when, int(cnt.live));
}
static void accepted()
{
    int ci = seq::choose(NC); const Case& c = cases[ci]; unsigned filler = pick_filler(); bool tr = seq::flip();
    seq::note("%s filler%u %s", c.name, filler, tr ? "try" : "log");
    xtr::sink s = L().get_sink("s");
    prefill(s, filler); s.sync(); take();
    cnt.reset(); g_copies_wanted = 0;
    XTR_LOG(s, "before"); int bl = __LINE__;
    if (tr) s.sync(); // there is room for a non-blocking call
    std::string m = c.fn(s, tr); int ml = g_line;
    XTR_LOG(s, "after {}", 1); int al = __LINE__;
    s.close(); z().sync();
    expect(take(), line('I', "s", "c08.cpp", bl, "before") + line('I', "s", "c08.cpp", ml, m) + line('I', "s", "c08.cpp", al, "after 1"), c.name);
    verify(c, "delivered", 0);
    if (cnt.copies != g_copies_wanted) seq::fail("%s: %d copies were made where the call asks for %d", c.name, int(cnt.copies), g_copies_wanted);
    seq::outcome(c.name);
}
// discarded non-blocking messages: everything created is destroyed, nothing is printed
static void discarded()
{
    int ci = seq::choose(NC); const Case& c = cases[ci]; unsigned room = unsigned(seq::choose(3));
    seq::note("%s room%u", c.name, room);
    static unsigned base = room_after(0, [](xtr::sink&) {});
    Held h(seq::flip() ? 480 : 0);
    h.fill(base - room);
    cnt.reset(); g_copies_wanted = 0;
    std::string m = c.fn(h.s, true); int ml = g_line;
    int live = cnt.live; // alive in the queue
    h.let_go(); h.s.close(); z().sync();
    std::string o = take(), want = h.want, l = line('I', "s", "c08.cpp", ml, m), w = "W " + std::string(TS) + " s: 1 messages dropped\n";
    if (o == want + w) { if (live) seq::fail("%s: a discarded message left %d arguments alive", c.name, live); }
    else if (o != want + l && o.find("<truncated>") == std::string::npos) seq::fail("%s: unexpected output \"%s\"", c.name, esc(o.size() > want.size() ? o.substr(want.size()) : o).c_str());
    verify(c, "discarded", 0);
    seq::outcome(std::string(c.name) + (o == want + w ? "D" : "A"));
}
// copying throws: the caller sees it, nothing is logged, the sink goes on
template<int A> static void throwing_case(xtr::sink& s, int shape, bool tr)
{
    Obj<24, A, false, true> a(30), b(31); std::string t = "str";
    switch (shape) {
    case 0: em(tr, s, a); break;
    case 1: em(tr, s, a, b); break;
    case 2: em(tr, s, t, a); break;
    case 3: em(tr, s, a, t, b); break;
    case 4: em(tr, s, std::move(t), a); break;
    }
}
static void throwing()
{
    int shape = seq::choose(5), at = seq::choose(3), al = seq::choose(3); bool tr = seq::flip(); unsigned filler = pick_filler();
    seq::note("shape%d throw at copy %d align%d filler%u", shape, at, al, filler);
    xtr::sink s = L().get_sink("s"); prefill(s, filler); s.sync(); take();
    cnt.reset(); g_throw_at = at; bool threw = false;
    XTR_LOG(s, "before"); int bl = __LINE__;
    try { al == 0 ? throwing_case<8>(s, shape, tr) : al == 1 ? throwing_case<16>(s, shape, tr) : throwing_case<64>(s, shape, tr); } catch (const std::runtime_error&) { threw = true; }
    int ml = g_line; bool fired = g_throw_at == -2; g_throw_at = -1;
    if (fired != threw) seq::fail("an exception thrown while copying an argument %s", fired ? "did not reach the caller" : "appeared from nowhere");
    XTR_LOG(s, "after {}", 1); int afl = __LINE__;
    s.close(); z().sync();
    static const char* txt[] = {"<30>", "<30> <31>", "str <30>", "<30> str <31>", "str <30>"};
    expect(take(), line('I', "s", "c08.cpp", bl, "before") + (threw ? "" : line('I', "s", "c08.cpp", ml, txt[shape])) + line('I', "s", "c08.cpp", afl, "after 1"), "copying throws");
    if (cnt.bad || cnt.live) seq::fail("captured arguments damaged or not destroyed after an exception (%d alive)", int(cnt.live));
    seq::outcome(threw ? "T" : "N");
}
// arguments passed by reference are read when the message is formatted
static void by_reference()
{
    int k = seq::choose(3); static std::string str; static std::string_view sv; static char buf[8];
    Held h(0); std::string want; using xtr::nocopy; int ml;
    str = "first"; sv = str; strcpy(buf, "first");
    ml = __LINE__ + 1;
    if (k == 0) XTR_LOG(h.s, "{}", nocopy(str)); else if (k == 1) XTR_LOG(h.s, "{}", nocopy(sv)); else XTR_LOG(h.s, "{}", nocopy(buf));
    if (k < 2) std::fill(str.begin(), str.end(), 'n'); else strcpy(buf, "nnnnn");
    h.let_go(); h.s.close(); z().sync();
    expect(take(), h.want + line('I', "s", "c08.cpp", ml, "nnnnn"), "by reference");
    seq::outcome(std::to_string(k));
}
// a run of messages with objects in flight at once, wrapping the queue
static void mixture()
{
    int n = seq::thorough() ? 4 : 3; unsigned filler = 440 + unsigned(seq::choose(9)) * 8;
    Held h(filler); cnt.reset(); g_copies_wanted = 0; std::string want = h.want; int cw = 0;
    for (int i = 0; i < n; ++i) { const Case& c = cases[(seq::thorough() ? seq::choose(NC) : 5 + seq::choose(NC - 5))]; seq::note("%s;", c.name); g_copies_wanted = 0; std::string m = c.fn(h.s, false); cw += g_copies_wanted; want += line('I', "s", "c08.cpp", g_line, m); }
    h.let_go(); h.s.close(); z().sync();
    expect(take(), want, "mixture");
    if (cnt.bad || cnt.live || cnt.copies != cw) seq::fail("arguments damaged, leaked or copied (bad %d, alive %d, copies %d of %d)", int(cnt.bad), int(cnt.live), int(cnt.copies), cw);
    seq::outcome("m");
}
int main(int argc, char** argv)
{
    seq::Options o; o.workers = 4; o.timeout_s = 30;
    return seq::main_(argc, argv, "C08",
        "29 argument lists (sizes 1-128, alignments 1-256, copied, moved, move-only, strings before/after/between) x positions in the queue x blocking/non-blocking x discarded at zero to two free units x exceptions at each copy; every captured object checks its own address, alignment and contents and is counted",
        {{"accepted", accepted}, {"discarded", discarded}, {"throwing", throwing}, {"by_reference", by_reference}, {"mixture", mixture}}, {}, o);
}
