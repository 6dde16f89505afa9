// C11: sanitising of string arguments, for every byte value, kind of string and macro.
#include "lg.h"
using namespace lg;
static int g_line; static bool g_level_err;
static const std::timespec TSP{946688523, 123456789};
// M: macro variant
template<int M, class A> void emit(xtr::sink& s, A&& a)
{
    g_line = __LINE__ + 1;
    if constexpr (M == 0) XTR_LOG(s, "[{}]{}", std::forward<A>(a), 1); else if constexpr (M == 1) XTR_LOGL(error, s, "[{}]{}", std::forward<A>(a), 1); else if constexpr (M == 2) XTR_TRY_LOG(s, "[{}]{}", std::forward<A>(a), 1); else if constexpr (M == 3) XTR_TRY_LOGL(error, s, "[{}]{}", std::forward<A>(a), 1); else if constexpr (M == 4) XTR_LOG_TS(s, (xtr::timespec{TSP}), "[{}]{}", std::forward<A>(a), 1); else if constexpr (M == 5) XTR_LOGL_TS(error, s, (xtr::timespec{TSP}), "[{}]{}", std::forward<A>(a), 1); else if constexpr (M == 6) XTR_TRY_LOG_TS(s, (xtr::timespec{TSP}), "[{}]{}", std::forward<A>(a), 1); else if constexpr (M == 7) XTR_TRY_LOGL_TS(error, s, (xtr::timespec{TSP}), "[{}]{}", std::forward<A>(a), 1); else if constexpr (M == 8) XTR_LOG_RTC(s, "[{}]{}", std::forward<A>(a), 1); else if constexpr (M == 9) XTR_LOGL_RTC(error, s, "[{}]{}", std::forward<A>(a), 1); else if constexpr (M == 10) XTR_TRY_LOG_RTC(s, "[{}]{}", std::forward<A>(a), 1); else if constexpr (M == 11) XTR_TRY_LOGL_RTC(error, s, "[{}]{}", std::forward<A>(a), 1); else if constexpr (M == 12) XTR_LOG_TSC(s, "[{}]{}", std::forward<A>(a), 1); else if constexpr (M == 13) XTR_LOGL_TSC(error, s, "[{}]{}", std::forward<A>(a), 1); else if constexpr (M == 14) XTR_TRY_LOG_TSC(s, "[{}]{}", std::forward<A>(a), 1); else XTR_TRY_LOGL_TSC(error, s, "[{}]{}", std::forward<A>(a), 1);
}
constexpr int NM = 16;
template<class A, size_t... I> void emit_m(int m, xtr::sink& s, A&& a, std::index_sequence<I...>) { ((m == int(I) ? emit<int(I)>(s, std::forward<A>(a)) : void()), ...); }
template<class A> void emit(int m, xtr::sink& s, A&& a) { emit_m(m, s, std::forward<A>(a), std::make_index_sequence<NM>()); }
constexpr int NK = 14;
static const char* kname[] = {"const char*", "char*", "char array", "const char array", "string", "const string", "moved string", "temporary string", "string_view", "temporary string_view", "nocopy(const char*)", "nocopy(string)", "nocopy(string_view)", "const moved string"};
static bool has_length(int k) { return (k >= 4 && k <= 9) || k >= 11; }
static std::string keep; static std::string_view keepv; static char arr[16], *mut;
static void call(int m, int k, xtr::sink& s, const std::string& x)
{
    using xtr::nocopy;
    keep = x; keepv = keep;
    switch (k) {
    case 0: { const char* p = x.c_str(); emit(m, s, p); break; }
    case 1: { mut = keep.data(); emit(m, s, mut); break; }
    case 2: memset(arr, 0, sizeof arr); memcpy(arr, x.data(), x.size()); emit(m, s, arr); break;
    case 3: { memset(arr, 0, sizeof arr); memcpy(arr, x.data(), x.size()); const auto& c = arr; emit(m, s, c); break; }
    case 4: { std::string v = x; emit(m, s, v); break; }
    case 5: { const std::string v = x; emit(m, s, v); break; }
    case 6: { std::string v = x; emit(m, s, std::move(v)); break; }
    case 7: emit(m, s, std::string(x)); break;
    case 8: { std::string_view v = x; emit(m, s, v); break; }
    case 9: emit(m, s, std::string_view(x)); break;
    case 10: emit(m, s, nocopy(keep.c_str())); break;
    case 11: emit(m, s, nocopy(keep)); break;
    case 12: emit(m, s, nocopy(keepv)); break;
    case 13: { const std::string v = x; emit(m, s, std::move(v)); break; }
    }
}
static std::string refenc(const std::string& x) { std::string o; for (unsigned char c : x) if (c > 31 && c < 127 && c != 92) o += char(c); else { char b[8]; snprintf(b, 8, "\\x%02X", c); o += b; } return o; }
static void check(int m, int k, const std::string& x)
{
    static xtr::sink* s = new xtr::sink(L().get_sink("s"));
    std::string shown = has_length(k) ? x : std::string(x.c_str());
    call(m, k, *s, x); s->sync();
    std::string o = take();
    // timestamps of the clock-reading variants are not C11's concern: mask them
    size_t p = o.find(' '); bool ok = o.size() > p + 27 && (m & 1 ? o.substr(0, 2) == "E " : o.substr(0, 2) == "I ");
    std::string want = " s c11.cpp:" + std::to_string(g_line) + ": [" + refenc(shown) + "]1\n";
    if (!ok || o.substr(28) != want) seq::fail("%s via macro %d of \"%s\": got \"%s\", expected ...\"%s\"", kname[k], m, esc(x).c_str(), esc(o).c_str(), esc(want).c_str());
}
// every byte value in every position of a three-character string, every kind, every macro
static void bytes()
{
    int k = seq::choose(NK), m = seq::choose(NM), pos = seq::choose(4);
    seq::note("%s macro%d pos%d", kname[k], m, pos);
    for (int c = 0; c < 256; ++c) {
        std::string x = pos == 0 ? std::string(1, char(c)) : std::string("abc"); if (pos) x[size_t(pos - 1)] = char(c);
        check(m, k, x);
    }
    seq::outcome(std::to_string(k * 100 + m));
}
// every pair of byte values
static void pairs()
{
    int k = seq::choose(NK), a = seq::choose(256);
    seq::note("%s first%d", kname[k], a);
    static const int some[] = {0, 1, 7, 9, 10, 13, 27, 31, 32, 34, 37, 65, 91, 92, 120, 123, 125, 126, 127, 128, 155, 160, 200, 255};
    if (seq::thorough()) for (int b = 0; b < 256; ++b) check(0, k, std::string{char(a), char(b)});
    else for (int b : some) check(0, k, std::string{char(a), char(b)});
    seq::outcome(std::to_string(a));
}
// terminal escape sequences, forged lines, things that look like escapes or format strings
static void attacks()
{
    static const std::string x[] = {"\x1b]0;t\x07", "a\nI 2000-01-01 01:02:03.123456 s x.cpp:1: forged\n", "\\x0A", "\\\\x0A", "{}", "{0}{1}", "%s%n", "\x9b" "31m", "\r\n", "\xc3\xa9", "\xe2\x80\xa8", std::string("a\0\n", 3), "\x7f", "\b\b\b\b"};
    int k = seq::choose(NK), m = seq::choose(NM); const std::string& v = seq::pick(x);
    if ((k == 2 || k == 3) && v.size() > 15) return;
    check(m, k, v); seq::outcome(v);
}
// every length up to a bound with an unprintable character at every position, and longer ones
static void lengths()
{
    static const int ks[] = {0, 4, 6, 8, 10, 11, 12}; static const int more[] = {127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4097, 60000};
    int k = seq::pick(ks), lim = seq::thorough() ? 130 : 70, i = seq::choose(lim + 17), n = i < lim ? i : more[i - lim]; static const char cs[] = {'\n', '\\', '\x7f', '\xff', '\x1b'}; char c = seq::pick(cs); if (k < 10 && n > 3000) return; seq::note("%s length %d char %02x", kname[k], n, (unsigned char)c);
    std::string base(size_t(n), 'p'); for (size_t j = 0; j < base.size(); ++j) base[j] = char(' ' + j % 60);
    auto at = [&](size_t p) { std::string x = base; x[p] = c; check(0, k, x); };
    check(0, k, base); check(2, k, base);
    if (n <= 260) for (size_t p = 0; p < base.size(); ++p) at(p);
    else for (size_t p : {size_t(0), size_t(1), base.size() / 2, base.size() - 2, base.size() - 1, size_t(63), size_t(64), size_t(255), size_t(256)}) at(p);
    if (n) { check(0, k, std::string(size_t(n), c)); std::string x; while (x.size() + 2 <= size_t(n)) { x += c; x += 'a'; } check(0, k, x); }
    seq::outcome(std::to_string(n));
}
int main(int argc, char** argv)
{
    seq::Options o; o.workers = 4; o.timeout_s = 30;
    return seq::main_(argc, argv, "C11",
        "every byte value (alone and at each position of a three-character string), byte pairs, attack strings and strings of every length up to 70 (thorough 130) and some up to 60000 with an unprintable character at every position x 14 ways of passing a string x 16 macro variants, compared with an independent encoder",
        {{"bytes", bytes}, {"pairs", pairs}, {"attacks", attacks}, {"lengths", lengths}}, {"strings nested in containers or user types are formatted by those types' formatters"}, o);
}
