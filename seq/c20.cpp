// C20: timestamps.
#include "variants.h"
#include <ucontext.h>
#include <dlfcn.h>
#include <optional>
using namespace lg;
// ---- reference calendar: count days one by one from a table built at start ----
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static long day_of_year0(int y) // days from 1970-01-01 to y-01-01, by plain counting
{
    static long tab[9100]; static bool init = false;
    if (!init) { long d = 0; for (int i = 1970; i < 10050; ++i) { tab[i - 1000] = d; d += leap(i) ? 366 : 365; } d = 0; for (int i = 1969; i >= 1000; --i) { d -= leap(i) ? 366 : 365; tab[i - 1000] = d; } init = true; }
    return tab[y - 1000];
}
static std::string render(long long sec, long nsec)
{
    long long day = sec / 86400, rem = sec % 86400; if (rem < 0) { rem += 86400; --day; }
    int y = 1000; { int lo = 1000, hi = 10040; while (lo < hi) { int m = (lo + hi + 1) / 2; if (day_of_year0(m) <= day) lo = m; else hi = m - 1; } y = lo; }
    long d = long(day - day_of_year0(y)); static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; int mo = 0;
    for (;; ++mo) { int n = ml[mo] + (mo == 1 && leap(y)); if (d < n) break; d -= n; }
    char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02ld %02lld:%02lld:%02lld.%06ld", y, mo + 1, d + 1, rem / 3600, rem / 60 % 60, rem % 60, nsec / 1000); return b;
}
static const long nss[] = {0, 1, 999, 1000, 1001, 123456789, 499999999, 500000000, 999999000, 999999999};
// ---- virtual time ----
static std::atomic<bool> virt{false}; static std::atomic<long long> vt{0}; static std::atomic<uint64_t> tsc_base{0}; static long long wall0 = 946688523000000000ll; static double drift = 0; static std::atomic<int> sleeps{0};
constexpr double HZ = 2.5e9;
static long long wall_ns() { return wall0 + vt + (long long)(double(vt) * drift); }
extern "C" int clock_gettime(clockid_t id, struct timespec* t)
{
    if (!virt) return int(syscall(SYS_clock_gettime, id, t));
    long long n = (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME) ? 5000000000ll + vt : wall_ns();
    t->tv_sec = time_t(n / 1000000000); t->tv_nsec = long(n % 1000000000); if (t->tv_nsec < 0) { t->tv_nsec += 1000000000; --t->tv_sec; } return 0;
}
extern "C" int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) { if (virt && !f) { vt += a->tv_sec * 1000000000ll + a->tv_nsec; sleeps++; return 0; } return int(-syscall(SYS_clock_nanosleep, c, f, a, b)); }
extern "C" int nanosleep(const struct timespec* a, struct timespec* b) { if (virt) { vt += a->tv_sec * 1000000000ll + a->tv_nsec; sleeps++; return 0; } return int(syscall(SYS_nanosleep, a, b)); }
static void segv(int, siginfo_t*, void* c)
{
    auto* g = static_cast<ucontext_t*>(c)->uc_mcontext.gregs; auto* p = reinterpret_cast<unsigned char*>(g[REG_RIP]);
    int len = p[0] == 0x0f && p[1] == 0x31 ? 2 : p[0] == 0x0f && p[1] == 0x01 && p[2] == 0xf9 ? 3 : 0;
    if (!len) { signal(SIGSEGV, SIG_DFL); return; }
    uint64_t v = tsc_base + uint64_t(double(vt) * (HZ / 1e9));
    g[REG_RAX] = long(v & 0xffffffffu); g[REG_RDX] = long(v >> 32); if (len == 3) g[REG_RCX] = 0; g[REG_RIP] += len;
}
static bool trap_tsc(bool on)
{
    struct sigaction a = {}; a.sa_sigaction = segv; a.sa_flags = SA_SIGINFO | SA_NODEFER; if (on) sigaction(SIGSEGV, &a, nullptr);
    return prctl(PR_SET_TSC, on ? PR_TSC_SIGSEGV : PR_TSC_ENABLE, 0, 0, 0) == 0;
}
// times supplied by the caller
[[maybe_unused]] static void supplied()
{
    int kind = seq::choose(2); std::vector<long long> secs; int y;
    if (kind == 0) { y = 1001 + seq::choose(8998); long long b = day_of_year0(y) * 86400ll; secs = {b - 1, b, b + 1}; long d = 0; static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; for (int m = 0; m < 12; ++m) { d += ml[m] + (m == 1 && leap(y)); for (long long s : {-1ll, 0ll, 43199ll, 86399ll}) secs.push_back(b + d * 86400ll + s); } }
    else { y = 0; long long h = seq::choose(48); long long b = (seq::flip() ? 951782400ll : -86400ll) + h * 3600; for (int i = 0; i < 3600; i += seq::thorough() ? 1 : 59) secs.push_back(b + i); secs.push_back(b + 59); secs.push_back(b + 60); }
    seq::note("kind%d year %d (%zu times)", kind, y, secs.size());
    xtr::sink s = L().get_sink("s"); std::string want; int ln = 0; size_t i = 0;
    for (long long sec : secs) { long ns = nss[(i + size_t(y)) % 10]; ++i; std::timespec t{time_t(sec), ns}; ln = __LINE__; if (i % 2) XTR_LOG_TS(s, xtr::timespec(t), "m"); else XTR_TRY_LOG_TS(s, xtr::timespec(t), "m"); want += "I " + render(sec, ns) + " s c20.cpp:" + std::to_string(ln) + ": m\n"; if (i % 16 == 0) s.sync(); }
    s.close(); static xtr::sink* z = new xtr::sink(L().get_sink("z")); z->sync();
    expect(take(), want, "supplied times"); seq::outcome(std::to_string(y % 400));
}
// clocks of several resolutions
template<class Dur> struct Ck { using duration = Dur; using rep = typename Dur::rep; using period = typename Dur::period; using time_point = std::chrono::time_point<Ck>; static constexpr bool is_steady = false; std::atomic<rep>* v; time_point now() const { return time_point(Dur(v->load())); } };
template<class Dur> static void clock_one(long long sec, long ns)
{
    using Rep = typename Dur::rep; static std::atomic<Rep>* v = new std::atomic<Rep>; static xtr::logger* l = new xtr::logger(std::make_unique<Mem>(), Ck<Dur>{v}, xtr::null_command_path);
    static xtr::sink* s = new xtr::sink(l->get_sink("s"));
    // floor of the time in units of the clock
    using P = typename Dur::period; __int128 n = __int128(sec) * 1000000000 + ns; auto fl = [](__int128 x, __int128 y) { __int128 r = x / y; return x % y < 0 ? r - 1 : r; };
    __int128 q = fl(n * P::den, __int128(1000000000) * P::num), back = fl(q * 1000000000 * P::num, P::den); long long rs = (long long)(back / 1000000000); long rn = long(back % 1000000000); if (rn < 0) { rn += 1000000000; --rs; }
    s->sync(); if constexpr (std::is_floating_point_v<Rep>) { *v = Rep(sec) + Rep(ns / 15625000) / 64; rs = sec; rn = ns / 15625000 * 15625000; } else *v = Rep(q);
    s->sync(); XTR_LOG(*s, "m"); const int ln = __LINE__; s->sync();
    expect(take(), "I " + render(rs, rn) + " s c20.cpp:" + std::to_string(ln) + ": m\n", "logger clock");
}
[[maybe_unused]] static void clocks()
{
    int d = seq::choose(7); long ns = nss[seq::choose(10)]; static const long long base[] = {0, -1, 1, -86400, -86401, -31536000, 951868800, 951868799, 4102444800, 1700000000, -8000000000, 9000000000, 9214646400, -9214646401};
    long long sec = base[seq::choose(14)]; seq::note("clock%d %lld.%09ld", d, sec, ns);
    using namespace std::chrono;
    switch (d) { case 0: clock_one<nanoseconds>(sec, ns); break; case 1: clock_one<microseconds>(sec, ns); break; case 2: clock_one<milliseconds>(sec, ns); break; case 3: clock_one<seconds>(sec, ns); break; case 4: clock_one<duration<double>>(sec, ns); break; case 5: clock_one<duration<long long, std::ratio<1, 10000000>>>(sec, ns); break; case 6: clock_one<duration<long long, std::ratio<1, 60>>>(sec / 3 * 3, 0); break; }
    seq::outcome(std::to_string(d));
}
// when the background thread reads its clock
[[maybe_unused]] static void reading()
{
    static std::atomic<long>* v = new std::atomic<long>(0); static xtr::logger* l = new xtr::logger(std::make_unique<Mem>(), Ck<std::chrono::seconds>{v}, xtr::null_command_path);
    xtr::sink s[2] = {l->get_sink("s"), l->get_sink("t")}; int depth = seq::thorough() ? 8 : 6; long long now = 1000000000; *v = now; s[0].sync(); s[1].sync(); take();
    struct E { int sink; long long lo; }; std::vector<E> w; long long lo[2] = {now, now}; int ln = 0, last = -1;
    for (int i = 0; i < depth; ++i) switch (int op = seq::choose(5)) {
        case 0: case 1: ln = __LINE__; XTR_LOG(s[op], "m"); w.push_back({op, lo[op]}); last = op; seq::note("log%d", op); break;
        case 2: case 3: if (last != 4) {} s[op - 2].sync(); lo[op - 2] = now; seq::note("sync%d", op - 2); break;
        case 4: now += 3600; *v = now; seq::note("advance"); break;
        }
    s[0].sync(); s[1].sync(); std::string o = take(); std::vector<std::pair<int, std::string>> got; long long prev[2] = {0, 0}; size_t used[2] = {0, 0};
    for (size_t p = 0; p < o.size();) {
        size_t e = o.find('\n', p); std::string ln1 = o.substr(p, e - p); p = e + 1; int k = ln1.find(" t c20") != std::string::npos ? 1 : 0;
        long long t = -1; for (long long c = 1000000000; c <= now; c += 3600) if (ln1 == "I " + render(c, 0) + (k ? " t" : " s") + " c20.cpp:" + std::to_string(ln) + ": m") t = c;
        if (t < 0) seq::fail("the time of \"%s\" was never shown by the logger's clock", esc(ln1).c_str());
        size_t n = used[k]++, j = 0; for (;; ++j) { if (j == w.size()) seq::fail("too many lines"); if (w[j].sink == k && n-- == 0) break; }
        if (t < w[j].lo) seq::fail("message %zu shows a time earlier than the last time its sink was processed before it", j);
        if (t < prev[k]) seq::fail("times of a sink run backwards");
        prev[k] = t;
    }
    if (used[0] + used[1] != w.size()) seq::fail("lines are missing");
    seq::outcome(o);
}
// statements reading the clock at the call, and the cycle counter, in virtual time
static long long parse(const std::string& l) // ns of the time at offset 2
{
    int y, mo, d, h, mi, s; long us; if (sscanf(l.c_str() + 2, "%4d-%2d-%2d %2d:%2d:%2d.%6ld", &y, &mo, &d, &h, &mi, &s, &us) != 7) seq::fail("no time in \"%s\"", esc(l).c_str());
    if (y < 1000 || y > 9999) seq::fail("implausible time in \"%s\"", esc(l).c_str());
    static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; long long dd = day_of_year0(y); for (int m = 1; m < mo; ++m) dd += ml[m - 1] + (m == 2 && leap(y)); dd += d - 1;
    return ((dd * 24 + h) * 60 + mi) * 60000000000ll + s * 1000000000ll + us * 1000ll;
}
[[maybe_unused]] static void counter_()
{
    static const long long adv[] = {999, 1000000, 999999999, 59000000000ll, 61000000000ll, 3600000000000ll, 86400000000000ll};
    static const double start[] = {0, 20, 59.9, 90, 1e7, 3e9};
    int st = seq::choose(6); bool dr = seq::flip(); bool first_rtc = seq::flip();
    vt = 0; drift = dr ? 1e-4 : 0; tsc_base = uint64_t(start[st] * HZ) + 7;
    static int tsc_ok = -1; static double hz = 0; bool ok = trap_tsc(true); if (tsc_ok < 0) tsc_ok = ok;
    if (!ok) { seq::note("cycle counter cannot be virtualised here"); return; }
    virt = true;
    struct M { long long at, ns, done; bool rtc, adv; }; std::vector<M> ms; std::string o; seq::note("start %.0f s%s", start[st], dr ? " drift" : "");
    {
        xtr::logger l(std::make_unique<Mem>(), Clock(), xtr::null_command_path);
        if (hz == 0) hz = sleeps ? HZ : -1;
        xtr::sink s = l.get_sink("s"); s.sync(); take(); int depth = seq::thorough() ? 5 : 4; int id = 0; bool held = false; size_t pending = 0;
        auto settle = [&] { if (held) release(id); held = false; s.sync(); for (size_t i = pending; i < ms.size(); ++i) ms[i].done = vt; pending = ms.size(); };
        for (int i = 0; i < depth; ++i) {
            int op = seq::choose(10);
            if (op < 7) { vt += adv[op]; seq::note("+%lld", adv[op]); }
            else if (op == 7) { if (held) { seq::note("resume"); settle(); } else { seq::note("stall"); settle(); id = ++Held::next; XTR_LOG(s, "{}", Stall{id}); wait_entered(id); held = true; ms.push_back({-1, 0, 0, false, false}); } }
            else { bool rtc = (op == 9) != first_rtc; seq::note(rtc ? "rtc" : "tsc"); ms.push_back({vt, wall_ns(), -1, rtc, false}); if (rtc) XTR_LOG_RTC(s, "m"); else XTR_LOG_TSC(s, "m"); if (!held) settle(); }
        }
        settle(); s.close(); 
    }
    virt = false; trap_tsc(false); o = take();
    size_t p = 0; 
    for (auto& m : ms) {
        size_t e = o.find('\n', p); if (e == std::string::npos) seq::fail("a line is missing"); std::string l = o.substr(p, e - p); p = e + 1; if (m.at < 0) continue;
        if (m.rtc) { long long sec = m.ns / 1000000000; if (l.substr(2, 26) != render(sec, long(m.ns % 1000000000))) seq::fail("\"%s\": the clock showed %s at the call", esc(l).c_str(), render(sec, long(m.ns % 1000000000)).c_str()); continue; }
        long long err = parse(l) - m.ns; if (hz < 0) continue; // frequency declared by the real CPU: scale unknown
        double tol = 2000 + (drift + 1e-9) * (61e9 + double(m.done - m.at)); // calibration at most a minute before the conversion
        if (double(err < 0 ? -err : err) > tol) seq::fail("\"%s\": the cycle counter was read at %s, off by %lld ns (tolerance %.0f)", esc(l).c_str(), render(m.ns / 1000000000, long(m.ns % 1000000000)).c_str(), err, tol);
    }
    seq::outcome(std::to_string(ms.size()) + std::to_string(st));
}
int main(int argc, char** argv)
{
    setenv("TZ", "ABC+3:30DEF,M4.1.0,M10.5.0", 1); tzset(); // times are written in UTC whatever the local zone is
    return seq::main_(argc, argv, "C20",
        "histories differ in the time (every year 1000 to 9999 with all month ends, leap days, midnight and last seconds; every minute or second of chosen days) with ten sub-second values; clock resolution, epoch side and value; sequence of log, sync and clock-advance operations on two sinks; virtual-time histories of advances, stalls and RTC/TSC statements with the counter started at six values, with and without wall-clock drift",
#ifdef COUNTER
        {{"counter", counter_}},
#else
        {{"supplied", supplied}, {"clocks", clocks}, {"reading", reading}},
#endif
        {"years 1000 to 9999", "user-supplied nanoseconds are within 0 to 999999999", "the cycle counter runs at a constant rate; a conversion may use a calibration up to one minute old"});
}
