// C09: a log call allocates nothing, locks nothing and makes no system call.
#include <stddef.h>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); void __libc_free(void*); }
namespace watch {
__thread volatile char sel = 0;      // 1: system calls of this thread are trapped
__thread volatile int armed = 0; volatile int allocs, locks, syscalls; volatile long nr; volatile const char* lock_name;
inline void alloc() { if (armed) allocs = allocs + 1; }
inline void lock(const char* n) { if (armed) { locks = locks + 1; lock_name = n; } }
}
extern "C" {
void* malloc(size_t n) noexcept { watch::alloc(); return __libc_malloc(n); }
void* calloc(size_t a, size_t b) noexcept { watch::alloc(); return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) noexcept { watch::alloc(); return __libc_realloc(p, n); }
void* aligned_alloc(size_t a, size_t n) noexcept { watch::alloc(); return __libc_memalign(a, n); }
void* memalign(size_t a, size_t n) noexcept { watch::alloc(); return __libc_memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) noexcept { watch::alloc(); *p = __libc_memalign(a, n); return *p ? 0 : 12; }
void free(void* p) noexcept { __libc_free(p); }
#define WRAP(R, N, P, A) R N P { using F = R (*) P; static F f; if (!f) { int a = watch::armed; watch::armed = 0; char s = watch::sel; watch::sel = 0; f = reinterpret_cast<F>(dlsym(RTLD_NEXT, #N)); watch::sel = s; watch::armed = a; } watch::lock(#N); return f A; }
WRAP(int, pthread_mutex_lock, (pthread_mutex_t* m) noexcept, (m))
WRAP(int, pthread_mutex_trylock, (pthread_mutex_t* m) noexcept, (m))
WRAP(int, pthread_mutex_unlock, (pthread_mutex_t* m) noexcept, (m))
WRAP(int, pthread_rwlock_rdlock, (pthread_rwlock_t* m) noexcept, (m))
WRAP(int, pthread_rwlock_wrlock, (pthread_rwlock_t* m) noexcept, (m))
WRAP(int, pthread_cond_signal, (pthread_cond_t* m) noexcept, (m))
WRAP(int, pthread_cond_broadcast, (pthread_cond_t* m) noexcept, (m))
WRAP(int, sem_post, (sem_t* m) noexcept, (m))
}
#include "variants.h"
#include <signal.h>
#include <sys/prctl.h>
#include <ucontext.h>
#include <thread>
#include <deque>
using namespace lg;
#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif
static void on_sys(int, siginfo_t* si, void* u)
{
    watch::sel = 0; watch::syscalls = watch::syscalls + 1; watch::nr = si->si_syscall; auto& g = static_cast<ucontext_t*>(u)->uc_mcontext.gregs;
    long r; register long r10 __asm__("r10") = g[REG_R10]; register long r8 __asm__("r8") = g[REG_R8]; register long r9 __asm__("r9") = g[REG_R9];
    __asm__ volatile("syscall" : "=a"(r) : "a"(long(si->si_syscall)), "D"(g[REG_RDI]), "S"(g[REG_RSI]), "d"(g[REG_RDX]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    g[REG_RAX] = r;
}
static void prepare()
{
    static thread_local bool done = false; if (done) return; done = true;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sys; sa.sa_flags = SA_SIGINFO; sigaction(SIGSYS, &sa, nullptr);
    if (prctl(PR_SET_SYSCALL_USER_DISPATCH, 1, 0, 0, &watch::sel)) seq::fail("harness: system calls cannot be trapped here");
    // the trap itself works
    watch::syscalls = 0; watch::sel = 1; syscall(SYS_getppid); watch::sel = 0; if (watch::syscalls != 1) seq::fail("harness: system calls are not trapped");
    watch::allocs = 0; watch::armed = 1; free(malloc(10)); std::string* volatile q = new std::string(100, 'x'); delete q; std::mutex m; m.lock(); m.unlock(); watch::armed = 0; if (watch::allocs < 2 || watch::locks < 1) seq::fail("harness: allocations or locks are not counted");
    { timespec t; watch::syscalls = 0; watch::sel = 1; clock_gettime(CLOCK_REALTIME, &t); clock_gettime(CLOCK_REALTIME_COARSE, &t); watch::sel = 0; if (watch::syscalls) seq::fail("harness: reading the clock is a system call here"); }
}
template<class F> static void observe(const char* what, F&& f, int allow_allocs = 0)
{
    prepare(); watch::allocs = watch::locks = watch::syscalls = 0; watch::armed = 1; watch::sel = 1;
    f();
    watch::sel = 0; watch::armed = 0;
    if (watch::allocs > allow_allocs) seq::fail("%s: %d heap allocations in the calling thread", what, int(watch::allocs));
    if (watch::locks) seq::fail("%s: %d lock operations in the calling thread (%s)", what, int(watch::locks), watch::lock_name);
    if (watch::syscalls) seq::fail("%s: the calling thread made system call %ld", what, long(watch::nr));
}
// units of free space wanted when the call is made; state 0 nothing queued
static void states(int st, Held& h, unsigned room)
{
    if (st == 0) return;
    unsigned leave = st == 1 ? 0 : st == 2 ? 1 : st == 3 ? 2 : st == 4 ? 6 : 20; if (room > leave) h.fill(room - leave);
}
static unsigned cap_units() { static unsigned n = 0; if (!n) n = room_after(0, [](xtr::sink&) {}); return n; }
// ---- every macro, level and queue state ----------------------------------------------------
static void macros()
{
    int st = seq::choose(5), lv = seq::choose(6), k = seq::choose(var::NK), sl = seq::choose(6); bool a = seq::flip(); unsigned fill = seq::pick(std::vector<unsigned>{0, 100, 500});
    bool blocking = k == var::LOG || k == var::TS || k == var::RTC || k == var::TSC; if (lv == 1) return; // a fatal statement ends the process
    if (st && blocking && st < 4 && (!lv || sl >= lv)) return; // would wait
    seq::note("state%d level%d sink-level%d %s%s", st, lv, sl, var::kname(k), a ? " args" : "");
    unsigned room = cap_units(); Held h(fill); states(st, h, room); h.s.set_level(xtr::log_level_t(sl));
    observe(var::kname(k), [&] { if (lv) var::levelled(lv, k, h.s, a); else var::unlevelled(k, h.s, a); });
    h.let_go(); h.s.sync(); take(); seq::outcome(std::to_string(st));
}
// ---- every kind of argument -------------------------------------------------------------------
struct Big { char c[300]; }; struct Counted { static inline int copies; int v; Counted(int x) : v(x) {} Counted(const Counted& o) : v(o.v) { ++copies; } Counted(Counted&& o) noexcept : v(o.v) {} };
template<> struct fmt::formatter<Big> : fmt::formatter<int> { template<class C> auto format(const Big&, C& c) const { return fmt::formatter<int>::format(7, c); } };
template<> struct fmt::formatter<Counted> : fmt::formatter<int> { template<class C> auto format(const Counted& x, C& c) const { return fmt::formatter<int>::format(x.v, c); } };
static std::string S1(30, 's'), S2(1000, 't'), S3(5000, 'u'); static const char* C1 = "a C string"; static const char* C0 = ""; static char arr[20] = "an array"; static std::string_view V1 = "view", V2(S3); static Big big; static Counted cnt(3); static std::unique_ptr<int> up; static double dd = 1.5; static std::string moved;
#define KINDS(M) M(0, "none") M(1, "{}", 1) M(2, "{} {} {} {}", 1, 'c', 2.5, 3ull) M(3, "{}", C1) M(4, "{}", S1) M(5, "{}", V1) M(6, "{}", arr) M(7, "{} {} {}", C1, S1, V1) M(8, "{}", S2) M(9, "{}", S3) M(10, "{} {}", V2, 4) M(11, "{}", big) M(12, "{}", cnt) M(13, "{}", C0) M(14, "{}", xtr::nocopy(S3)) M(15, "{}", static_cast<const void*>(&dd)) M(16, "{}", true) M(17, "{}", std::move(moved)) M(18, "{} {}", S1, S3) M(19, "{} {} {}", big, S2, C1) M(20, "{}", dd) M(21, "{}", "literal") M(22, "{}", xtr::nocopy(C1)) M(23, "{}", std::string_view())
static void call(int kind, int k, xtr::sink& s)
{
    xtr::timespec t = var::stamp();
    switch (kind * 8 + k) {
#define ONE(I, ...) case I * 8 + var::LOG: XTR_LOGL(info, s, __VA_ARGS__); break; case I * 8 + var::TRY: XTR_TRY_LOGL(info, s, __VA_ARGS__); break; case I * 8 + var::TS: XTR_LOGL_TS(info, s, t, __VA_ARGS__); break; case I * 8 + var::TRYTS: XTR_TRY_LOGL_TS(info, s, t, __VA_ARGS__); break; case I * 8 + var::RTC: XTR_LOGL_RTC(info, s, __VA_ARGS__); break; case I * 8 + var::TRYRTC: XTR_TRY_LOGL_RTC(info, s, __VA_ARGS__); break; case I * 8 + var::TSC: XTR_LOGL_TSC(info, s, __VA_ARGS__); break; case I * 8 + var::TRYTSC: XTR_TRY_LOGL_TSC(info, s, __VA_ARGS__); break;
    KINDS(ONE)
    }
}
static void arguments()
{
    int st = seq::choose(6), kind = seq::choose(24), k = seq::choose(var::NK); bool off = seq::flip(); bool blocking = k % 2 == 0; unsigned fill = seq::pick(std::vector<unsigned>{0, 250, 505});
    if (blocking && st && st != 5) return; if (blocking && st == 5 && !off) return;
    seq::note("arguments%d %s state%d%s", kind, var::kname(k), st, off ? " filtered" : ""); unsigned room = cap_units(); moved = std::string(200, 'm');
    Held h(fill); states(st, h, room); if (off) h.s.set_level(xtr::log_level_t::error);
    if (blocking && !off && ((kind >= 8 && kind <= 10) || kind == 18 || kind == 19)) h.let_go(); // may have to wait for space
    observe("log call", [&] { call(kind, k, h.s); });
    h.let_go(); h.s.sync(); take(); seq::outcome(std::to_string(kind));
}
// ---- waiting for space in a full queue -----------------------------------------------------------
static void waiting()
{
    int kind = seq::choose(24), k = 2 * seq::choose(4), st = 1 + seq::choose(3); unsigned fill = seq::pick(std::vector<unsigned>{0, 250, 505}); seq::note("arguments%d %s state%d", kind, var::kname(k), st); unsigned room = cap_units(); moved = std::string(200, 'm');
    Held h(fill); states(st, h, room); std::atomic<int> go{0};
    std::thread t([&] { while (!go) sched_yield(); usleep(300); release(h.id); });
    observe("log call that waits", [&] { go = 1; call(kind, k, h.s); });
    t.join(); h.held = false; h.s.sync(); take(); seq::outcome(std::to_string(kind));
}
int main(int argc, char** argv)
{
    seq::Options o; o.timeout_s = 60;
    return seq::main_(argc, argv, "C09", "all macros x levels x sink levels x queue states; all macros x 24 kinds of arguments x 6 queue states (empty, full, one, two, six or twenty units free) x queue positions; all blocking macros waiting for space; every call under interception of allocations, lock functions and system calls",
        {{"macros", macros}, {"arguments", arguments}, {"waiting", waiting}},
        {"reading the clock does not need a system call on the machine (vDSO)", "locks built from atomics by hand are not recognised as such", "a statement of level fatal ends the process and is excluded"}, o);
}
