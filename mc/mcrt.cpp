// Runtime of the stateless model checker. Compiled WITHOUT -fsanitize=thread.
#include "mcrt.h"
#include <array>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <mutex>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ucontext.h>
#include <sys/personality.h>
#include <algorithm>

// ---------------------------------------------------------------- constants
static constexpr int MAXT = 8;
static constexpr int SPIN_LIMIT = 3;
static constexpr int MAXPTS = 20000;
static constexpr uint64_t STEP_CAP = 60000;
static constexpr size_t ARENA_SZ = size_t(64) << 20;
static constexpr size_t MMAP_SZ = size_t(256) << 20;
static constexpr size_t STACK_SZ = size_t(1) << 20;
static const uintptr_t ARENA_BASE = 0x100000000000ull;
static const uintptr_t MMAP_BASE = 0x110000000000ull;
static const uintptr_t STACK_BASE = 0x120000000000ull;

using VC = std::array<uint32_t, MAXT>;
static inline void vc_join(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }

static inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull + (a << 6) + (a >> 2));
    x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31;
    return x;
}

// ------------------------------------------------- per-execution result (shm)
struct Pt { uint8_t n, chosen; uint16_t cost1; /* bit j: option j costs one */ uint32_t hash; };
enum Status : int { ST_NONE = 0, ST_OK, ST_PRUNED, ST_VIOLATION, ST_DIVERGED };
struct Dev { uint32_t pos; uint32_t hash; uint8_t alt; };
struct Result {
    volatile int status;
    uint32_t npts;
    uint64_t steps;
    uint64_t new_states;
    int cost;
    char msg[4096];
    char out[8192];
    uint32_t outlen;
    Pt pts[MAXPTS];
};

// ------------------------------------------------------------ shared explorer
struct Node { uint32_t parent; uint32_t pos; uint32_t hash; uint32_t next; uint8_t alt; uint8_t cost; };
static constexpr uint32_t NODE_CAP = 40u << 20;
static constexpr uint32_t NIL = 0xffffffffu;
static constexpr int MAXCOST = 16;
struct Shared {
    std::atomic<int> lock;
    std::atomic<int> stop;
    std::atomic<uint32_t> nnodes;
    uint32_t head[MAXCOST];
    int active_by_cost[MAXCOST];
    uint64_t execs, pruned, steps, states, branches, diverged, unconfirmed, capped_pts;
    uint64_t execs_by_cost[MAXCOST];
    int violated;
    char vmsg[4096];
    uint32_t vnode;
    int vcost;
    uint32_t maxpts;
    uint64_t nout;
    uint64_t outh[4096];
    char samples[6][600];
    int nsamples;
    int table_full;
};
static Shared* S;
static Node* nodes;
// visited table
static constexpr size_t VT_CAP = size_t(1) << 25;
struct VEnt { std::atomic<uint64_t> key; };
static std::atomic<uint64_t>* vt_key;
static std::atomic<uint8_t>* vt_bud;

// ------------------------------------------------------------------- runtime
enum OpKind : uint8_t {
    OP_START = 1, OP_LOAD, OP_STORE, OP_RMW, OP_LOCK, OP_TRYLOCK, OP_UNLOCK, OP_CVWAIT, OP_CVWAKE,
    OP_CVSIGNAL, OP_JOIN, OP_CREATE, OP_YIELD, OP_FUTEXWAIT, OP_FUTEXWAKE, OP_CHOOSE, OP_VWAIT, OP_QUIESCE,
    OP_RDLOCK, OP_FENCE, OP_SPIN, OP_HOLDWAIT
};
static const char* opname(int k)
{
    static const char* n[] = {"?","start","load","store","rmw","lock","trylock","unlock","cvwait","cvwake",
        "cvsignal","join","create","yield","futexwait","futexwake","choose","vwait","quiesce","rdlock","fence","spin","holdwait"};
    return n[k];
}

struct SpinEnt { uintptr_t a; uint64_t valver; int rereads; };
struct Thr {
    int id = -1;
    bool used = false, finished = false;
    pthread_t real{};
    int go = 0;
    uint64_t h = 0;
    uint64_t steps = 0;
    VC vc{}, acq{}, relf{};
    bool has_relf = false;
    // pending op
    OpKind pk = OP_START;
    uintptr_t pa = 0;
    uint64_t parg = 0;
    bool signalled = false, timed = false, timedout = false, spurious_wake = false;
    uintptr_t pm = 0;
    bool yielding = false;
    bool spinblocked = false;
    int hold_in = 0; bool held = false; // see quiet()
    // spin window
    SpinEnt spin[64];
    int nspin = 0;
    bool spin_overflow = false;
    int spin_limit = SPIN_LIMIT;
    bool long_spin = false;
    const char* forbid = nullptr;
    uint64_t allocs = 0;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    bool detached = false;
    uintptr_t sp = 0;
    uintptr_t stk_lo = 0, stk_hi = 0;
    size_t arena_off = 0, mmap_off = 0;
};

struct Loc { uintptr_t a; uint64_t ver; uint64_t valver; VC vc; int writer; }; // writer: 1 + thread that last changed it
struct Mtx { uintptr_t a; int owner; int readers; int rec; uint64_t ver; VC vc; VC rvc; bool destroyed; };
struct Cv { uintptr_t a; uint64_t ver; bool destroyed; };

static bool g_active = false;      // exploring in this process
static bool g_quiet = false;
static Thr T[MAXT];
static int nthr = 0;
static thread_local int tl_id = -1;
static thread_local int tl_in_rt = 0;
static Result* R;
static std::vector<Dev>* g_devs;    // deviations to replay
static size_t g_devi = 0;
static uint32_t g_prefix_len = 0;   // number of points covered by the prefix
static int g_bound = 0;
static bool g_spurious = false;
static bool g_use_cache = true;
static bool g_trace = false;
static void (*g_on_abort)() = nullptr;
static int g_cur = 0;
static bool g_grace = false;
static bool g_warm = false;  // warm-up run before exploring: sleeps are skipped

template<typename E, int N> struct Tab {
    E e[N]; int n = 0;
    uint16_t idx[4096];
    E* find(uintptr_t a) {
        uint32_t h = uint32_t(mix(a, 17)) & 4095;
        while (idx[h]) { if (e[idx[h]-1].a == a) return &e[idx[h]-1]; h = (h + 1) & 4095; }
        return nullptr;
    }
    E* get(uintptr_t a);
};
[[noreturn]] static void finish(Status st, const char* fmt, ...);
template<typename E, int N> E* Tab<E,N>::get(uintptr_t a)
{
    if (E* x = find(a)) return x;
    if (n >= N) finish(ST_DIVERGED, "runtime table full");
    uint32_t h = uint32_t(mix(a, 17)) & 4095;
    while (idx[h]) h = (h + 1) & 4095;
    E* x = &e[n++]; memset((void*)x, 0, sizeof *x); x->a = a; idx[h] = uint16_t(n);
    x->ver = mix(a, 1);
    return x;
}
static Tab<Loc, 2000> locs;
static Tab<Mtx, 1000> mtxs;
static Tab<Cv, 1000> cvs;

// ---- shadow memory for the race detector
struct Ent { uint32_t clk; uint8_t tid; uint8_t mask; uint8_t w; uint8_t atomic; };
struct Cell { uintptr_t g; Ent e[10]; uint8_t n; uint8_t exempt; };
static constexpr uint32_t SH_CAP = 1u << 17;
static Cell* shadow;   // SH_CAP cells
static uint32_t shadow_n = 0;
static uint8_t* arena_state; // per 16 bytes, per arena: 0 unknown,1 live,2 freed

struct Seg { uintptr_t s, e; uint64_t ino; uint64_t off; uintptr_t canon; };
static Seg segs[128];
static int nsegs = 0;
static uintptr_t seg_lo = ~uintptr_t(0), seg_hi = 0;
static bool segs_dirty = false;

static long raw6(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static void futex_wait_raw(int* a, int v) { raw6(SYS_futex, long(a), FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake_raw(int* a) { raw6(SYS_futex, long(a), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

[[noreturn]] static void finish_v(Status st, const char* fmt, va_list ap)
{
    static std::atomic<int> once{0};
    if (once.exchange(1)) { for (;;) raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0); }
    tl_in_rt++;
    if (fmt) vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    uint64_t st_steps = 0;
    for (int i = 0; i < nthr; ++i) st_steps += T[i].steps;
    R->steps = st_steps;
    R->status = st;
    for (;;) raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
}
[[noreturn]] static void finish(Status st, const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt); finish_v(st, fmt, ap);
}

static const char* where(void* pc, char* buf, size_t n)
{
    Dl_info di;
    if (dladdr(pc, &di) && di.dli_sname) snprintf(buf, n, "%s", di.dli_sname);
    else snprintf(buf, n, "pc=%p", pc);
    return buf;
}

static inline Thr& me() { return T[tl_id]; }
static inline bool on() { return g_active && tl_id >= 0 && tl_in_rt == 0; }
struct InRt { InRt() { ++tl_in_rt; } ~InRt() { --tl_in_rt; } };

// ------------------------------------------------------------ enabledness
static bool loc_changed(const Thr& t)
{
    for (int i = 0; i < t.nspin; ++i) {
        Loc* l = locs.find(t.spin[i].a);
        if (l && l->valver != t.spin[i].valver) return true;
    }
    return false;
}
static bool enabled0(const Thr& t);
static bool enabled(const Thr& t)
{
    if (!t.used || t.finished) return false;
    if (t.pk == OP_QUIESCE) {
        for (int i = 0; i < nthr; ++i) if (i != t.id && T[i].pk != OP_QUIESCE && enabled0(T[i])) return false;
        return true;
    }
    return enabled0(t);
}
static bool mutex_free(uintptr_t a, int tid, bool rd = false)
{
    Mtx* m = mtxs.find(a);
    if (!m) return true;
    if (m->owner >= 0 && m->rec > 0) { (void)tid; return false; }
    if (!rd && m->readers > 0) return false;
    return true;
}
static bool enabled0(const Thr& t)
{
    if (!t.used || t.finished || t.held) return false;
    if (t.spinblocked) return loc_changed(t);
    switch (t.pk) {
    case OP_LOCK: return mutex_free(t.pa, t.id);
    case OP_RDLOCK: return mutex_free(t.pa, t.id, true);
    case OP_CVWAKE: return (t.signalled || t.timedout || t.spurious_wake) && mutex_free(t.pm, t.id);
    case OP_JOIN: return T[t.parg].finished;
    case OP_FUTEXWAIT: return t.signalled || t.timedout;
    case OP_VWAIT: return *(volatile uint64_t*)t.pa >= t.parg;
    case OP_QUIESCE: return false;
    case OP_HOLDWAIT: return T[t.parg].held;
    default: return true;
    }
}
// threads that may be woken by the environment (spurious wake / timeout)
static bool env_wakeable(const Thr& t)
{
    if (!t.used || t.finished) return false;
    if (t.pk == OP_CVWAKE && !t.signalled && mutex_free(t.pm, t.id)) return t.timed || g_spurious;
    if (t.pk == OP_FUTEXWAIT && !t.signalled) return t.timed;
    return false;
}

static uint64_t state_hash(int cur, bool cur_counts)
{
    uint64_t s = 0;
    for (int i = 0; i < nthr; ++i) {
        uint64_t x = mix(T[i].h, uint64_t(i) * 131 + T[i].finished * 7 + T[i].pk * 1000003 + T[i].spinblocked * 77);
        x = mix(x, T[i].pa);
        s += mix(x, 99 + i);
    }
    return mix(s, cur_counts ? uint64_t(cur) + 1 : 0);
}

static bool vt_visit(uint64_t k, int budget, bool* is_new)
{
    if (k == 0) k = 1;
    size_t i = size_t(k) & (VT_CAP - 1);
    *is_new = false;
    for (size_t probes = 0; probes < 4096; ++probes) {
        uint64_t cur = vt_key[i].load(std::memory_order_relaxed);
        if (cur == k) break;
        if (cur == 0) {
            uint64_t z = 0;
            if (vt_key[i].compare_exchange_strong(z, k)) { *is_new = true; break; }
            if (z == k) break;
        }
        i = (i + 1) & (VT_CAP - 1);
        if (probes == 4095) { S->table_full = 1; return false; }
    }
    uint8_t b = vt_bud[i].load(std::memory_order_relaxed);
    for (;;) {
        if (b >= uint8_t(budget + 1)) return true; // already visited with at least this budget
        if (vt_bud[i].compare_exchange_weak(b, uint8_t(budget + 1))) return false;
    }
}

// Records/replays one choice among n options.
static int choice(int n, uint16_t cost1, uint64_t hash)
{
    if (n <= 1) return 0;
    uint32_t pos = R->npts;
    if (pos >= MAXPTS) finish(ST_DIVERGED, "too many choice points");
    int c = 0;
    if (g_devi < g_devs->size() && (*g_devs)[g_devi].pos == pos) {
        const Dev& d = (*g_devs)[g_devi];
        if (d.alt >= n || d.hash != uint32_t(hash))
            finish(ST_DIVERGED, "replay diverged at point %u (alt %d of %d)", pos, d.alt, n);
        c = d.alt;
        ++g_devi;
    } else if (pos >= g_prefix_len && g_use_cache) {
        bool is_new;
        bool seen = vt_visit(hash, g_bound - R->cost, &is_new);
        if (is_new) R->new_states++;
        if (seen) finish(ST_PRUNED, "%s", "");
    }
    Pt& p = R->pts[pos];
    p.n = uint8_t(n); p.chosen = uint8_t(c); p.cost1 = cost1; p.hash = uint32_t(hash);
    R->npts = pos + 1;
    if (cost1 >> c & 1) R->cost++;
    return c;
}

static void deadlock_report()
{
    char buf[2048]; int k = 0;
    for (int i = 0; i < nthr; ++i)
        if (!T[i].finished)
            k += snprintf(buf + k, sizeof buf - size_t(k), " [thread %d blocked in %s%s]", i, opname(T[i].pk), T[i].spinblocked ? " (spinning on unchanged memory)" : "");
    finish(ST_VIOLATION, "no thread can make progress (deadlock or lost wakeup):%s", buf);
}

static void park(Thr& t)
{
    while (__atomic_load_n(&t.go, __ATOMIC_ACQUIRE) == 0) futex_wait_raw(&t.go, 0);
    __atomic_store_n(&t.go, 0, __ATOMIC_RELAXED);
}
static void unpark(Thr& t)
{
    __atomic_store_n(&t.go, 1, __ATOMIC_RELEASE);
    futex_wake_raw(&t.go);
}

// Chooses the next thread to run. cur_alive: the caller still runs.
static int pick(int cur, bool cur_alive)
{
    // Before concluding that nothing can run (deadlock or quiescence), give
    // every spin-blocked thread a much longer window to show progress.
    {
        bool any = false;
        for (int i = 0; i < nthr && !any; ++i) any = T[i].pk != OP_QUIESCE && enabled0(T[i]);
        if (!any && !g_grace) {
            bool sp = false;
            for (int i = 0; i < nthr; ++i)
                if (T[i].used && !T[i].finished && T[i].spinblocked) {
                    T[i].spinblocked = false; T[i].nspin = 0; T[i].spin_limit = 60; sp = true;
                }
            if (sp) g_grace = true;
        }
    }
    int opt[MAXT * 2]; bool env[MAXT * 2]; int n = 0;
    uint16_t cost1 = 0;
    bool cur_en = cur_alive && enabled(T[cur]);
    bool counts = cur_en && !T[cur].yielding;
    bool quiet = g_quiet;
    if (cur_en) { opt[n] = cur; env[n] = false; ++n; }
    for (int i = 0; i < nthr; ++i) {
        if (cur_en && i == cur) continue;
        if (enabled(T[i])) { opt[n] = i; env[n] = false; if (counts) cost1 |= uint16_t(1u << n); ++n; }
    }
    int nreal = n;
    for (int i = 0; i < nthr; ++i)
        if (env_wakeable(T[i])) {
            opt[n] = i; env[n] = true;
            // a timeout is free when nothing else can run
            if (nreal > 0 || !T[i].timed) cost1 |= uint16_t(1u << n);
            ++n;
        }
    if (n == 0 || (nreal == 0 && !std::any_of(opt, opt + n, [&](int i){ return T[i].timed; }))) deadlock_report();
    int c = quiet ? 0 : choice(n, cost1, state_hash(cur, counts));
    int t = opt[c];
    if (env[c]) {
        if (T[t].timed) T[t].timedout = true; else T[t].spurious_wake = true;
    }
    return t;
}

static void mark_env(Thr& t) { (void)t; }

// A scheduling point for the calling thread whose pending op is already set.
static void reschedule()
{
    Thr& t = me();
    t.sp = uintptr_t(__builtin_frame_address(0));
    if (++t.steps > STEP_CAP) finish(ST_VIOLATION, "execution exceeds %llu steps in one thread (livelock)", (unsigned long long)STEP_CAP);
    int n = pick(t.id, true);
    if (n != t.id) {
        g_cur = n;
        unpark(T[n]);
        park(t);
    }
    g_cur = t.id;
    if (t.spinblocked) { t.spinblocked = false; t.nspin = 0; t.spin_overflow = false; }
    t.yielding = false;
    mark_env(t);
    if (g_trace) fprintf(stderr, "  [T%d] %s %#lx\n", t.id, opname(t.pk), (unsigned long)t.pa);
}
static void visible(OpKind k, uintptr_t a, uint64_t arg = 0)
{
    Thr& t = me();
    if (t.forbid && k != OP_LOAD && k != OP_STORE && k != OP_RMW && k != OP_FENCE && k != OP_SPIN && k != OP_CHOOSE && k != OP_YIELD)
        finish(ST_VIOLATION, "blocking operation (%s) inside %s", opname(k), t.forbid);
    t.pk = k; t.pa = a; t.parg = arg;
    reschedule();
}

static void progress(Thr& t) { g_grace = false; t.nspin = 0; t.spin_overflow = false; }
// Called before a load-like op; handles spin detection. Returns after scheduling.
static void before_load(uintptr_t a, OpKind k)
{
    Thr& t = me();
    if (t.hold_in && --t.hold_in == 0) { t.held = true; visible(k, a); }
    Loc* l = locs.get(a);
    // find in spin window
    int idx = -1;
    for (int i = 0; i < t.nspin; ++i) if (t.spin[i].a == a) { idx = i; break; }
    bool branch = true;
    t.long_spin = false;
    if (idx >= 0 && t.spin[idx].valver == l->valver && !t.spin_overflow) {
        int rr = ++t.spin[idx].rereads;
        if (rr >= t.spin_limit) {
            if (t.forbid) finish(ST_VIOLATION, "waits for another thread inside %s", t.forbid);
            t.spinblocked = true;
        }
        branch = rr <= 1 || t.spinblocked;
        if (t.spinblocked) t.spin_limit = SPIN_LIMIT;
        t.long_spin = rr > 2;
    }
    if (branch) visible(t.spinblocked ? OP_SPIN : k, a);
    else { ++t.steps; t.yielding = false; }
    // record read after scheduling
    l = locs.get(a);
    idx = -1;
    for (int i = 0; i < t.nspin; ++i) if (t.spin[i].a == a) { idx = i; break; }
    if (idx >= 0) {
        if (t.spin[idx].valver != l->valver) { progress(t); idx = -1; t.long_spin = false; }
    }
    if (idx < 0) {
        // a first read of a location is not progress by itself, but resets rereads
        for (int i = 0; i < t.nspin; ++i) t.spin[i].rereads = std::min(t.spin[i].rereads, 0);
        if (t.nspin < 64) t.spin[t.nspin++] = {a, l->valver, 0};
        else t.spin_overflow = true;
    }
}

// ------------------------------------------------------------ race detection
static void parse_segs()
{
    segs_dirty = false;
    static char buf[1 << 17];
    int fd = int(raw6(SYS_openat, AT_FDCWD, long("/proc/self/maps"), O_RDONLY, 0, 0, 0));
    if (fd < 0) return;
    size_t n = 0;
    for (;;) {
        long r = raw6(SYS_read, fd, long(buf + n), long(sizeof buf - 1 - n), 0, 0, 0);
        if (r <= 0) break;
        n += size_t(r);
    }
    buf[n] = 0;
    raw6(SYS_close, fd, 0, 0, 0, 0, 0);
    nsegs = 0; seg_lo = ~uintptr_t(0); seg_hi = 0;
    for (char* p = buf; *p; ) {
        char* nl = strchr(p, '\n'); if (!nl) break; *nl = 0;
        unsigned long s, e, off, ino; char perm[8]; unsigned maj, min;
        if (sscanf(p, "%lx-%lx %7s %lx %x:%x %lu", &s, &e, perm, &off, &maj, &min, &ino) == 7 && perm[3] == 's' &&
            s >= MMAP_BASE && s < STACK_BASE && nsegs < 128) {
            Seg& g = segs[nsegs++];
            g.s = s; g.e = e; g.off = off; g.ino = ino; g.canon = s;
            for (int i = 0; i + 1 < nsegs; ++i)
                if (segs[i].ino == ino && off >= segs[i].off && off < segs[i].off + (segs[i].e - segs[i].s)) {
                    g.canon = segs[i].canon + (off - segs[i].off); break;
                }
            seg_lo = std::min(seg_lo, uintptr_t(s)); seg_hi = std::max(seg_hi, uintptr_t(e));
        }
        p = nl + 1;
    }
}
static inline uintptr_t canon(uintptr_t a)
{
    if (segs_dirty && a >= MMAP_BASE && a < STACK_BASE) parse_segs();
    if (a >= seg_lo && a < seg_hi)
        for (int i = 0; i < nsegs; ++i)
            if (a >= segs[i].s && a < segs[i].e) return segs[i].canon + (a - segs[i].s);
    return a;
}

static Cell* cell(uintptr_t g)
{
    // contiguous granules map to contiguous cells (page locality after fork)
    uint32_t h = (uint32_t(g >> 3) + uint32_t(g >> 24) * 40503u) & (SH_CAP - 1);
    while (shadow[h].g) { if (shadow[h].g == g) return &shadow[h]; h = (h + 1) & (SH_CAP - 1); }
    if (++shadow_n > SH_CAP * 3 / 4) finish(ST_DIVERGED, "shadow full");
    shadow[h].g = g;
    return &shadow[h];
}

static void race_report(const Ent& o, const Thr& t, uintptr_t a, bool w, bool at, void* pc)
{
    char b[600];
    finish(ST_VIOLATION, "data race: thread %d %s%s of %#lx in %s conflicts with an unordered %s%s by thread %d",
        t.id, at ? "atomic " : "", w ? "write" : "read", (unsigned long)a, where(pc, b, sizeof b),
        o.atomic ? "atomic " : "", o.w ? "write" : "read", o.tid);
}

static void check_addr(uintptr_t a, size_t n, void* pc)
{
    if (a >= ARENA_BASE && a < ARENA_BASE + ARENA_SZ * MAXT) {
        size_t i = (a - ARENA_BASE) >> 4, j = (a + n - 1 - ARENA_BASE) >> 4;
        for (; i <= j; ++i)
            if (arena_state[i] == 2) { char b[600]; finish(ST_VIOLATION, "use after free: access to %#lx in %s", (unsigned long)a, where(pc, b, sizeof b)); }
    }
    else if (a >= STACK_BASE && a < STACK_BASE + STACK_SZ * MAXT) {
        int o = int((a - STACK_BASE) / STACK_SZ);
        if (o != tl_id && o < nthr && T[o].used && !T[o].finished && T[o].sp && a < T[o].sp) {
            char b[600];
            finish(ST_VIOLATION, "use after return: thread %d accesses a dead stack frame of thread %d in %s", tl_id, o, where(pc, b, sizeof b));
        }
    }
}

static void access_granule(uintptr_t g, uint8_t mask, bool w, bool at, void* pc)
{
    Thr& t = me();
    Cell* c = cell(g);
    if (c->exempt) return;
    uint32_t myclk = t.vc[t.id];
    int slot = -1;
    for (int i = 0; i < c->n; ++i) {
        Ent& e = c->e[i];
        if (e.tid == t.id) {
            if ((e.mask & ~mask) == 0 && (w || !e.w) && (!at || e.atomic)) slot = i; // subsumed by the new entry
            else if ((mask & ~e.mask) == 0 && e.clk == myclk && (e.w || !w) && (e.atomic <= at)) return;
            continue;
        }
        if (!(e.mask & mask)) continue;
        if (!w && !e.w) continue;
        if (at && e.atomic) continue;
        if (e.clk > t.vc[e.tid]) race_report(e, t, g, w, at, pc);
    }
    if (slot < 0) {
        if (c->n < 10) slot = c->n++;
        else {
            // evict an entry ordered before us if possible
            slot = 0;
            for (int i = 0; i < 10; ++i) if (c->e[i].clk <= t.vc[c->e[i].tid]) { slot = i; break; }
        }
    } else {
        // drop other subsumed entries of ours
        for (int i = c->n - 1; i > slot; --i) {
            Ent& e = c->e[i];
            if (e.tid == t.id && (e.mask & ~mask) == 0 && (w || !e.w) && (!at || e.atomic)) { c->e[i] = c->e[--c->n]; }
        }
    }
    c->e[slot] = Ent{myclk, uint8_t(t.id), mask, w, at};
}

static void access(void* p, size_t n, bool w, bool at, void* pc)
{
    InRt r;
    uintptr_t a = uintptr_t(p);
    check_addr(a, n, pc);
    while (n) {
        uintptr_t ca = canon(a);
        uintptr_t g = ca & ~uintptr_t(7);
        unsigned o = unsigned(ca & 7);
        size_t k = std::min<size_t>(n, 8 - o);
        uint8_t mask = uint8_t(((1u << k) - 1) << o);
        access_granule(g, mask, w, at, pc);
        a += k; n -= k;
    }
}

// ------------------------------------------------------------ atomics
static void acquire_from(Thr& t, const VC& vc, int mo)
{
    if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) vc_join(t.vc, vc);
    else vc_join(t.acq, vc);
}
static bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

template<typename U> static U at_load(volatile U* p, int mo, void* pc)
{
    if (!on()) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
    InRt r;
    uintptr_t a = canon(uintptr_t(p));
    before_load(a, OP_LOAD);
    Thr& t = me();
    Loc* l = locs.get(a);
    U v = *p;
    acquire_from(t, l->vc, mo);
    access((void*)p, sizeof(U), false, true, pc);
    if (!t.long_spin) t.h = mix(mix(t.h, a), l->ver);
    return v;
}
template<typename U> static void at_store(volatile U* p, U v, int mo, void* pc)
{
    if (!on()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }
    InRt r;
    uintptr_t a = canon(uintptr_t(p));
    visible(OP_STORE, a);
    Thr& t = me();
    Loc* l = locs.get(a);
    access((void*)p, sizeof(U), true, true, pc);
    bool changed = *p != v;
    *p = v;
    if (is_rel(mo)) { l->vc = t.vc; t.vc[t.id]++; }
    else if (t.has_relf) l->vc = t.relf;
    else l->vc = VC{};
    t.h = mix(mix(t.h, a), mix(l->ver, 3));
    l->ver = t.h;
    if (changed) { l->valver++; l->writer = 1 + t.id; progress(t); }
}
template<typename U, typename F> static U at_rmw(volatile U* p, int mo, void* pc, F f)
{
    if (!on()) { U o = __atomic_load_n(p, __ATOMIC_SEQ_CST); while (!__atomic_compare_exchange_n(p, &o, f(o), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {} return o; }
    InRt r;
    uintptr_t a = canon(uintptr_t(p));
    before_load(a, OP_RMW);
    Thr& t = me();
    Loc* l = locs.get(a);
    access((void*)p, sizeof(U), true, true, pc);
    U o = *p, n = f(o);
    *p = n;
    acquire_from(t, l->vc, mo);
    if (is_rel(mo)) { vc_join(l->vc, t.vc); t.vc[t.id]++; }
    else if (t.has_relf) vc_join(l->vc, t.relf);
    t.h = mix(mix(t.h, a), mix(l->ver, 5));
    l->ver = t.h;
    if (n != o) { l->valver++; l->writer = 1 + t.id; progress(t); }
    return o;
}
template<typename U> static bool at_cas(volatile U* p, U* e, U d, int mo, int fmo, void* pc)
{
    if (!on()) return __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    InRt r;
    uintptr_t a = canon(uintptr_t(p));
    before_load(a, OP_RMW);
    Thr& t = me();
    Loc* l = locs.get(a);
    U o = *p;
    bool ok = o == *e;
    access((void*)p, sizeof(U), ok, true, pc);
    acquire_from(t, l->vc, ok ? mo : fmo);
    if (ok) {
        *p = d;
        if (is_rel(mo)) { vc_join(l->vc, t.vc); t.vc[t.id]++; }
        else if (t.has_relf) vc_join(l->vc, t.relf);
        t.h = mix(mix(t.h, a), mix(l->ver, 5));
        l->ver = t.h;
        if (d != o) { l->valver++; l->writer = 1 + t.id; progress(t); }
    } else {
        t.h = mix(mix(t.h, a), l->ver);
        *e = o;
    }
    return ok;
}

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
 void __tsan_read##n(void* p) { if (on()) access(p, n, false, false, PC); } \
 void __tsan_write##n(void* p) { if (on()) access(p, n, true, false, PC); } \
 void __tsan_unaligned_read##n(void* p) { if (on()) access(p, n, false, false, PC); } \
 void __tsan_unaligned_write##n(void* p) { if (on()) access(p, n, true, false, PC); } \
 void __tsan_volatile_read##n(void* p) { if (on()) access(p, n, false, false, PC); } \
 void __tsan_volatile_write##n(void* p) { if (on()) access(p, n, true, false, PC); } \
 void __tsan_unaligned_volatile_read##n(void* p) { if (on()) access(p, n, false, false, PC); } \
 void __tsan_unaligned_volatile_write##n(void* p) { if (on()) access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (on() && n) access(p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (on() && n) access(p, n, true, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (on() && *p != v) access(p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { if (on()) access(p, 8, false, false, PC); }
#define AT(n, U) \
 U __tsan_atomic##n##_load(const volatile U* p, int mo) { return at_load(const_cast<volatile U*>(p), mo, PC); } \
 void __tsan_atomic##n##_store(volatile U* p, U v, int mo) { at_store(p, v, mo, PC); } \
 U __tsan_atomic##n##_exchange(volatile U* p, U v, int mo) { return at_rmw(p, mo, PC, [v](U){ return v; }); } \
 U __tsan_atomic##n##_fetch_add(volatile U* p, U v, int mo) { return at_rmw(p, mo, PC, [v](U o){ return U(o + v); }); } \
 U __tsan_atomic##n##_fetch_sub(volatile U* p, U v, int mo) { return at_rmw(p, mo, PC, [v](U o){ return U(o - v); }); } \
 U __tsan_atomic##n##_fetch_and(volatile U* p, U v, int mo) { return at_rmw(p, mo, PC, [v](U o){ return U(o & v); }); } \
 U __tsan_atomic##n##_fetch_or(volatile U* p, U v, int mo) { return at_rmw(p, mo, PC, [v](U o){ return U(o | v); }); } \
 U __tsan_atomic##n##_fetch_xor(volatile U* p, U v, int mo) { return at_rmw(p, mo, PC, [v](U o){ return U(o ^ v); }); } \
 U __tsan_atomic##n##_fetch_nand(volatile U* p, U v, int mo) { return at_rmw(p, mo, PC, [v](U o){ return U(~(o & v)); }); } \
 bool __tsan_atomic##n##_compare_exchange_strong(volatile U* p, U* e, U d, int mo, int fmo) { return at_cas(p, e, d, mo, fmo, PC); } \
 bool __tsan_atomic##n##_compare_exchange_weak(volatile U* p, U* e, U d, int mo, int fmo) { return at_cas(p, e, d, mo, fmo, PC); } \
 U __tsan_atomic##n##_compare_exchange_val(volatile U* p, U e, U d, int mo, int fmo) { at_cas(p, &e, d, mo, fmo, PC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    if (!on()) return;
    Thr& t = me();
    if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) vc_join(t.vc, t.acq);
    if (is_rel(mo)) { t.relf = t.vc; t.has_relf = true; t.vc[t.id]++; }
    t.h = mix(t.h, 0xfe + unsigned(mo));
}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------ real functions
template<typename Fn> static Fn real(const char* n) { return reinterpret_cast<Fn>(dlsym(RTLD_NEXT, n)); }

// ------------------------------------------------------------ threads
static void* thread_main(void* p)
{
    Thr& t = *static_cast<Thr*>(p);
    tl_id = t.id;
    tl_in_rt = 1;
    park(t);
    g_cur = t.id;
    tl_in_rt = 0;
    t.ret = t.fn(t.arg);
    tl_in_rt = 1;
    t.finished = true;
    t.vc[t.id]++;
    t.h = mix(t.h, 0xdead);
    int n = pick(t.id, false);
    g_cur = n;
    void* ret = t.ret;
    unpark(T[n]);
    return ret;
}

extern "C" int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    static auto rc = real<int(*)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*)>("pthread_create");
    if (!on()) return rc(out, attr, fn, arg);
    InRt r;
    if (nthr >= MAXT) finish(ST_DIVERGED, "too many threads");
    visible(OP_CREATE, 0);
    Thr& p = me();
    int id = nthr;
    Thr& t = T[id];
    t = Thr{};
    t.id = id; t.used = true; t.fn = fn; t.arg = arg;
    t.vc = p.vc; t.vc[id] = 1;
    p.vc[p.id]++;
    t.h = mix(p.h, 0xc0 + unsigned(id));
    p.h = mix(p.h, 0xc1);
    progress(p);
    t.pk = OP_START;
    t.stk_lo = STACK_BASE + STACK_SZ * size_t(id); t.stk_hi = t.stk_lo + STACK_SZ;
    raw6(SYS_mmap, long(t.stk_lo), long(STACK_SZ), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE, -1, 0);
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)t.stk_lo, STACK_SZ);
    nthr++;
    int e = rc(&t.real, &at, thread_main, &t);
    pthread_attr_destroy(&at);
    if (e) finish(ST_DIVERGED, "pthread_create failed %d", e);
    *out = t.real;
    return 0;
}
static int tid_of(pthread_t p) { for (int i = 1; i < nthr; ++i) if (pthread_equal(T[i].real, p)) return i; return -1; }
extern "C" int pthread_join(pthread_t p, void** ret)
{
    static auto rj = real<int(*)(pthread_t, void**)>("pthread_join");
    if (!on()) return rj(p, ret);
    InRt r;
    int id = tid_of(p);
    if (id < 0) return ESRCH;
    visible(OP_JOIN, 0, uint64_t(id));
    Thr& t = me();
    vc_join(t.vc, T[id].vc);
    t.h = mix(mix(t.h, 0x301), T[id].h);
    progress(t);
    rj(p, ret);
    return 0;
}
extern "C" int pthread_detach(pthread_t p)
{
    static auto rd = real<int(*)(pthread_t)>("pthread_detach");
    return rd(p);
}

// ------------------------------------------------------------ mutexes
static void lock_effect(Thr& t, Mtx* m, bool shared)
{
    if (m->destroyed) finish(ST_VIOLATION, "lock of a destroyed mutex");
    check_addr(m->a, sizeof(pthread_mutex_t), PC);
    if (shared) { m->readers++; vc_join(t.vc, m->vc); }
    else { m->owner = t.id; m->rec = 1; vc_join(t.vc, m->vc); vc_join(t.vc, m->rvc); }
    t.h = mix(mix(t.h, m->a), mix(m->ver, 11));
    m->ver = t.h;
    progress(t);
}
static bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    static auto rf = real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock"); if (!g_active) return rf(m); if (!on()) return 0;
    InRt r;
    Thr& t = me();
    if (t.forbid) finish(ST_VIOLATION, "mutex lock inside %s", t.forbid);
    Mtx* x = mtxs.get(uintptr_t(m));
    if (x->owner == t.id && x->rec > 0) {
        if (is_recursive(m)) { x->rec++; return 0; }
        finish(ST_VIOLATION, "thread %d deadlocks by relocking a mutex it holds", t.id);
    }
    visible(OP_LOCK, uintptr_t(m));
    lock_effect(me(), mtxs.get(uintptr_t(m)), false);
    return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    static auto rf = real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock"); if (!g_active) return rf(m); if (!on()) return 0;
    InRt r;
    visible(OP_TRYLOCK, uintptr_t(m));
    Thr& t = me();
    Mtx* x = mtxs.get(uintptr_t(m));
    if (x->owner == t.id && x->rec > 0 && is_recursive(m)) { x->rec++; return 0; }
    if (!mutex_free(uintptr_t(m), t.id)) {
        t.h = mix(mix(t.h, x->a), mix(x->ver, 12));
        t.yielding = true;
        return EBUSY;
    }
    lock_effect(t, x, false);
    return 0;
}
extern "C" int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) noexcept { return pthread_mutex_lock(m); }
extern "C" int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) noexcept { return pthread_mutex_lock(m); }
static void unlock_effect(Thr& t, Mtx* x, bool shared)
{
    if (shared) { x->readers--; vc_join(x->rvc, t.vc); }
    else { x->owner = -1; x->rec = 0; x->vc = t.vc; }
    t.vc[t.id]++;
    t.h = mix(mix(t.h, x->a), mix(x->ver, 13));
    x->ver = t.h;
    progress(t);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    static auto rf = real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock"); if (!g_active) return rf(m); if (!on()) return 0;
    InRt r;
    Thr& t = me();
    Mtx* x = mtxs.get(uintptr_t(m));
    if (x->rec == 0 || x->owner != t.id) finish(ST_VIOLATION, "thread %d unlocks a mutex it does not hold", t.id);
    if (x->rec > 1) { x->rec--; return 0; }
    visible(OP_UNLOCK, uintptr_t(m));
    unlock_effect(me(), mtxs.get(uintptr_t(m)), false);
    return 0;
}
extern "C" int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept
{
    static auto ri = real<int(*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init");
    int e = ri(m, a);
    if (on()) { InRt r; Mtx* x = mtxs.get(uintptr_t(m)); x->owner = -1; x->rec = 0; x->readers = 0; x->destroyed = false; }
    return e;
}
extern "C" int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
    static auto rf = real<int(*)(pthread_mutex_t*)>("pthread_mutex_destroy"); if (!g_active) return rf(m); if (!on()) return 0;
    InRt r;
    Mtx* x = mtxs.get(uintptr_t(m));
    if (x->rec > 0) finish(ST_VIOLATION, "destroys a locked mutex");
    x->destroyed = true;
    return 0;
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
    static auto rf = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); if (!g_active) return rf(m); if (!on()) return 0;
    InRt r; visible(OP_LOCK, uintptr_t(m)); lock_effect(me(), mtxs.get(uintptr_t(m)), false); return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
    static auto rf = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); if (!g_active) return rf(m); if (!on()) return 0;
    InRt r; visible(OP_RDLOCK, uintptr_t(m)); lock_effect(me(), mtxs.get(uintptr_t(m)), true); return 0;
}
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
    static auto rf = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); if (!g_active) return rf(m); if (!on()) return 0;
    InRt r; visible(OP_UNLOCK, uintptr_t(m));
    Mtx* x = mtxs.get(uintptr_t(m));
    unlock_effect(me(), x, !(x->rec > 0 && x->owner == tl_id));
    return 0;
}

// ------------------------------------------------------------ condition vars
static Cv* cv_get(void* c)
{
    Cv* x = cvs.get(uintptr_t(c));
    if (x->destroyed) finish(ST_VIOLATION, "condition variable used after its destruction");
    check_addr(uintptr_t(c), sizeof(pthread_cond_t), PC);
    return x;
}
static int cv_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    InRt r;
    Thr* t = &me();
    if (t->forbid) finish(ST_VIOLATION, "condition wait inside %s", t->forbid);
    visible(OP_CVWAIT, uintptr_t(c));
    t = &me();
    Cv* x = cv_get(c);
    Mtx* mx = mtxs.get(uintptr_t(m));
    if (mx->rec == 0 || mx->owner != t->id) finish(ST_VIOLATION, "condition wait without holding the mutex");
    unlock_effect(*t, mx, false);
    t->h = mix(mix(t->h, x->a), mix(x->ver, 21));
    x->ver = t->h;
    t->signalled = t->timedout = t->spurious_wake = false;
    t->timed = timed;
    t->pm = uintptr_t(m);
    visible(OP_CVWAKE, uintptr_t(c));
    t = &me();
    bool to = t->timedout && !t->signalled;
    t->h = mix(t->h, (t->spurious_wake && !t->signalled) ? 33 : to ? 34 : 35);
    t->signalled = t->timedout = t->spurious_wake = t->timed = false;
    lock_effect(*t, mtxs.get(uintptr_t(m)), false);
    return to ? ETIMEDOUT : 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { static auto rf = real<int(*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); if (!g_active) return rf(c, m); if (!on()) return 0; return cv_wait(c, m, false); }
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { static auto rf = real<int(*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait"); if (!g_active) return rf(c, m, ts); if (!on()) return 0; return cv_wait(c, m, true); }
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) { static auto rf = real<int(*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait"); if (!g_active) return rf(c, m, k, ts); if (!on()) return 0; return cv_wait(c, m, true); }
static int cv_signal(pthread_cond_t* c, bool all)
{
    InRt r;
    visible(OP_CVSIGNAL, uintptr_t(c));
    Thr& t = me();
    Cv* x = cv_get(c);
    int w[MAXT], n = 0;
    for (int i = 0; i < nthr; ++i)
        if (T[i].used && !T[i].finished && T[i].pk == OP_CVWAKE && T[i].pa == uintptr_t(c) && !T[i].signalled) w[n++] = i;
    if (n) {
        if (all) for (int i = 0; i < n; ++i) T[w[i]].signalled = true;
        else T[w[n > 1 ? mc::choose(n) : 0]].signalled = true;
    }
    t.h = mix(mix(t.h, x->a), mix(x->ver, 22));
    x->ver = t.h;
    progress(t);
    return 0;
}
extern "C" int pthread_cond_signal(pthread_cond_t* c) noexcept { static auto rf = real<int(*)(pthread_cond_t*)>("pthread_cond_signal"); if (!g_active) return rf(c); if (!on()) return 0; return cv_signal(c, false); }
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) noexcept { static auto rf = real<int(*)(pthread_cond_t*)>("pthread_cond_broadcast"); if (!g_active) return rf(c); if (!on()) return 0; return cv_signal(c, true); }
extern "C" int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept
{
    static auto ri = real<int(*)(pthread_cond_t*, const pthread_condattr_t*)>("pthread_cond_init");
    int e = ri(c, a);
    if (on()) { InRt r; cvs.get(uintptr_t(c))->destroyed = false; }
    return e;
}
// std::condition_variable is statically initialised (no init event), so its
// out-of-line constructor is interposed to learn about re-creation.
static void cv_ctor(void* p)
{
    memset(p, 0, sizeof(pthread_cond_t));
    if (on()) { InRt r; cvs.get(uintptr_t(p))->destroyed = false; access(p, sizeof(pthread_cond_t), true, false, PC); }
}
extern "C" void _ZNSt18condition_variableC1Ev(void* p) { cv_ctor(p); }
extern "C" void _ZNSt18condition_variableC2Ev(void* p) { cv_ctor(p); }
extern "C" int pthread_cond_destroy(pthread_cond_t* c) noexcept
{
    static auto rf = real<int(*)(pthread_cond_t*)>("pthread_cond_destroy"); if (!g_active) return rf(c); if (!on()) return 0;
    InRt r;
    Thr& t = me();
    for (int i = 0; i < nthr; ++i)
        if (T[i].used && !T[i].finished && T[i].pk == OP_CVWAKE && T[i].pa == uintptr_t(c) && i != t.id)
            finish(ST_VIOLATION, "condition variable destroyed while thread %d waits on it", i);
    Cv* x = cvs.get(uintptr_t(c));
    x->destroyed = true;
    // destruction conflicts with any concurrent use (modelled as a write)
    access(c, sizeof *c, true, false, PC);
    return 0;
}

// ------------------------------------------------------------ yields, sleeps
static int yield_op()
{
    InRt r;
    Thr& t = me();
    t.yielding = true;
    visible(OP_YIELD, 0);
    me().h = mix(me().h, 0x77);
    return 0;
}
extern "C" int sched_yield() noexcept { if (!on()) return int(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0)); return yield_op(); }
extern "C" int nanosleep(const timespec* a, timespec* b)
{
    if (!on()) return g_warm ? 0 : int(raw6(SYS_nanosleep, long(a), long(b), 0, 0, 0, 0));
    if (me().forbid) finish(ST_VIOLATION, "sleep inside %s", me().forbid);
    return yield_op();
}
extern "C" int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b)
{
    if (!on()) return g_warm ? 0 : int(-raw6(SYS_clock_nanosleep, c, f, long(a), long(b), 0, 0));
    if (me().forbid) finish(ST_VIOLATION, "sleep inside %s", me().forbid);
    return yield_op();
}
extern "C" int usleep(useconds_t us) { if (!on()) { timespec ts{time_t(us / 1000000), long(us % 1000000) * 1000}; return int(raw6(SYS_nanosleep, long(&ts), 0, 0, 0, 0, 0)); } if (me().forbid) finish(ST_VIOLATION, "sleep inside %s", me().forbid); return yield_op(); }

// ------------------------------------------------------------ futex
extern "C" long syscall(long n, ...) noexcept
{
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (on() && me().forbid) finish(ST_VIOLATION, "system call %ld inside %s", n, me().forbid);
    if (n != SYS_futex || !on()) {
        long r = raw6(n, a, b, c, d, e, f);
        if (r < 0 && r > -4096) { errno = int(-r); return -1; }
        return r;
    }
    InRt r;
    int op = int(b) & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        visible(OP_CVWAIT, uintptr_t(a));
        Thr* t = &me();
        if (*(volatile int*)a != int(c)) { errno = EAGAIN; return -1; }
        t->signalled = t->timedout = false;
        t->timed = d != 0;
        visible(OP_FUTEXWAIT, uintptr_t(a));
        t = &me();
        bool to = t->timedout && !t->signalled;
        t->signalled = t->timedout = t->timed = false;
        progress(*t);
        t->h = mix(t->h, to ? 45 : 46);
        if (to) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        visible(OP_FUTEXWAKE, uintptr_t(a));
        int k = 0;
        for (int i = 0; i < nthr && k < int(c); ++i)
            if (T[i].used && !T[i].finished && T[i].pk == OP_FUTEXWAIT && T[i].pa == uintptr_t(a) && !T[i].signalled) { T[i].signalled = true; ++k; }
        me().h = mix(me().h, 47);
        progress(me());
        return k;
    }
    finish(ST_DIVERGED, "unsupported futex op %d", op);
}

// ------------------------------------------------------------ memory
static void* arena_alloc(size_t n, size_t al)
{
    Thr& t = me();
    size_t o = (t.arena_off + 15 + 16) & ~size_t(15); // 16-byte gap between blocks
    if (al > 16) o = (o + al - 1) & ~(al - 1);
    size_t end = (o + n + 15) & ~size_t(15);
    if (end > ARENA_SZ) finish(ST_DIVERGED, "arena exhausted");
    t.arena_off = end;
    uintptr_t p = ARENA_BASE + ARENA_SZ * size_t(t.id) + o;
    *(size_t*)(p - 16) = n;
    size_t i = (p - ARENA_BASE) >> 4, j = (p + (n ? n : 1) - 1 - ARENA_BASE) >> 4;
    memset(arena_state + i, 1, j - i + 1);
    return (void*)p;
}
static void* my_new(size_t n, size_t al = 16)
{
    if (on()) {
        InRt r;
        Thr& t = me();
        if (t.forbid) finish(ST_VIOLATION, "memory allocation inside %s", t.forbid);
        t.allocs++;
        return arena_alloc(n, al);
    }
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1)) : malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
static void my_delete(void* p, void* pc)
{
    if (!p) return;
    uintptr_t a = uintptr_t(p);
    if (a >= ARENA_BASE && a < ARENA_BASE + ARENA_SZ * MAXT) {
        if (!on()) return;
        InRt r;
        size_t n = *(size_t*)(a - 16);
        if (arena_state[(a - ARENA_BASE) >> 4] == 2) finish(ST_VIOLATION, "double free");
        if (n) access(p, n, true, false, pc);
        size_t i = (a - ARENA_BASE) >> 4, j = (a + (n ? n : 1) - 1 - ARENA_BASE) >> 4;
        memset(arena_state + i, 2, j - i + 1);
        memset(p, 0xdd, n);
        return;
    }
    if (g_active) return; // allocated before the fork: leak
    free(p);
}
void* operator new(size_t n) { return my_new(n); }
void* operator new[](size_t n) { return my_new(n); }
void* operator new(size_t n, std::align_val_t a) { return my_new(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return my_new(n, size_t(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return my_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return my_new(n); }
void operator delete(void* p) noexcept { my_delete(p, PC); }
void operator delete[](void* p) noexcept { my_delete(p, PC); }
void operator delete(void* p, size_t) noexcept { my_delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { my_delete(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { my_delete(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { my_delete(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { my_delete(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { my_delete(p, PC); }

extern "C" void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) noexcept
{
    if (on() && me().forbid) finish(ST_VIOLATION, "mmap inside %s", me().forbid);
    if (on()) {
        if (flags & MAP_SHARED) segs_dirty = true;
        if (!addr && !(flags & MAP_FIXED)) {
            Thr& t = me();
            size_t l = (len + 4095) & ~size_t(4095);
            uintptr_t h = MMAP_BASE + MMAP_SZ * size_t(t.id) + t.mmap_off;
            t.mmap_off += l + 4096;
            addr = (void*)h;
        }
    }
    long r = raw6(SYS_mmap, long(addr), long(len), prot, flags, fd, off);
    if (r < 0 && r > -4096) { errno = int(-r); return MAP_FAILED; }
    return (void*)r;
}
extern "C" void* mmap64(void* addr, size_t len, int prot, int flags, int fd, off_t off) noexcept { return mmap(addr, len, prot, flags, fd, off); }
extern "C" void* mremap(void* a, size_t o, size_t n, int flags, ...) noexcept
{
    va_list ap; va_start(ap, flags); void* na = va_arg(ap, void*); va_end(ap);
    if (on()) segs_dirty = true;
    long r = raw6(SYS_mremap, long(a), long(o), long(n), flags, long(na), 0);
    if (r < 0 && r > -4096) { errno = int(-r); return MAP_FAILED; }
    return (void*)r;
}
extern "C" int munmap(void* a, size_t n) noexcept
{
    if (on()) segs_dirty = true;
    long r = raw6(SYS_munmap, long(a), long(n), 0, 0, 0, 0);
    if (r < 0) { errno = int(-r); return -1; }
    return 0;
}

extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
extern "C" void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (n && on()) { access((void*)s, n, false, false, PC); access(d, n, true, false, PC); }
    return __real_memcpy(d, s, n);
}
extern "C" void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (n && on()) { access((void*)s, n, false, false, PC); access(d, n, true, false, PC); }
    return __real_memmove(d, s, n);
}
extern "C" void* __wrap_memset(void* d, int c, size_t n)
{
    if (n && on()) access(d, n, true, false, PC);
    return __real_memset(d, c, n);
}

// ------------------------------------------------------------ API
namespace mc {
static bool g_oracle = true;
void oracle(bool on) { g_oracle = on; }
void fail(const char* fmt, ...) { if (!g_oracle) finish(ST_OK, nullptr); va_list ap; va_start(ap, fmt); finish_v(ST_VIOLATION, fmt, ap); }
void outcome(const std::string& s)
{
    InRt r;
    size_t n = std::min(s.size(), sizeof R->out - R->outlen - 2);
    memcpy(R->out + R->outlen, s.data(), n);
    R->outlen += uint32_t(n);
    R->out[R->outlen++] = '|';
}
int choose(int n, int cost)
{
    if (!g_active || tl_id < 0) return 0;
    InRt r;
    Thr& t = me();
    uint64_t hh = mix(state_hash(t.id, true), 0xc400 + unsigned(n));
    int c = choice(n, cost ? uint16_t(0xfffe) : 0, hh);
    t.h = mix(t.h, 0xc00 + unsigned(c));
    if (g_trace) fprintf(stderr, "  [T%d] choose %d/%d\n", t.id, c, n);
    return c;
}
void point() { if (!on()) return; InRt r; visible(OP_YIELD, 0); me().h = mix(me().h, 0x78); }
uint64_t var_load(uint64_t* p) { return at_load((volatile uint64_t*)p, __ATOMIC_SEQ_CST, PC); }
void var_store(uint64_t* p, uint64_t v) { at_store((volatile uint64_t*)p, v, __ATOMIC_SEQ_CST, PC); }
void var_wait_ge(uint64_t* p, uint64_t v)
{
    if (!on()) return;
    InRt r;
    visible(OP_VWAIT, uintptr_t(p), v);
    Thr& t = me();
    Loc* l = locs.get(uintptr_t(p));
    vc_join(t.vc, l->vc);
    t.h = mix(mix(t.h, uintptr_t(p)), mix(l->ver, 31));
    progress(t);
}
void on_abort(void (*fn)()) { g_on_abort = fn; }
void done() { finish(ST_OK, nullptr); }
int tid() { return tl_id; }
uint64_t my_steps() { return me().steps; }
uint64_t total_steps() { uint64_t s = 0; for (int i = 0; i < nthr; ++i) s += T[i].steps; return s; }
void forbid_blocking(const char* l) { if (tl_id >= 0) { me().forbid = l; me().nspin = 0; me().spin_overflow = false; } }
bool active() { return g_active; }
uint64_t my_allocs() { return me().allocs; }
// The end of the set-up: a thread that went round a loop without finding anything
// to do may be anywhere in it. Where it is, is one more choice (other than the
// place where it was found to be looping: a deviation).
void quiet(bool on_)
{
    g_quiet = on_;
    if (on_ || !on()) return;
    InRt r;
    for (int i = 0; i < nthr; ++i) {
        Thr& t = T[i];
        if (i == tl_id || !t.used || t.finished || !t.spinblocked || loc_changed(t)) continue;
        int at = 0, pos[16], n = 0;
        for (int j = 0; j < t.nspin; ++j) if (t.spin[j].a == t.pa) at = j;
        for (int k = 1; k < t.nspin && n < 15; ++k) {
            Loc* l = locs.find(t.spin[(at + k) % t.nspin].a);
            if (l && l->writer == 1 + i) continue; // nobody else writes it: same as the next place
            pos[n++] = k;
        }
        int c = choose(n + 1, 1);
        if (!c) continue;
        t.spinblocked = false; t.nspin = 0; t.spin_overflow = false; t.hold_in = pos[c - 1];
        g_quiet = true;
        visible(OP_HOLDWAIT, 0, uint64_t(i));
        g_quiet = false;
        t.held = false; t.hold_in = 0; t.nspin = 0; t.spin_overflow = false;
    }
}
void wait_quiescent()
{
    if (!on()) return;
    InRt r;
    visible(OP_QUIESCE, 0);
    // everything that ran before is observed by the oracle
    Thr& t = me();
    for (int i = 0; i < nthr; ++i) { vc_join(t.vc, T[i].vc); if (i != t.id) t.h = mix(t.h, T[i].h); }
    for (int i = 0; i < nthr; ++i) if (i != t.id) T[i].vc[i]++;
    progress(t);
}
void exempt(const void* p, size_t n)
{
    InRt r;
    uintptr_t a = uintptr_t(p) & ~uintptr_t(7), e = uintptr_t(p) + n;
    for (; a < e; a += 8) cell(a)->exempt = 1;
}
}

// ------------------------------------------------------------ local statics
// byte 0: initialised, byte 1: in progress
extern "C" int __cxa_guard_acquire(long long* g)
{
    volatile uint8_t* b = (volatile uint8_t*)g;
    if (!on()) { if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0; b[1] = 1; return 1; }
    for (;;) {
        if (at_load(b, __ATOMIC_ACQUIRE, PC)) return 0;
        uint8_t o = at_rmw(b + 1, __ATOMIC_ACQ_REL, PC, [](uint8_t) { return uint8_t(1); });
        if (!o) return 1;
        sched_yield();
    }
}
extern "C" void __cxa_guard_release(long long* g)
{
    volatile uint8_t* b = (volatile uint8_t*)g;
    if (!on()) { b[1] = 0; __atomic_store_n(b, uint8_t(1), __ATOMIC_RELEASE); return; }
    at_store(b, uint8_t(1), __ATOMIC_RELEASE, PC);
    at_store(b + 1, uint8_t(0), __ATOMIC_RELEASE, PC);
}
extern "C" void __cxa_guard_abort(long long* g)
{
    volatile uint8_t* b = (volatile uint8_t*)g;
    if (!on()) { b[1] = 0; return; }
    at_store(b + 1, uint8_t(0), __ATOMIC_RELEASE, PC);
}

// ------------------------------------------------------------ one execution
static void crash_handler(int sig, siginfo_t* si, void*)
{
    if (!g_active) _exit(99);
    if (sig == SIGABRT && g_on_abort) {
        auto f = g_on_abort; g_on_abort = nullptr;
        f();
        finish(ST_OK, nullptr);
    }
    if (sig == SIGABRT) finish(ST_VIOLATION, "abort()/std::terminate in thread %d", tl_id);
    finish(ST_VIOLATION, "%s at address %p in thread %d", sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : "SIGILL", si->si_addr, tl_id);
}

static const mc::Scenario* g_sc;
[[noreturn]] static void child_run(const std::vector<Dev>& devs, uint32_t prefix_len, int alarm_s)
{
    for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) {
        struct sigaction sa{}; sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
        sigaction(sig, &sa, nullptr);
    }
    alarm(unsigned(alarm_s));
    g_devs = const_cast<std::vector<Dev>*>(&devs);
    g_devi = 0; g_prefix_len = prefix_len;
    R->status = ST_NONE; R->npts = 0; R->steps = 0; R->new_states = 0; R->cost = 0; R->msg[0] = 0; R->outlen = 0;
    nthr = 1;
    T[0] = Thr{};
    T[0].id = 0; T[0].used = true; T[0].vc[0] = 1; T[0].h = 0x1234;
    tl_id = 0;
    g_cur = 0;
    // run the scenario on a fixed stack so that addresses are deterministic
    raw6(SYS_mmap, long(STACK_BASE), long(STACK_SZ), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE, -1, 0);
    static ucontext_t uc, back;
    getcontext(&uc);
    uc.uc_stack.ss_sp = (void*)STACK_BASE; uc.uc_stack.ss_size = STACK_SZ; uc.uc_link = nullptr;
    makecontext(&uc, +[] { g_active = true; g_sc->fn(); finish(ST_OK, nullptr); }, 0);
    swapcontext(&back, &uc);
    _exit(98);
}

static void lock() { while (S->lock.exchange(1, std::memory_order_acquire)) sched_yield(); }
static void unlock() { S->lock.store(0, std::memory_order_release); }

static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

static void build_devs(uint32_t node, std::vector<Dev>& d)
{
    d.clear();
    for (uint32_t n = node; n != 0; n = nodes[n].parent) d.push_back(Dev{nodes[n].pos, nodes[n].hash, nodes[n].alt});
    std::reverse(d.begin(), d.end());
}

static int run_child(const std::vector<Dev>& d, uint32_t prefix_len, int alarm_s, bool cache)
{
    R->status = ST_NONE;
    bool uc = g_use_cache; g_use_cache = cache;
    pid_t p = fork();
    if (p == 0) child_run(d, prefix_len, alarm_s);
    g_use_cache = uc;
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) && R->status == ST_NONE) {
        if (WTERMSIG(st) == SIGALRM) { R->status = ST_VIOLATION; snprintf(R->msg, sizeof R->msg, "execution hangs (no visible step for %d s)", alarm_s); return 2; }
        R->status = ST_VIOLATION;
        snprintf(R->msg, sizeof R->msg, "killed by signal %d", WTERMSIG(st));
    } else if (R->status == ST_NONE) {
        R->status = ST_VIOLATION;
        snprintf(R->msg, sizeof R->msg, "process exited unexpectedly (status %d)", WEXITSTATUS(st));
    }
    return 0;
}

static void worker(int w)
{
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    cpu_set_t all, one;
    if (sched_getaffinity(0, sizeof all, &all) == 0) {
        int k = w % std::max(1, CPU_COUNT(&all));
        for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &all) && k-- == 0) {
            CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break;
        }
    }
    std::vector<Dev> devs;
    devs.reserve(4096);
    for (;;) {
        if (S->stop.load()) return;
        lock();
        uint32_t n = NIL; int cost = 0;
        for (int c = 0; c < MAXCOST && n == NIL; ++c) if (S->head[c] != NIL) { n = S->head[c]; S->head[c] = nodes[n].next; cost = c; }
        if (n == NIL) {
            bool idle = true;
            for (int c = 0; c < MAXCOST; ++c) if (S->active_by_cost[c]) idle = false;
            unlock();
            if (idle) return;
            usleep(200);
            continue;
        }
        S->active_by_cost[cost]++;
        unlock();
        build_devs(n, devs);
        uint32_t plen = n == 0 ? 0 : devs.back().pos + 1;
        int hang = run_child(devs, plen, 10, true);
        uint64_t exec_steps = R->steps;
        if (R->status == ST_VIOLATION) {
            // confirm: replay twice without the cache, deterministic outcome required
            // (complete schedule = choices taken by this execution)
            std::vector<Dev> full;
            for (uint32_t i = 0; i < R->npts; ++i) if (R->pts[i].chosen) full.push_back(Dev{i, R->pts[i].hash, R->pts[i].chosen});
            char msg[4096]; snprintf(msg, sizeof msg, "%s", R->msg);
            bool ok = true;
            for (int k = 0; k < 2 && ok; ++k) {
                run_child(hang ? devs : full, MAXPTS, hang ? 40 : 60, false);
                if (R->status != ST_VIOLATION || (!hang && strcmp(R->msg, msg) != 0)) ok = false;
                if (hang && ok) snprintf(msg, sizeof msg, "%s", R->msg), k = 2;
            }
            lock();
            S->execs++;
            if (ok) {
                if (!S->violated) { S->violated = 1; S->vnode = n; S->vcost = cost; snprintf(S->vmsg, sizeof S->vmsg, "%s", msg); }
                S->stop.store(1);
            } else { S->unconfirmed++; if (getenv("MC_VERBOSE")) fprintf(stderr, "unconfirmed: %s / %s\n", msg, R->msg); }
            S->active_by_cost[cost]--;
            unlock();
            continue;
        }
        lock();
        S->execs++; S->execs_by_cost[cost]++;
        S->steps += exec_steps;
        S->states += R->new_states;
        S->maxpts = std::max(S->maxpts, R->npts);
        if (R->status == ST_PRUNED) S->pruned++;
        if (R->status == ST_DIVERGED) { S->diverged++; if (getenv("MC_VERBOSE")) fprintf(stderr, "diverged: %s\n", R->msg); }
        else {
            int run = cost;
            for (uint32_t i = plen; i < R->npts; ++i) {
                const Pt& p = R->pts[i];
                for (int j = 1; j < p.n; ++j) {
                    int c = run + ((p.cost1 >> j) & 1);
                    if (c > g_bound || c >= MAXCOST) continue;
                    uint32_t id = S->nnodes.fetch_add(1);
                    if (id >= NODE_CAP) { S->capped_pts++; S->nnodes.store(NODE_CAP); continue; }
                    nodes[id] = Node{n, i, p.hash, S->head[c], uint8_t(j), uint8_t(c)};
                    S->head[c] = id;
                    S->branches++;
                }
            }
            if (R->status == ST_OK) {
                uint64_t h = 1469598103934665603ull;
                for (uint32_t i = 0; i < R->outlen; ++i) h = (h ^ uint8_t(R->out[i])) * 1099511628211ull;
                bool seen = false;
                for (uint64_t i = 0; i < S->nout && i < 4096; ++i) if (S->outh[i] == h) { seen = true; break; }
                if (!seen) {
                    if (S->nout < 4096) S->outh[S->nout] = h;
                    S->nout++;
                    if (S->nsamples < 6) {
                        char* s = S->samples[S->nsamples++]; int k = 0;
                        k += snprintf(s, 600, "deviations=[");
                        for (size_t i = 0; i < devs.size() && k < 300; ++i) k += snprintf(s + k, size_t(600 - k), "%s@%u->%d", i ? " " : "", devs[i].pos, devs[i].alt);
                        R->out[std::min<uint32_t>(R->outlen, 240)] = 0;
                        for (char* q = R->out; *q; ++q) if (*q == '\n' || *q == '"' || *q == '\\' || (unsigned char)*q < 32 || (unsigned char)*q > 126) *q = ' ';
                        snprintf(s + k, size_t(600 - k), "] outcome=%s", R->out);
                    }
                }
            }
        }
        S->active_by_cost[cost]--;
        unlock();
    }
}

static void reset_shared()
{
    size_t ssz = sizeof(Shared);
    static bool first = true;
    if (!first) { munmap(S, ssz); munmap(nodes, sizeof(Node) * size_t(NODE_CAP)); munmap(vt_key, VT_CAP * 8); munmap(vt_bud, VT_CAP); }
    first = false;
    auto mm = [](size_t n) { return mmap(nullptr, n, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); };
    S = new (mm(ssz)) Shared();
    nodes = (Node*)mm(sizeof(Node) * size_t(NODE_CAP));
    vt_key = (std::atomic<uint64_t>*)mm(VT_CAP * 8);
    vt_bud = (std::atomic<uint8_t>*)mm(VT_CAP);
    for (auto& h : S->head) h = NIL;
    S->head[0] = 0; nodes[0] = Node{0, 0, 0, NIL, 0, 0};
    S->nnodes = 1;
}

static std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}

namespace mc {
static void (*g_warmup)() = nullptr;
void warmup(void (*fn)()) { g_warmup = fn; }
int main_(int argc, char** argv, const char* property, const char* rule, const std::vector<Scenario>& scs, const std::vector<std::string>& assumptions)
{
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1 && !getenv("MC_NOREEXEC")) {
        setenv("MC_NOREEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    std::string tier = "quick", only, replay, out = "", rdir = "replays";
    int workers = 8, force_bound = -1; double scale = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = nx();
        else if (a == "--only") only = nx();
        else if (a == "--replay") replay = nx();
        else if (a == "--out") out = nx();
        else if (a == "--replay-dir") rdir = nx();
        else if (a == "--workers") workers = atoi(nx().c_str());
        else if (a == "--bound") force_bound = atoi(nx().c_str());
        else if (a == "--scale") scale = atof(nx().c_str());
        else if (a == "--trace") g_trace = true;
    }
    shadow = (Cell*)mmap(nullptr, sizeof(Cell) * SH_CAP, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    arena_state = (uint8_t*)mmap(nullptr, ARENA_SZ * MAXT / 16, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (mmap((void*)ARENA_BASE, ARENA_SZ * MAXT, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED, -1, 0) == MAP_FAILED) { perror("arena"); return 3; }
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);

    if (!replay.empty()) {
        if (g_warmup) { g_warm = true; g_warmup(); g_warm = false; }
        FILE* f = fopen(replay.c_str(), "r");
        if (!f) { perror("replay"); return 3; }
        char name[256]; int bound, spur; unsigned n;
        if (fscanf(f, "property %*s scenario %255s bound %d spurious %d devs %u", name, &bound, &spur, &n) != 4) return 3;
        std::vector<Dev> d;
        for (unsigned i = 0; i < n; ++i) { unsigned p, h, a; if (fscanf(f, "%u %u %u", &p, &h, &a) != 3) return 3; d.push_back(Dev{p, h, uint8_t(a)}); }
        fclose(f);
        for (auto& s : scs) if (s.name == std::string(name)) {
            g_sc = &s; g_bound = bound; g_spurious = spur; g_use_cache = false;
            run_child(d, MAXPTS, 120, false);
            printf("replay %s: %s %s\n", name, R->status == ST_VIOLATION ? "VIOLATION" : R->status == ST_OK ? "ok" : "diverged/pruned", R->msg);
            return R->status == ST_VIOLATION ? 1 : 0;
        }
        return 3;
    }

    if (g_warmup) { g_warm = true; g_warmup(); g_warm = false; }
    double t0 = now_s();
    std::string js = "[";
    uint64_t execs = 0, states = 0, steps = 0, outcomes = 0, diverged = 0, branches = 0;
    bool exhaustive = true, violated = false;
    std::vector<std::string> samples;
    for (auto& s : scs) {
        if (!only.empty() && only != s.name) continue;
        if (s.thorough_only && tier == "quick" && only.empty()) continue;
        g_sc = &s;
        g_bound = tier == "quick" ? s.bound_quick : s.bound_thorough;
        if (force_bound >= 0) g_bound = force_bound;
        g_spurious = s.spurious;
        double budget = (tier == "quick" ? s.budget_quick : s.budget_thorough) * scale;
        reset_shared();
        double t1 = now_s();
        std::vector<pid_t> pids;
        fflush(stdout); fflush(stderr);
        for (int w = 0; w < workers; ++w) {
            pid_t p = fork();
            if (p == 0) {
                if (!g_trace && !getenv("MC_VERBOSE")) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
                worker(w); _exit(0);
            }
            pids.push_back(p);
        }
        bool capped = false;
        size_t left = pids.size();
        bool werr = false;
        int bound_done = -1;
        while (left) {
            int st; pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0) { --left; if (!WIFEXITED(st) || WEXITSTATUS(st)) { werr = true; S->stop.store(1); } continue; }
            if (now_s() - t1 > budget && !S->stop.load()) {
                capped = true;
                lock();
                bound_done = g_bound;
                for (int c = 0; c < MAXCOST; ++c) if (S->head[c] != NIL || S->active_by_cost[c]) { bound_done = c - 1; break; }
                unlock();
                S->stop.store(1);
            }
            usleep(2000);
        }
        if (!capped) bound_done = g_bound;
        double dt = now_s() - t1;
        bool full = !capped && !S->violated && !werr && !S->diverged && !S->unconfirmed && !S->capped_pts && !S->table_full;
        char line[1024];
        snprintf(line, sizeof line,
            "{\"scenario\":\"%s\",\"deviation_bound\":%d,\"bound_completed\":%d,\"exhaustive_within_bound\":%s,\"executions\":%llu,\"pruned_by_state_cache\":%llu,\"distinct_states\":%llu,\"visible_steps\":%llu,\"branches\":%llu,\"distinct_outcomes\":%llu,\"max_choice_points\":%u,\"diverged\":%llu,\"unconfirmed\":%llu,\"wall_s\":%.2f}",
            s.name, g_bound, bound_done, full ? "true" : "false", (unsigned long long)S->execs, (unsigned long long)S->pruned,
            (unsigned long long)S->states, (unsigned long long)S->steps, (unsigned long long)S->branches, (unsigned long long)S->nout, S->maxpts,
            (unsigned long long)S->diverged, (unsigned long long)S->unconfirmed, dt);
        printf("%s\n", line); fflush(stdout);
        if (js.size() > 1) js += ",";
        js += line;
        execs += S->execs; states += S->states; steps += S->steps; outcomes += S->nout; diverged += S->diverged; branches += S->branches;
        if (!full) exhaustive = false;
        for (int i = 0; i < S->nsamples && i < 2; ++i) samples.push_back(std::string(s.name) + ": " + S->samples[i]);
        if (werr) { fprintf(stderr, "worker failed\n"); }
        if (S->violated) {
            violated = true;
            // minimise: keep deviation list of the node, but record the full schedule
            std::vector<Dev> d; build_devs(S->vnode, d);
            mkdir(rdir.c_str(), 0777);
            std::string path = rdir + "/" + property + "-" + s.name + ".replay";
            FILE* f = fopen(path.c_str(), "w");
            if (f) {
                fprintf(f, "property %s scenario %s bound %d spurious %d devs %zu\n", property, s.name, g_bound, int(g_spurious), d.size());
                for (auto& x : d) fprintf(f, "%u %u %u\n", x.pos, x.hash, x.alt);
                fprintf(f, "# %s\n# replay: run the check binary with --replay <this file> --trace\n", S->vmsg);
                fclose(f);
            }
            printf("scenario %s: %s\n", s.name, S->vmsg);
            printf("VIOLATION property=%s replay=%s\n", property, path.c_str());
            break;
        }
    }
    js += "]";
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        if (f) {
            fprintf(f, "{\"scenarios\":%s,\n\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"branches\":%llu,\"distinct_outcomes\":%llu,\"exhaustive\":%s,\"diverged\":%llu,\"violations\":%d,\"wall_s\":%.2f,\n\"rule\":\"%s\",\n\"samples\":[",
                js.c_str(), (unsigned long long)execs, (unsigned long long)states, (unsigned long long)steps, (unsigned long long)branches, (unsigned long long)outcomes,
                exhaustive ? "true" : "false", (unsigned long long)diverged, violated ? 1 : 0, now_s() - t0, jesc(rule).c_str());
            for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
            fprintf(f, "],\n\"assumptions\":[");
            for (size_t i = 0; i < assumptions.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(assumptions[i]).c_str());
            fprintf(f, "]}\n");
            fclose(f);
        }
    }
    return violated ? 1 : 0;
}
}
