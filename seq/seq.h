// Engine B: exhaustive enumeration of choice trees on the real code.
// A scenario is a function that runs one history and asks choose(n) whenever the
// environment (the user, the operating system, a peer) has n possibilities. The
// engine visits every path of the resulting tree, sharded over worker processes.
// A failing path (oracle, sanitizer, crash, hang) is confirmed by running it
// again in fresh processes before it is reported, alone or after the paths that
// preceded it in its process.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <atomic>
#include <set>
#include <functional>
#include <errno.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

namespace seq {

constexpr int MAXP = 400;
struct Path { uint16_t n; uint16_t c[MAXP]; };
struct Scenario { const char* name; void (*fn)(); int thorough_only = 0; };
struct Options { int workers = 8; int timeout_s = 60; bool fork_each = false; int budget_quick = 240; int budget_thorough = 1500; };

constexpr size_t QCAP = 20000, OCAP = 1 << 21, NSAMPLE = 12;
struct Worker { std::atomic<int> busy; std::atomic<long> started; Path cur; char trace[600]; };
struct Shm {
    std::atomic<int> lock; std::atomic<int> stop; std::atomic<int> idle; std::atomic<uint64_t> qn;
    std::atomic<uint64_t> execs, nodes, steps, outcomes, dropped_outcomes;
    std::atomic<int> maxdepth;
    std::atomic<int> failed; int failed_worker;
    char msg[2000];
    std::atomic<uint32_t> known_hit;
    std::atomic<int> nsample; char sample[NSAMPLE][200];
    Worker w[16];
    Path q[QCAP];
    std::atomic<uint64_t> oset[OCAP];
};
inline Shm* S;
// The paths a worker has run in its process so far: a failure may need what earlier histories left
// behind in the process (static state), so it is confirmed by running them all again.
constexpr size_t LCAP = 1 << 24;
struct Log { uint64_t n; bool full; uint16_t d[LCAP]; };
inline Log* LG;
inline int W = -1;                 // worker index
inline Path cur, want;             // executed path; prescribed prefix
inline uint16_t width[MAXP];
inline int pos;
inline std::string outc, tracebuf;
inline bool in_exec = false, g_thorough = false, replaying = false;
inline std::vector<std::string> known_keys;
inline const char* scratch_dir() { const char* s = getenv("SCRATCH_DIR"); return s ? s : "/tmp"; }
inline bool thorough() { return g_thorough; }

inline void die(int code) { syscall(SYS_exit_group, code); __builtin_unreachable(); }
inline void vfail(const char* fmt, va_list ap)
{
    int z = 0;
    if (S->failed.compare_exchange_strong(z, 1)) {
        vsnprintf(S->msg, sizeof S->msg, fmt, ap);
        S->failed_worker = W;
        S->failed = 2;
    }
    die(42);
}
[[noreturn]] inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void fail(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(fmt, ap); va_end(ap); __builtin_unreachable(); }
// True if the failure identified by key is a listed known finding.
inline bool known(const char* key)
{
    for (size_t i = 0; i < known_keys.size(); ++i) if (known_keys[i] == key) { S->known_hit.fetch_or(1u << i); return true; }
    return false;
}
inline int choose(int n)
{
    if (n <= 1) return 0;
    if (pos >= MAXP) fail("history longer than %d choices", MAXP);
    int c = 0;
    if (pos < want.n) { c = want.c[pos]; if (c >= n) fail("nondeterministic history (choice %d of %d at %d)", c, n, pos); }
    cur.c[pos] = uint16_t(c); width[pos] = uint16_t(n);
    if (W >= 0) { S->w[W].cur.c[pos] = uint16_t(c); S->w[W].cur.n = uint16_t(pos + 1); }
    ++pos; cur.n = uint16_t(pos);
    return c;
}
inline bool flip() { return choose(2) != 0; }
template<typename T> const T& pick(const std::vector<T>& v) { return v[size_t(choose(int(v.size())))]; }
template<typename T, size_t N> const T& pick(const T (&v)[N]) { return v[size_t(choose(int(N)))]; }
inline void outcome(const std::string& s) { outc += s; outc += ';'; }
// free-text description of the history, kept for reports
inline void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char* fmt, ...)
{
    char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    tracebuf += b; tracebuf += ' ';
    if (replaying) { fprintf(stderr, "  %s\n", b); }
    if (W >= 0) { strncpy(S->w[W].trace, tracebuf.size() > 599 ? tracebuf.c_str() + tracebuf.size() - 599 : tracebuf.c_str(), 599); }
}
inline uint64_t fnv(const std::string& s) { uint64_t h = 1469598103934665603ull; for (char c : s) h = (h ^ uint8_t(c)) * 1099511628211ull; return h ? h : 1; }
inline long now_ms() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec * 1000 + t.tv_nsec / 1000000; }
inline void qlock() { while (S->lock.exchange(1, std::memory_order_acquire)) sched_yield(); }
inline void qunlock() { S->lock.store(0, std::memory_order_release); }

inline void run_one(void (*fn)(), const Path& p)
{
    want = p; cur.n = 0; pos = 0; outc.clear(); tracebuf.clear();
    if (W >= 0) { S->w[W].cur.n = 0; S->w[W].trace[0] = 0; S->w[W].started = now_ms(); }
    in_exec = true;
    fn();
    in_exec = false;
    if (pos < want.n) fail("nondeterministic history (only %d of %d choices)", pos, want.n);
    if (W >= 0) S->w[W].started = 0;
}
inline void account()
{
    S->execs++; S->steps += uint64_t(cur.n) + 1; S->nodes += uint64_t(cur.n - (want.n > 0 ? want.n - 1 : 0)) + 1;
    int d = S->maxdepth; while (d < cur.n && !S->maxdepth.compare_exchange_weak(d, cur.n)) {}
    uint64_t h = fnv(outc);
    size_t i = h & (OCAP - 1);
    for (int pr = 0;; ++pr) {
        if (pr > 200) { S->dropped_outcomes++; break; }
        uint64_t v = S->oset[i]; if (v == h) break;
        if (!v) { uint64_t z = 0; if (S->oset[i].compare_exchange_strong(z, h)) { S->outcomes++; int k = S->nsample++; if (k < int(NSAMPLE)) { std::string s = tracebuf.empty() ? outc : tracebuf; snprintf(S->sample[k], 200, "%s", s.c_str()); } else S->nsample = NSAMPLE; break; } if (z == h) break; }
        i = (i + 1) & (OCAP - 1);
    }
}
inline void worker_loop(void (*fn)(), const Options& o, long deadline)
{
    std::vector<Path> st;
    bool counted_idle = false;
    for (;;) {
        if (S->stop) return;
        if (st.empty()) {
            qlock();
            if (S->qn) {
                st.push_back(S->q[--S->qn]);
                if (counted_idle) { S->idle--; counted_idle = false; }
                qunlock();
            } else {
                if (!counted_idle) { S->idle++; counted_idle = true; }
                int all = S->idle == o.workers;
                qunlock();
                if (all) return;
                usleep(200);
                continue;
            }
        }
        Path p = st.back(); st.pop_back();
        { Log& g = LG[W]; if (g.n + p.n + 1u > LCAP) g.full = true; else { g.d[g.n++] = p.n; memcpy(&g.d[g.n], p.c, sizeof(uint16_t) * p.n); g.n += p.n; } }
        if (o.fork_each) {
            int pp[2]; if (pipe(pp)) die(3);
            pid_t c = fork();
            if (!c) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                close(pp[0]); run_one(fn, p); account();
                struct { Path c; uint16_t w[MAXP]; } m; m.c = cur; memcpy(m.w, width, sizeof width);
                size_t off = 0; while (off < sizeof m) { ssize_t k = syscall(SYS_write, pp[1], (char*)&m + off, sizeof m - off); if (k <= 0) die(3); off += size_t(k); }
                die(0);
            }
            close(pp[1]);
            struct { Path c; uint16_t w[MAXP]; } m; size_t off = 0;
            while (off < sizeof m) { ssize_t k = syscall(SYS_read, pp[0], (char*)&m + off, sizeof m - off); if (k < 0 && errno == EINTR) continue; if (k <= 0) break; off += size_t(k); }
            close(pp[0]);
            int stt; while (waitpid(c, &stt, 0) < 0 && errno == EINTR) {}
            if (off < sizeof m || stt) die(WIFEXITED(stt) && WEXITSTATUS(stt) == 42 ? 42 : 43);
            cur = m.c; memcpy(width, m.w, sizeof width); want = p; S->w[W].started = 0;
        } else { run_one(fn, p); account(); }
        for (int i = cur.n - 1; i >= p.n; --i)
            for (int a = width[i] - 1; a >= 1; --a) {
                Path x; x.n = uint16_t(i + 1); memcpy(x.c, cur.c, sizeof(uint16_t) * size_t(i)); x.c[i] = uint16_t(a);
                st.push_back(x);
            }
        // feed the others from the shallow end
        if (st.size() > 1 && (S->qn < uint64_t(o.workers))) {
            qlock();
            size_t give = std::min<size_t>(st.size() / 2, 64);
            size_t k = 0;
            while (k < give && S->qn < QCAP) S->q[S->qn++] = st[k++];
            st.erase(st.begin(), st.begin() + long(k));
            qunlock();
        }
        if (now_ms() > deadline) { S->stop = 2; return; }
    }
}
// Runs one path in a fresh process: 0 ok, 1 failed (msg filled), 2 hang
inline int run_fresh(void (*fn)(), const std::vector<Path>& ps, int timeout_s)
{
    S->failed = 0; S->msg[0] = 0;
    S->w[15].cur.n = 0; S->w[15].trace[0] = 0;
    pid_t c = fork();
    if (!c) { setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL); W = 15; for (auto& p : ps) run_one(fn, p); die(0); }
    long t0 = now_ms();
    for (;;) {
        int st; pid_t r = waitpid(c, &st, WNOHANG);
        if (r == c) {
            kill(-c, SIGKILL);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
            if (S->failed != 2) {
                if (WIFSIGNALED(st)) snprintf(S->msg, sizeof S->msg, "process died with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
                else snprintf(S->msg, sizeof S->msg, WEXITSTATUS(st) == 77 ? "memory or undefined-behaviour error reported by the sanitizer" : "process exited with status %d", WEXITSTATUS(st));
            }
            return 1;
        }
        if (now_ms() - t0 > timeout_s * 1000L) { kill(-c, SIGKILL); kill(c, SIGKILL); waitpid(c, &st, 0); snprintf(S->msg, sizeof S->msg, "history does not terminate (%d s)", timeout_s); return 2; }
        usleep(500);
    }
}
inline int run_fresh(void (*fn)(), const Path& p, int timeout_s) { return run_fresh(fn, std::vector<Path>{p}, timeout_s); }
inline std::string jesc(const char* s) { std::string o; for (; *s; ++s) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') { o += '\\'; o += char(c); } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += char(c); } return o; }

inline int main_(int argc, char** argv, const char* property, const char* rule, const std::vector<Scenario>& sc, const std::vector<std::string>& assumptions, Options o = Options())
{
    std::string prop = property, out, only, replay, rdir = "."; const char* tier = "quick";
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&] { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (a == "--property") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--out") out = nx();
        else if (a == "--replay-dir") rdir = nx(); else if (a == "--only") only = nx(); else if (a == "--replay") replay = nx();
        else if (a == "--workers") o.workers = atoi(nx());
    }
    g_thorough = !strcmp(tier, "thorough");
    if (const char* k = getenv("KNOWN_FINDINGS")) { std::string s = k, l; s += '\n'; for (char c : s) if (c == '\n') { if (!l.empty()) known_keys.push_back(l); l.clear(); } else l += c; }
    S = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    LG = (Log*)mmap(nullptr, sizeof(Log) * 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    signal(SIGPIPE, SIG_IGN);
    if (!replay.empty()) {
        FILE* f = fopen(replay.c_str(), "r"); if (!f) return 2;
        char name[200]; if (fscanf(f, "scenario %199s", name) != 1) return 2;
        std::vector<Path> ps; int n; while (fscanf(f, " path %d", &n) == 1) { Path p; p.n = uint16_t(n); for (int i = 0; i < n; ++i) { int v; if (fscanf(f, "%d", &v) != 1) return 2; p.c[i] = uint16_t(v); } ps.push_back(p); }
        for (auto& s : sc) if (!strcmp(s.name, name)) { replaying = true; int r = run_fresh(s.fn, ps, o.timeout_s + int(ps.size()) / 10); printf("%s: %s\n", name, r ? S->msg : "held"); return r ? 1 : 0; }
        return 2;
    }
    uint64_t ex = 0, nodes = 0, steps = 0, outcomes = 0; bool exh = true, bad = false; std::string scen, samples;
    uint32_t hits = 0;
    for (auto& s : sc) {
        if (s.thorough_only && !g_thorough) continue;
        if (!only.empty() && only != s.name) continue;
        long t0 = now_ms();
        bool violated = false, complete = false; std::string msg;
        for (int attempt = 0; attempt < 3 && !violated && !complete; ++attempt) {
            memset((void*)S, 0, offsetof(Shm, q)); memset((void*)S->oset, 0, sizeof S->oset);
            S->q[0].n = 0; S->qn = 1; for (int w = 0; w < 16; ++w) LG[w].n = 0, LG[w].full = false;
            long deadline = now_ms() + 1000L * (g_thorough ? o.budget_thorough : o.budget_quick);
            std::vector<pid_t> pid(size_t(o.workers), 0);
            for (int w = 0; w < o.workers; ++w) {
                fflush(stdout);
                pid[size_t(w)] = fork();
                if (!pid[size_t(w)]) { setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL); W = w; worker_loop(s.fn, o, deadline); die(0); }
            }
            int live = o.workers; int badw = -1; 
            while (live) {
                for (int w = 0; w < o.workers; ++w) {
                    if (!pid[size_t(w)]) continue;
                    int st; pid_t r = waitpid(pid[size_t(w)], &st, WNOHANG);
                    bool hang = false;
                    if (r == 0) { long b = S->w[w].started; if (b && now_ms() - b > o.timeout_s * 1000L) { hang = true; kill(-pid[size_t(w)], SIGKILL); kill(pid[size_t(w)], SIGKILL); waitpid(pid[size_t(w)], &st, 0); r = pid[size_t(w)]; } else continue; }
                    kill(-pid[size_t(w)], SIGKILL);
                    pid[size_t(w)] = 0; --live;
                    if ((hang || !WIFEXITED(st) || WEXITSTATUS(st)) && badw < 0) { badw = w; S->stop = 1; }
                }
                usleep(1000);
            }
            if (badw >= 0) {
                if (S->failed == 2) badw = S->failed_worker;
                Path p = S->w[badw].cur; std::string trace = S->w[badw].trace;
                std::string m0 = S->failed == 2 ? S->msg : "";
                std::vector<Path> ps{p}; bool sure = run_fresh(s.fn, ps, o.timeout_s) && run_fresh(s.fn, ps, o.timeout_s);
                if (!sure && !o.fork_each && !LG[badw].full) { // with the histories that preceded it in its process
                    std::vector<Path> all; for (uint64_t i = 0; i < LG[badw].n;) { Path x; x.n = LG[badw].d[i++]; memcpy(x.c, &LG[badw].d[i], sizeof(uint16_t) * x.n); i += x.n; all.push_back(x); }
                    int tmo = o.timeout_s + int((now_ms() - t0) / 500);
                    for (size_t k : {size_t(2), size_t(10), size_t(200), all.size()}) {
                        if (k > all.size()) k = all.size();
                        ps.assign(all.end() - long(k), all.end()); if (k > 1 && run_fresh(s.fn, ps, tmo) == 1 && run_fresh(s.fn, ps, tmo) == 1) { sure = true; break; }
                        if (k == all.size()) break;
                    }
                }
                if (!sure) { // does it happen every now and then? (hangs do not count: the machine may be busy)
                    ps.assign(1, p); int n = 0; for (int i = 0; i < 24 && n < 2; ++i) n += run_fresh(s.fn, ps, o.timeout_s) == 1; sure = n >= 2;
                }
                if (sure) {
                    violated = true; msg = S->msg; if (msg.empty()) msg = m0;
                    if (S->w[15].trace[0]) trace = S->w[15].trace;
                    std::string rf = rdir + "/" + prop + "-" + s.name + ".replay";
                    FILE* f = fopen(rf.c_str(), "w");
                    if (f) {
                        fprintf(f, "scenario %s", s.name); for (auto& x : ps) { fprintf(f, " path %d", x.n); for (int i = 0; i < x.n; ++i) fprintf(f, " %d", x.c[i]); fprintf(f, "\n"); }
                        fprintf(f, "message %s\nhistory %s\nprogram %s\n", msg.c_str(), trace.c_str(), argv[0]); fclose(f);
                    }
                    printf("scenario %s: %s [history: %s]\nVIOLATION property=%s replay=%s\n", s.name, msg.c_str(), trace.c_str(), prop.c_str(), rf.c_str());
                    fflush(stdout);
                } else { printf("scenario %s: unconfirmed failure (%s) [%s], exploring again\n", s.name, m0.c_str(), trace.c_str()); exh = exh && attempt < 2; }
            } else complete = true;
        }
        if (S->stop == 2 || !complete) exh = false;
        hits |= S->known_hit;
        ex += S->execs; nodes += S->nodes; steps += S->steps; outcomes += S->outcomes;
        char b[600];
        snprintf(b, sizeof b, "{\"scenario\":\"%s\",\"histories\":%llu,\"tree_nodes\":%llu,\"steps\":%llu,\"distinct_outcomes\":%llu,\"max_choices\":%d,\"complete\":%s,\"wall_s\":%.2f}", s.name,
                 (unsigned long long)S->execs, (unsigned long long)S->nodes, (unsigned long long)S->steps, (unsigned long long)S->outcomes, int(S->maxdepth), (complete && S->stop != 2) ? "true" : "false", double(now_ms() - t0) / 1000);
        fprintf(stderr, "%s\n", b);
        scen += (scen.empty() ? "" : ",") + std::string(b);
        for (int k = 0; k < std::min(int(S->nsample), violated ? 0 : 3); ++k) samples += (samples.empty() ? "\"" : ",\"") + jesc((std::string(s.name) + ": " + S->sample[k]).c_str()) + "\"";
        if (violated) { bad = true; exh = false; break; }
    }
    for (size_t i = 0; i < known_keys.size(); ++i) if (hits & (1u << i)) printf("KNOWN-KEY %s\n", known_keys[i].c_str());
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w"); if (!f) return 2;
        fprintf(f, "{\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"distinct_outcomes\":%llu,\"exhaustive\":%s,\"scenarios\":[%s],\"samples\":[%s],\"rule\":\"%s\",\"assumptions\":[",
                (unsigned long long)ex, (unsigned long long)nodes, (unsigned long long)steps, (unsigned long long)outcomes, exh ? "true" : "false", scen.c_str(), samples.c_str(), jesc(rule).c_str());
        for (size_t i = 0; i < assumptions.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(assumptions[i].c_str()).c_str());
        fprintf(f, "]}\n"); fclose(f);
    }
    return bad ? 1 : 0;
}
}
