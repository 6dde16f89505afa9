// C15: the io_uring back end against a fake kernel.
#include "fakeuring.h"
#include <xtr/io/io_uring_fd_storage.hpp>
#include <sys/stat.h>
#include <memory>

static int g_fd = -1;
static size_t g_sync_len; static int g_syncs; static bool g_sync_pending;
static int dev_sync(int fd)
{
    (void)fd; ++g_syncs;
    if (fk::inflight() || fk::all_unsubmitted()) g_sync_pending = true;
    return 0;
}
extern "C" int fsync(int fd) { return dev_sync(fd); }
extern "C" int fdatasync(int fd) { return dev_sync(fd); }

static std::string contents(int fd)
{
    struct stat st; fstat(fd, &st);
    std::string s(size_t(st.st_size), '\0');
    if (pread(fd, s.data(), s.size(), 0) != ssize_t(s.size())) seq::fail("harness: short read");
    return s;
}
struct Cfg { size_t queue, batch, cap; int flags; size_t start; };
struct Run {
    int fd; std::unique_ptr<xtr::io_uring_fd_storage> st; Cfg c;
    std::string expect; int syncs = 0; int id = 0;
    explicit Run(const Cfg& cfg) : c(cfg)
    {
        fd = memfd_create("x", 0);
        expect = std::string(c.start, '#');
        if (write(fd, expect.data(), expect.size()) < 0) seq::fail("harness: write");
        if (c.flags) fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | c.flags);
        g_syncs = 0; g_sync_pending = false;
        st = std::make_unique<xtr::io_uring_fd_storage>(fd, "", c.cap, c.queue, c.batch);
        g_fd = fd;
    }
    void put(size_t n)
    {
        auto s = st->allocate_buffer();
        if (s.size() < 1 || s.size() > c.cap) seq::fail("allocate_buffer returned %zu bytes", s.size());
        if (fk::in_use(s.data(), s.size())) seq::fail("allocate_buffer handed out a buffer the kernel still uses");
        ++id;
        for (size_t i = 0; i < n; ++i) s[i] = char('A' + (id * 7 + int(i) + int(i >> 9)) % 26);
        expect.append(s.data(), n);
        for (size_t i = n; i < s.size(); ++i) s[i] = '~';
        st->submit_buffer(s.data(), n);
        seq::note("put%zu", n);
    }
    void flush() { st->flush(); seq::note("flush"); if (fk::all_unsubmitted()) seq::fail("flush() left %zu requests unsubmitted", fk::all_unsubmitted()); }
    void sync()
    {
        int before = g_syncs;
        st->sync(); seq::note("sync");
        if (g_syncs == before) seq::fail("sync() did not synchronise the device");
        if (g_sync_pending) seq::fail("sync() synchronised the device while requests were still pending");
        if (fk::inflight() || fk::all_unsubmitted()) seq::fail("sync() returned while requests were still pending");
        check("after sync");
    }
    void check(const char* when)
    {
        std::string got = contents(fd), want = expect;
        if (c.flags & O_APPEND) {
            // permanently failed pieces are missing from the appended stream
            for (auto& l : fk::lost) { size_t p = want.find(l.data, 0); if (p != std::string::npos) want.erase(p, l.n); }
        } else {
            for (auto& l : fk::lost) for (size_t i = 0; i < l.n; ++i) if (l.off + i < want.size()) { if (l.off + i < got.size()) want[l.off + i] = got[l.off + i]; }
            // a failed piece at the end may not extend the file
            if (got.size() < want.size()) {
                bool ok = true;
                for (size_t i = got.size(); i < want.size(); ++i) { bool in = false; for (auto& l : fk::lost) if (i >= l.off && i < l.off + l.n) in = true; ok = ok && in; }
                if (ok) want.resize(got.size());
            }
        }
        if (got != want) {
            size_t p = 0; while (p < got.size() && p < want.size() && got[p] == want[p]) ++p;
            seq::fail("%s: the file differs from the submitted bytes at offset %zu (file %zu bytes, expected %zu) [kernel: %s]", when, p, got.size(), want.size(), fk::hist.c_str());
        }
    }
    void end()
    {
        int before = g_syncs; (void)before;
        st.reset(); seq::note("destroy");
        for (auto* r : fk::rings) if (!r->dead) seq::fail("the ring was not released");
        if (fk::inflight()) seq::fail("the storage was destroyed while requests were in flight");
        check("after destruction");
        if (fcntl(fd, F_GETFD) < 0) seq::fail("the caller's descriptor was closed");
        close(fd);
        seq::outcome(fk::hist);
        fk::reset();
    }
};
static void history(const Cfg& c, int writes, int faults)
{
    Run r(c);
    fk::faults = faults;
    for (int i = 0; i < writes; ++i) {
        r.put(seq::flip() ? c.cap : c.cap > 3 ? 3 : 1);
        int k = seq::choose(3);
        if (k == 1) r.flush();
        if (k == 2) { r.flush(); r.sync(); }
    }
    r.end();
}
// fault-free: every queue/batch combination, completion order and operation sequence
static void orders()
{
    Cfg c; c.queue = size_t(1 + seq::choose(4)); c.batch = size_t(1 + seq::choose(5)); c.cap = 8; c.flags = 0; c.start = 0;
    fk::reset(); fk::eager = seq::choose(2);
    seq::note("q%zu b%zu e%d", c.queue, c.batch, fk::eager);
    history(c, seq::thorough() ? 6 : 5, 0);
}
static void faults1()
{
    Cfg c; c.queue = size_t(1 + seq::choose(3)); c.batch = size_t(1 + seq::choose(3)); c.cap = 5; c.flags = 0; c.start = 0;
    fk::reset(); fk::eager = seq::choose(2);
    seq::note("q%zu b%zu e%d", c.queue, c.batch, fk::eager);
    history(c, 4, 1);
}
static void faults2()
{
    Cfg c; c.queue = size_t(1 + seq::choose(3)); c.batch = size_t(1 + seq::choose(2)); c.cap = 5; c.flags = 0; c.start = 0;
    fk::reset(); fk::eager = 0;
    seq::note("q%zu b%zu", c.queue, c.batch);
    history(c, 3, seq::thorough() ? 3 : 2);
}
// many faults on a single buffer, and exhaustion afterwards
static void faults_deep()
{
    Cfg c; c.queue = size_t(1 + seq::choose(2)); c.batch = 1; c.cap = 4; c.flags = 0; c.start = 0;
    fk::reset();
    Run r(c);
    fk::faults = seq::thorough() ? 6 : 4;
    r.put(4); r.put(4);
    fk::faults = 0;
    r.put(2); r.put(4); r.put(1);
    r.end();
}
// a descriptor whose position is not zero when it is handed over
static void start_offset()
{
    Cfg c; c.queue = size_t(1 + seq::choose(2)); c.batch = size_t(1 + seq::choose(2)); c.cap = 5; c.start = size_t(seq::choose(3)) * 5;
    fk::reset();
    c.flags = 0;
    seq::note("start%zu", c.start);
    history(c, 2, 1);
}
// append mode (what opening by path uses): requests execute in submission order
static void append_mode()
{
    Cfg c; c.queue = size_t(1 + seq::choose(3)); c.batch = size_t(1 + seq::choose(3)); c.cap = 5; c.flags = O_APPEND; c.start = size_t(seq::choose(2)) * 5;
    fk::reset(); fk::eager = seq::choose(2);
    fk::f_short = fk::f_again = false; // see append_short
    history(c, 4, 1);
}
// append mode with short writes: only one request at a time is in flight
static void append_short()
{
    Cfg c; c.queue = 1; c.batch = 1; c.cap = 5; c.flags = O_APPEND; c.start = size_t(seq::choose(2)) * 5;
    fk::reset();
    fk::f_err = false;
    history(c, 3, 2);
}
// append mode with short writes while others are in flight: listed as a known finding
static void append_short_many()
{
    Cfg c; c.queue = 2; c.batch = 2; c.cap = 5; c.flags = O_APPEND; c.start = 0;
    fk::reset(); fk::faults = 0; fk::f_err = fk::f_wait = false;
    Run r(c);
    fk::faults = 1;
    r.put(5); r.put(5);
    r.st->flush(); r.st->sync();
    std::string got = contents(r.fd), want = r.expect;
    bool shortw = fk::hist.find_first_of("sSa") != std::string::npos;
    if (got != want) {
        std::string a = got, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (!(shortw && a == b && seq::known("append-short-write-order")))
            seq::fail("appending: the file differs from the submitted bytes [kernel: %s]", fk::hist.c_str());
    }
    fk::lost.clear(); r.expect = got;
    r.end();
}
// bigger configurations: buffer exhaustion with every batch phase, deterministic completion order
static void exhaustion()
{
    Cfg c; c.queue = size_t(1 + seq::choose(9)); c.batch = size_t(1 + seq::choose(12)); c.cap = 3; c.flags = 0; c.start = 0;
    fk::reset();
    fk::policy = 1 + seq::choose(2);
    int e = seq::choose(4); // submissions complete immediately: never, always, alternately, every third time
    int nflush = seq::choose(4);
    Run r(c);
    seq::note("q%zu b%zu policy%d e%d f%d", c.queue, c.batch, fk::policy, e, nflush);
    int n = int(c.queue) * 3 + int(c.batch);
    for (int i = 0; i < n; ++i) {
        fk::eager = e == 0 ? 0 : e == 1 ? 1 : e == 2 ? i % 2 : i % 3 == 0;
        r.put(size_t(1 + i % 3));
        if (nflush && i % (2 * nflush) == 0) r.flush();
    }
    r.flush(); r.sync(); r.end();
}
// the kernel accepts little at a time, or asks for a retry again and again
static void lasting()
{
    Cfg c; c.queue = size_t(1 + seq::choose(3)); c.batch = size_t(1 + seq::choose(2)); c.cap = 90; c.start = 0; c.flags = c.queue == 1 && seq::flip() ? O_APPEND : 0; int m = 1 + seq::choose(4); static const size_t ns[] = {1, 2, 17, 64, 90}; size_t n = seq::pick(ns);
    fk::reset(); fk::policy = 1 + seq::choose(2); fk::eager = seq::choose(2); seq::note("q%zu b%zu mode%d size%zu policy%d e%d", c.queue, c.batch, m, n, fk::policy, fk::eager);
    Run r(c); r.put(3); fk::lasting = m; r.put(n); r.put(5); r.put(n); if (seq::flip()) { r.flush(); r.sync(); } fk::lasting = 0; r.put(7); r.flush(); fk::hist = std::to_string(m); r.end();
}
// positions far into a file
static void far()
{
    static const long long at[] = {(1ll << 31) - 4, (1ll << 31) + 1, (1ll << 32) - 4, (1ll << 32) + 9, 5ll << 30}; long long b = seq::pick(at); fk::reset(); fk::eager = seq::choose(2); fk::faults = seq::choose(2); fk::f_err = false; size_t q = size_t(1 + seq::choose(2)); seq::note("at %lld", b);
    int fd = memfd_create("x", 0); if (ftruncate(fd, b) || lseek(fd, b, SEEK_SET) != b) seq::fail("harness: memfd"); std::string want;
    { xtr::io_uring_fd_storage st(fd, "", 6, q, 1 + q / 2); for (int i = 0; i < 4; ++i) { auto s = st.allocate_buffer(); for (size_t k = 0; k < 5; ++k) s[k] = char('A' + (i * 7 + int(k)) % 26); want.append(s.data(), 5); st.submit_buffer(s.data(), 5); } st.flush(); st.sync(); }
    struct stat t; fstat(fd, &t); std::string got(want.size(), '\0'); if (pread(fd, got.data(), got.size(), b) < 0) got = "?"; char z[8] = {}, y[8] = {}; if (pread(fd, z, 8, 0) < 0) z[0] = 1;
    if (t.st_size != b + (long long)want.size() || got != want || memcmp(z, y, 8)) seq::fail("a file of %lld bytes was continued wrongly: size now %lld, '%s' instead of '%s'", b, (long long)t.st_size, got.c_str(), want.c_str());
    close(fd); seq::outcome(fk::hist); fk::reset();
}
// long runs
static void volume()
{
    Cfg c; c.queue = size_t(1 + seq::choose(3)) * 2 - 1; c.batch = size_t(1 + seq::choose(3)); c.cap = 3; c.flags = 0; c.start = 0; fk::reset(); fk::policy = 1; fk::eager = seq::choose(2); seq::note("q%zu b%zu e%d", c.queue, c.batch, fk::eager);
    Run r(c); for (int i = 0; i < 70000; ++i) { auto s = r.st->allocate_buffer(); s[0] = char('A' + i % 26); s[1] = char('a' + i / 26 % 26); r.expect.append(s.data(), 2); r.st->submit_buffer(s.data(), 2); if (i % 5000 == 0) r.flush(); if (fk::hist.size() > 1000) fk::hist.clear(); }
    r.flush(); r.sync(); fk::hist.clear(); r.end();
}
// buffers larger than 64 KiB
static void large()
{
    static const size_t caps[] = {65536, 65537, 131072, 200001}; Cfg c; c.queue = size_t(1 + seq::choose(2)); c.batch = 1; c.cap = seq::pick(caps); c.flags = 0; c.start = size_t(seq::choose(2)) * 7; fk::reset(); fk::policy = 1; fk::eager = seq::choose(2); int m = seq::choose(3); size_t n = c.cap - size_t(seq::choose(2)) * 32769; seq::note("cap%zu q%zu mode%d size%zu", c.cap, c.queue, m, n);
    if (m == 1) { fk::faults = 2; fk::f_err = false; } else if (m == 2) fk::lasting = 4;
    Run r(c); r.put(n); r.put(3); r.put(n / 2); r.flush(); r.sync(); fk::hist = std::to_string(m); r.end();
}
int main(int argc, char** argv)
{
    seq::Options o; o.timeout_s = 30;
    return seq::main_(argc, argv, "C15",
        "histories of writes (two sizes), flushes and syncs over every small queue and batch size; the fake kernel may complete any eligible request next and answer in full, short (one byte or all but one), with a retry request or an error; buffers up to 200001 bytes, files up to 5 GiB are continued, 70000 requests are made in one run; non-trivial histories differ in the sequence of kernel answers",
        {{"orders", orders}, {"faults1", faults1}, {"faults2", faults2}, {"faults_deep", faults_deep}, {"start_offset", start_offset}, {"append_mode", append_mode}, {"append_short", append_short}, {"append_short_many", append_short_many}, {"exhaustion", exhaustion}, {"lasting", lasting}, {"far", far}, {"large", large}, {"volume", volume}},
        {"the fake kernel is single-threaded: it acts when the back-end submits, peeks or waits", "writes to a descriptor in append mode take effect in submission order"}, o);
}
