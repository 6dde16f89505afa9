// C14: the POSIX back end against every sequence of system-call answers.
#include "seq.h"
#include <xtr/io/posix_fd_storage.hpp>
#include <sys/stat.h>
#include <sys/uio.h>
#include <memory>
#include <stdexcept>
#include <system_error>

static bool g_on; static int g_faults, g_calls; static bool g_err, g_again;
static bool g_dirty, g_sync_ok, g_sync_err; static int g_syncs;
static std::string hist;
static int g_mode, g_step; // lasting answers: 1 single bytes, 2 single bytes and interruptions in turn, 3 a thousand interruptions first, 4 halves, 5 all but one byte
// answer for a write of n bytes: >=0 count, <0 -errno
static long answer(size_t n)
{
    if (++g_calls > 2000) seq::fail("write(2) is called forever");
    if (n == 0) { hist += "0"; return 0; }
    if (g_again) return -EAGAIN; // a full non-blocking descriptor stays full until the caller gives up
    if (g_mode) { ++g_step; switch (g_mode) { case 1: return 1; case 2: return g_step % 2 ? -EINTR : 1; case 3: return g_step <= 1000 ? -EINTR : long(n); case 4: return long(n + 1) / 2; case 5: return n > 1 ? long(n) - 1 : 1; default: return long(std::min<size_t>(n, 4093)); } }
    int kind = 0;
    if (g_faults > 0) {
        int opt[9], k = 0; opt[k++] = 0; if (n >= 2) opt[k++] = 1; if (n >= 3) opt[k++] = 2; if (n >= 4) opt[k++] = 6; opt[k++] = 3; opt[k++] = 4; opt[k++] = 5; opt[k++] = 7;
        kind = opt[seq::choose(k)];
        if (kind) --g_faults;
    }
    hist += "wsSieEha"[kind];
    switch (kind) { case 1: return 1; case 2: return long(n) - 1; case 6: return long(n) / 2; case 3: return -EINTR; case 4: g_err = true; return -EIO; case 7: g_err = g_again = true; return -EAGAIN; case 5: g_err = true; return -ENOSPC; }
    return long(n);
}
static int my_fd = -1;
static bool ours(int fd) { if (!g_on || fd < 0) return false; struct stat a, b; if (fstat(fd, &a) || fstat(my_fd, &b)) return false; return a.st_ino == b.st_ino && a.st_dev == b.st_dev; }
extern "C" ssize_t write(int fd, const void* p, size_t n)
{
    if (!ours(fd)) return syscall(SYS_write, fd, p, n);
    long a = answer(n); g_dirty = true;
    if (a < 0) { errno = int(-a); return -1; }
    return syscall(SYS_write, fd, p, size_t(a));
}
extern "C" ssize_t pwrite(int fd, const void* p, size_t n, off_t o)
{
    if (!ours(fd)) return syscall(SYS_pwrite64, fd, p, n, o);
    long a = answer(n); g_dirty = true;
    if (a < 0) { errno = int(-a); return -1; }
    return syscall(SYS_pwrite64, fd, p, size_t(a), o);
}
extern "C" ssize_t pwrite64(int fd, const void* p, size_t n, off_t o) { return pwrite(fd, p, n, o); }
extern "C" ssize_t writev(int fd, const iovec* v, int c)
{
    if (!ours(fd)) return syscall(SYS_writev, fd, v, c);
    std::string s; for (int i = 0; i < c; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len);
    return write(fd, s.data(), s.size());
}
static int dev_sync(int fd)
{
    if (!ours(fd)) return 0;
    if (++g_syncs > 2000) seq::fail("fsync(2) is called forever");
    int k = 0;
    if (g_faults > 0) { k = seq::choose(3); if (k) --g_faults; }
    hist += "yYZ"[k];
    if (k == 1) { errno = EINTR; return -1; }
    if (k == 2) { errno = EIO; g_sync_err = true; return -1; }
    g_dirty = false; g_sync_ok = true;
    return 0;
}
extern "C" int fsync(int fd) { return dev_sync(fd); }
extern "C" int fdatasync(int fd) { return dev_sync(fd); }
extern "C" int syncfs(int fd) { return dev_sync(fd); }

static std::string contents(int fd)
{
    struct stat st; fstat(fd, &st); std::string s(size_t(st.st_size), '\0');
    if (pread(fd, s.data(), s.size(), 0) != ssize_t(s.size())) seq::fail("harness: short read");
    return s;
}
struct Run {
    std::unique_ptr<xtr::storage_interface> st; std::string expect; int id = 0; size_t cap; bool viaptr;
    Run(size_t c, int flags, size_t start) : cap(c)
    {
        my_fd = memfd_create("x", 0); expect.assign(start, '#');
        if (syscall(SYS_write, my_fd, expect.data(), expect.size()) < 0) seq::fail("harness: write");
        if (flags) fcntl(my_fd, F_SETFL, fcntl(my_fd, F_GETFL) | flags);
        hist.clear(); g_calls = g_syncs = 0; g_err = g_dirty = g_sync_ok = g_sync_err = false; g_faults = 0; g_on = true;
        st = std::make_unique<xtr::posix_fd_storage>(my_fd, "", c);
    }
    void put(size_t n)
    {
        auto s = st->allocate_buffer();
        if (s.size() < n || s.size() > cap) seq::fail("allocate_buffer returned %zu bytes", s.size());
        ++id; std::string d; for (size_t i = 0; i < n; ++i) d += char('A' + (id * 7 + int(i) + int(i >> 9)) % 26);
        memcpy(s.data(), d.data(), n); for (size_t i = n; i < s.size(); ++i) s[i] = '~';
        g_err = g_again = false; g_calls = 0;
        bool threw = false; std::string before = contents(my_fd);
        if (before != expect) seq::fail("harness: unexpected contents");
        try { st->submit_buffer(s.data(), n); } catch (const std::exception&) { threw = true; }
        seq::note("put%zu%s[%s]", n, threw ? "!" : "", hist.c_str());
        std::string now = contents(my_fd);
        if (g_err && !threw) seq::fail("write(2) failed but submit_buffer did not report it [%s]", hist.c_str());
        if (!g_err && threw) seq::fail("submit_buffer reported an error although every failure was temporary [%s]", hist.c_str());
        if (!threw) { expect += d; if (now != expect) seq::fail("file holds '%s' instead of '%s' [%s]", now.c_str(), expect.c_str(), hist.c_str()); }
        else {
            // exactly the bytes accepted before the error
            if (now.size() < expect.size() || now.compare(0, expect.size(), expect) || d.compare(0, now.size() - expect.size(), now, expect.size()) || now.size() - expect.size() >= std::max<size_t>(n, 1) )
                seq::fail("after an error the file holds '%s', expected '%s' plus a proper prefix of '%s' [%s]", now.c_str(), expect.c_str(), d.c_str(), hist.c_str());
            expect = now;
        }
    }
    void sync()
    {
        g_sync_ok = g_sync_err = false; g_syncs = 0;
        st->sync(); seq::note("sync[%s]", hist.c_str());
        if (!g_syncs) seq::fail("sync() made no device synchronisation call");
        if (!g_sync_err && (!g_sync_ok || g_dirty)) seq::fail("sync() returned without a successful device synchronisation after the last write [%s]", hist.c_str());
    }
    void end()
    {
        st->flush();
        st.reset();
        if (contents(my_fd) != expect) seq::fail("destruction changed the file");
        if (fcntl(my_fd, F_GETFD) < 0) seq::fail("the caller's descriptor was closed");
        g_on = false; close(my_fd); seq::outcome(hist);
    }
};
static void history(size_t cap, int flags, size_t start, int ops, int faults)
{
    Run r(cap, flags, start);
    g_faults = faults;
    for (int i = 0; i < ops; ++i) {
        int k = seq::choose(5);
        if (k < 3) r.put(k == 0 ? 1 : k == 1 ? (cap > 3 ? 3 : cap) : cap);
        else if (k == 3) r.sync();
        else { r.st->flush(); seq::note("flush"); }
    }
    r.end();
}
static void mixed() { size_t cap = seq::flip() ? 5 : 2; history(cap, seq::flip() ? O_APPEND : 0, size_t(seq::choose(2)) * 4, seq::thorough() ? 4 : 3, seq::thorough() ? 4 : 3); }
// one submission, every answer sequence to a greater depth
static void deep() { Run r(9, seq::flip() ? O_APPEND : 0, 0); g_faults = seq::thorough() ? 8 : 6; r.put(size_t(1 + seq::choose(9))); g_faults = 0; r.put(4); r.sync(); r.end(); }
static void sync_deep() { Run r(4, 0, 0); r.put(3); g_faults = seq::thorough() ? 9 : 7; r.sync(); r.put(2); g_faults = 0; r.sync(); r.end(); }
// the device accepts little at a time, or is interrupted again and again
static void lasting() { size_t n = size_t(seq::choose(400)) + 1; int m = 1 + seq::choose(5); seq::note("%zu bytes mode%d", n, m); Run r(600, seq::flip() ? O_APPEND : 0, 3); r.put(2); g_mode = m; g_step = 0; r.put(n); r.put(size_t(m)); g_mode = 0; r.put(4); r.sync(); hist = std::to_string(m); r.end(); }
// submissions larger than 64 KiB
static void large() { static const size_t ns[] = {32767, 32768, 65535, 65536, 65537, 131072, 200001}; size_t n = seq::pick(ns); int m = seq::choose(3); seq::note("%zu bytes mode%d", n, m); Run r(200001, seq::flip() ? O_APPEND : 0, 3); r.put(2); g_mode = m ? m + 3 : 0; g_step = 0; if (m == 0) g_faults = 2; if (m == 2) { g_mode = 6; } r.put(n); r.put(n / 2); g_mode = 0; g_faults = 0; r.put(4); r.sync(); hist = std::to_string(m); r.end(); }
int main(int argc, char** argv)
{
    return seq::main_(argc, argv, "C14",
        "sequences of submissions (sizes 1, 3 and full), flushes and syncs; each write(2) is answered in full, with 1, half or all but one byte, EINTR, EIO, ENOSPC or (lasting) EAGAIN and each fsync(2) with success, EINTR or EIO, up to the stated number of faults; up to 400 bytes one at a time, with an interruption before each byte, or after 1000 interruptions; submissions of up to 200001 bytes; histories differ in the answer sequence",
        {{"mixed", mixed}, {"deep", deep}, {"sync_deep", sync_deep}, {"lasting", lasting}, {"large", large}},
        {"write(2) never returns 0 for a non-empty request"});
}
