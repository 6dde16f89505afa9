// Interposed file system calls with enumerated failures (used with fakeuring.h).
#pragma once
#include "fakeuring.h"
#include <sys/stat.h>
#include <stdarg.h>
#include <map>

namespace sf {
inline bool on = false;
inline int faults = 0;            // remaining failures
inline bool f_open = true, f_dup = true, f_write = false, f_lseek = false;
inline int uring_probe = 0;       // errno of the availability probe (0: EFAULT/EINVAL as on a real kernel)
inline int open_failed = 0, open_ok = 0, dup_failed = 0, dup_ok = 0, eintr = 0;
inline std::string hist;
inline std::vector<std::pair<std::string, int>> opened; // paths opened by the code under test
inline void reset() { on = false; faults = 0; f_open = f_dup = true; f_write = f_lseek = false; uring_probe = 0; open_failed = open_ok = dup_failed = dup_ok = eintr = 0; hist.clear(); opened.clear(); }
inline long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
inline long ret(long r) { if (r < 0) { errno = int(-r); return -1; } return r; }
inline std::vector<int> fds() { std::vector<int> v; for (int i = 0; i < 200; ++i) if (raw(SYS_fcntl, i, F_GETFD) >= 0) v.push_back(i); return v; }
inline int do_open(const char* p, int fl, int mode)
{
    if (on && f_open && faults > 0) {
        int k = seq::choose(4);
        if (k) { --faults; hist += k == 1 ? "oI" : k == 2 ? "oA" : "oM"; errno = k == 1 ? EINTR : k == 2 ? EACCES : EMFILE; if (k == 1) ++eintr; else ++open_failed; return -1; }
    }
    long r = ret(raw(SYS_openat, AT_FDCWD, long(p), fl, mode));
    if (on) { if (r >= 0) { ++open_ok; opened.push_back({p, int(r)}); hist += "o"; } else { ++open_failed; hist += "oX"; } }
    return int(r);
}
inline int do_dup(long n, long a, long b, long c)
{
    if (on && f_dup && faults > 0 && seq::choose(2)) { --faults; ++dup_failed; hist += "dM"; errno = EMFILE; return -1; }
    long r = ret(raw(n, a, b, c));
    if (on) { hist += "d"; ++dup_ok; }
    return int(r);
}
}
extern "C" {
int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return sf::do_open(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return sf::do_open(p, fl, m); }
int creat(const char* p, mode_t m) { return sf::do_open(p, O_CREAT | O_WRONLY | O_TRUNC, int(m)); }
int openat(int d, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (d == AT_FDCWD) return sf::do_open(p, fl, m); return int(sf::ret(sf::raw(SYS_openat, d, long(p), fl, m))); }
int dup(int fd) noexcept { return sf::do_dup(SYS_dup, fd, 0, 0); }
int dup2(int a, int b) noexcept { return sf::do_dup(SYS_dup2, a, b, 0); }
int dup3(int a, int b, int c) noexcept { return sf::do_dup(SYS_dup3, a, b, c); }
long syscall(long n, ...) noexcept
{
    va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
    if (n == SYS_io_uring_setup) { errno = sf::uring_probe ? sf::uring_probe : a == 0 ? EINVAL : EFAULT; return -1; }
    return sf::ret(sf::raw(n, a, b, c, d, e, f));
}
ssize_t write(int fd, const void* p, size_t n)
{
    if (sf::on && sf::f_write && fd > 2 && n && sf::faults > 0) {
        int opt[4] = {0}, k = 1; if (n >= 2) opt[k++] = 1; if (n >= 3) opt[k++] = 2; opt[k++] = 3;
        int c = opt[seq::choose(k)];
        if (c) --sf::faults;
        sf::hist += "wsSi"[c];
        if (c == 1) n = 1; if (c == 2) n -= 1;
        if (c == 3) { errno = EINTR; return -1; }
    }
    return sf::ret(sf::raw(SYS_write, fd, long(p), long(n)));
}
int fsync(int) { return 0; }
int fdatasync(int) { return 0; }
}
namespace sf {
inline std::string slurp(const char* p)
{
    int fd = int(raw(SYS_openat, AT_FDCWD, long(p), O_RDONLY, 0)); if (fd < 0) return "<missing>";
    std::string s; char b[4096]; long n; while ((n = raw(SYS_read, fd, long(b), sizeof b)) > 0) s.append(b, size_t(n));
    raw(SYS_close, fd); return s;
}
inline void spit(const char* p, const std::string& s) { int fd = int(raw(SYS_openat, AT_FDCWD, long(p), O_CREAT | O_TRUNC | O_WRONLY, 0644)); if (fd < 0 || raw(SYS_write, fd, long(s.data()), long(s.size())) != long(s.size())) seq::fail("harness: cannot write %s", p); raw(SYS_close, fd); }
// a private directory of this worker, emptied
inline std::string workdir()
{
    std::string d = std::string(seq::scratch_dir()) + "/w" + std::to_string(getpid());
    mkdir(d.c_str(), 0755);
    for (const char* f : {"/log", "/log.1", "/log.2", "/log.3", "/log.4", "/log.5"}) unlink((d + f).c_str());
    return d;
}
}
