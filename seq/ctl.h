// The command socket of a real logger under control: the logger's background
// thread is parked in poll() and advanced one round at a time, so histories of
// client actions and rounds are deterministic although sockets are real. The
// socket calls of the logger go through wrappers which can inject failures and
// which report calls that would block.
#pragma once
#include "lg.h"
#include <xtr/detail/commands/requests.hpp>
#include <xtr/detail/commands/responses.hpp>
#include <dirent.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <stdarg.h>
#include <algorithm>

namespace ctl {
namespace xd = xtr::detail;
inline thread_local bool is_main = false;
inline std::atomic<int> gate{0};     // 1: rounds need a permit
inline std::atomic<int> permit{0}, parked{0};
inline int faults = 0;               // failures that may still be injected
inline bool faulty = false;          // injection enabled
inline bool setup_only = false;      // only into the calls that set up a socket
inline int nfault = 0;               // failures injected
inline std::string bad, hist;
inline int small_window = 0;
inline std::atomic<bool> hooks{false};
inline std::function<void()> on_recv; // runs in the background thread when a request was received
inline long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return syscall(n, a, b, c, d, e, f); }
inline void viol(const char* m) { if (bad.empty()) bad = m; }
struct Fault { const char* call; int fd, err; };
inline std::vector<Fault> injected;
inline bool fd_call(const char* c) { return !strcmp(c, "poll") || !strcmp(c, "accept") || !strcmp(c, "recv") || !strcmp(c, "send"); }
// 0 or the error to report
inline int inject(const char* call, int fd, std::initializer_list<int> errs)
{
    if (!hooks || is_main || !faulty || faults <= 0 || (setup_only && fd_call(call))) return 0;
    int c = seq::choose(int(errs.size()) + 1);
    if (!c) return 0;
    --faults; ++nfault; int e = *(errs.begin() + (c - 1)); injected.push_back({call, fd, e});
    seq::note("%s!%d", call, e);
    return e;
}
inline bool nonblocking(int fd) { return (raw(SYS_fcntl, fd, F_GETFL) & O_NONBLOCK) != 0; }
}
extern "C" {
int poll(struct pollfd* p, nfds_t n, int timeout)
{
    using namespace ctl;
    if (hooks && !is_main) {
        if (timeout != 0 && gate) viol("the background thread polls with a timeout");
        if (gate.load()) {
            parked.store(1); parked.notify_all();
            while (gate.load() && !permit.load()) permit.wait(0);
            permit.store(0);
            parked.store(0);
        }
        if (int e = inject("poll", -1, {EINTR, ENOMEM})) { errno = e; return -1; }
    }
    return int(raw(SYS_poll, long(p), long(n), timeout));
}
int accept4(int fd, sockaddr* a, socklen_t* l, int flags)
{
    using namespace ctl;
    if (!hooks || is_main) return int(raw(SYS_accept4, fd, long(a), long(l), flags));
    if (int e = inject("accept", fd, {EMFILE, ECONNABORTED, EINTR})) { errno = e; return -1; }
    if (!nonblocking(fd)) { struct pollfd p{fd, POLLIN, 0}; if (raw(SYS_poll, long(&p), 1, 0) != 1) { viol("accept would block"); errno = EAGAIN; return -1; } }
    int r = int(raw(SYS_accept4, fd, long(a), long(l), flags));
    if (r >= 0 && small_window) { int v = 1; setsockopt(r, SOL_SOCKET, SO_SNDBUF, &v, sizeof v); }
    return r;
}
int accept(int fd, sockaddr* a, socklen_t* l) { return accept4(fd, a, l, 0); }
ssize_t recvmsg(int fd, msghdr* m, int flags)
{
    using namespace ctl;
    if (!hooks || is_main) return raw(SYS_recvmsg, fd, long(m), flags);
    if (int e = inject("recv", fd, {EINTR, ECONNRESET, EAGAIN})) { errno = e; return -1; }
    ssize_t r = raw(SYS_recvmsg, fd, long(m), flags | MSG_DONTWAIT);
    if (r < 0 && errno == EAGAIN && !(flags & MSG_DONTWAIT) && !nonblocking(fd)) { viol("receiving would block"); errno = EAGAIN; }
    if (r > 0 && on_recv) on_recv();
    return r;
}
ssize_t sendmsg(int fd, const msghdr* m, int flags)
{
    using namespace ctl;
    if (!hooks || is_main) return raw(SYS_sendmsg, fd, long(m), flags);
    if (int e = inject("send", fd, {EINTR, EAGAIN, EPIPE, ENOBUFS})) { errno = e; return -1; }
    if (!(flags & MSG_NOSIGNAL)) { struct sigaction sa; sigaction(SIGPIPE, nullptr, &sa); struct pollfd p{fd, POLLOUT, 0}; raw(SYS_poll, long(&p), 1, 0); if (p.revents & POLLHUP) viol("sending to a closed connection would raise SIGPIPE"); flags |= MSG_NOSIGNAL; }
    ssize_t r = raw(SYS_sendmsg, fd, long(m), flags | MSG_DONTWAIT);
    if (r < 0 && errno == EAGAIN && !(flags & MSG_DONTWAIT) && !nonblocking(fd)) { viol("sending would block"); errno = EAGAIN; }
    return r;
}
ssize_t recv(int fd, void* b, size_t n, int flags) { iovec v{b, n}; msghdr m{}; m.msg_iov = &v; m.msg_iovlen = 1; return recvmsg(fd, &m, flags); }
ssize_t send(int fd, const void* b, size_t n, int flags) { iovec v{const_cast<void*>(b), n}; msghdr m{}; m.msg_iov = &v; m.msg_iovlen = 1; return sendmsg(fd, &m, flags); }
int socket(int d, int t, int p) noexcept { using namespace ctl; if (int e = inject("socket", -1, {EMFILE})) { errno = e; return -1; } return int(raw(SYS_socket, d, t, p)); }
int bind(int fd, const sockaddr* a, socklen_t l) noexcept { using namespace ctl; if (int e = inject("bind", fd, {EACCES})) { errno = e; return -1; } return int(raw(SYS_bind, fd, long(a), l)); }
int listen(int fd, int n) noexcept { using namespace ctl; if (int e = inject("listen", fd, {EADDRINUSE})) { errno = e; return -1; } return int(raw(SYS_listen, fd, n)); }
}
namespace ctl {
inline int count_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
inline void park() { gate.store(1); long t0 = seq::now_ms(); while (!parked.load()) { sched_yield(); if (seq::now_ms() - t0 > 50000) seq::fail("the background thread stopped serving the command socket"); } }
// one round of the background thread
inline void tick(int n = 1)
{
    while (n--) {
        parked.store(0);
        permit.store(1); permit.notify_all();
        int spin = 0; long t0 = 0;
        while (!parked.load()) { if (++spin > 200) { sched_yield(); } if (!(spin & 0xffff)) { long t = seq::now_ms(); if (!t0) t0 = t; else if (t - t0 > 50000) seq::fail("the background thread does not return to its loop [%s]", hist.c_str()); } }
        if (!bad.empty()) seq::fail("%s", bad.c_str());
    }
}
inline void unpark() { gate.store(0); permit.store(1); permit.notify_all(); }
inline std::string sock_path() { return std::string(seq::scratch_dir()) + "/s" + std::to_string(getpid()); }
inline sockaddr_un addr_of(const std::string& p) { sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_LOCAL; memcpy(a.sun_path, p.data(), std::min(p.size(), sizeof a.sun_path)); return a; }
struct Client {
    int fd = -1; bool eof = false; std::vector<std::string> got; bool sent = false; int kind = -1; bool ok_expected = false;
    bool open(const std::string& p) {
        fd = int(raw(SYS_socket, AF_LOCAL, SOCK_SEQPACKET | SOCK_NONBLOCK | SOCK_CLOEXEC, 0)); sockaddr_un a = addr_of(p);
        if (raw(SYS_connect, fd, long(&a), sizeof a) < 0) { raw(SYS_close, fd); fd = -1; return false; }
        return true;
    }
    bool send(const void* p, size_t n) { iovec v{const_cast<void*>(p), n}; msghdr m{}; m.msg_iov = &v; m.msg_iovlen = 1; return raw(SYS_sendmsg, fd, long(&m), MSG_NOSIGNAL) == ssize_t(n); }
    // reads one packet if there is one
    bool read() {
        if (fd < 0 || eof) return false;
        char b[1024]; iovec v{b, sizeof b}; msghdr m{}; m.msg_iov = &v; m.msg_iovlen = 1;
        ssize_t r = raw(SYS_recvmsg, fd, long(&m), MSG_DONTWAIT);
        if (r > 0) { got.emplace_back(b, size_t(r)); return true; }
        if (r == 0 || (errno != EAGAIN && errno != EINTR)) { eof = true; return true; }
        return false;
    }
    void drain() { while (read()) {} }
    void close() { if (fd >= 0) raw(SYS_close, fd); fd = -1; }
    ~Client() { close(); }
    Client() = default; Client(const Client&) = delete; Client& operator=(const Client&) = delete;
};
inline uint32_t id_of(const std::string& p) { uint32_t v = ~0u; if (p.size() >= 4) memcpy(&v, p.data(), 4); return v; }
inline bool is_error(const std::string& p) { return p.size() == sizeof(xd::frame<xd::error>) && id_of(p) == xd::error::frame_id && memchr(p.data() + 4, 0, p.size() - 4); }
inline bool is_success(const std::string& p) { return p.size() == sizeof(xd::frame<xd::success>) && id_of(p) == xd::success::frame_id; }
inline bool is_info(const std::string& p) { return p.size() == sizeof(xd::frame<xd::sink_info>) && id_of(p) == xd::sink_info::frame_id; }
inline xd::sink_info info_of(const std::string& p) { xd::frame<xd::sink_info> f; memcpy(static_cast<void*>(&f), p.data(), sizeof f); return f.payload; }
template<class F> std::string bytes(const F& f) { return std::string(reinterpret_cast<const char*>(&f), sizeof f); }
inline std::string req_status(xd::pattern_type_t t = xd::pattern_type_t::none, const std::string& p = "", bool ic = false)
{
    xd::frame<xd::status> f; f->pattern.type = t; f->pattern.ignore_case = ic; memcpy(f->pattern.text, p.data(), std::min(p.size(), sizeof f->pattern.text)); return bytes(f);
}
inline std::string req_level(int lv, xd::pattern_type_t t = xd::pattern_type_t::none, const std::string& p = "", bool ic = false)
{
    xd::frame<xd::set_level> f; f->level = xtr::log_level_t(lv); f->pattern.type = t; f->pattern.ignore_case = ic; memcpy(f->pattern.text, p.data(), std::min(p.size(), sizeof f->pattern.text)); return bytes(f);
}
inline std::string req_reopen() { return bytes(xd::frame<xd::reopen>()); }
inline std::string show(const std::vector<std::string>& v)
{
    std::string o; for (auto& p : v) { if (is_error(p)) o += std::string("error(") + (p.c_str() + 4) + ") "; else if (is_success(p)) o += "success "; else if (is_info(p)) o += std::string("sink(") + info_of(p).name + ") "; else o += "frame" + std::to_string(id_of(p)) + "/" + std::to_string(p.size()) + " "; }
    return o;
}
// rounds until the peer has closed the connection
inline bool finish(Client& c, int rounds = 80) { for (int i = 0; i < rounds && !c.eof; ++i) { tick(); c.drain(); } return c.eof; }
inline bool exchange(Client& c, const std::string& path, const std::string& req, int rounds = 80)
{
    if (!c.open(path)) return false;
    if (!c.send(req.data(), req.size())) return false;
    return finish(c, rounds);
}
struct World {
    std::string path; std::unique_ptr<xtr::logger> L; std::vector<std::unique_ptr<xtr::sink>> sinks; int fds0, fds1 = 0;
    explicit World(int nsinks, const char* nm = "s")
    {
        is_main = true; bad.clear(); hist.clear(); injected.clear(); nfault = 0; faulty = false; faults = 0; small_window = 0; on_recv = nullptr; gate = 0; permit = 0; parked = 0;
        lg::take(); path = sock_path(); ::unlink(path.c_str()); fds0 = count_fds(); hooks = true;
        L.reset(new xtr::logger(std::make_unique<lg::Mem>(), lg::Clock(), path));
        for (int i = 0; i < nsinks; ++i) sinks.emplace_back(new xtr::sink(L->get_sink(nm + std::to_string(i))));
        for (auto& s : sinks) s->sync();
        fds1 = count_fds();
        park(); tick();
    }
    // the logger still works: a client is served, messages are written, nothing leaks
    void end(bool probe = true, int mine = 0)
    {
        if (probe) {
            Client c; if (!exchange(c, path, req_status())) seq::fail("a later client is not served [%s]", show(c.got).c_str());
            check_status(c);
            c.close(); tick(4);
            int n = count_fds(); if (n != fds1) seq::fail("%d descriptors open instead of %d after all clients left", n, fds1);
        }
        unpark();
        lg::take(); std::string want;
        for (size_t i = 0; i < sinks.size(); ++i) { XTR_LOGL(error, *sinks[i], "after {}", i); sinks[i]->sync(); want += lg::line('E', "s" + std::to_string(i), "ctl.h", __LINE__, "after " + std::to_string(i)); }
        lg::expect(lg::take(), want, "messages after the commands");
        sinks.clear(); L.reset(); hooks = false;
        if (!bad.empty()) seq::fail("%s", bad.c_str());
        int n = count_fds(); if (n != fds0 + mine) seq::fail("%d descriptors open instead of %d after destruction", n, fds0 + mine);
        struct stat st; if (!::lstat(path.c_str(), &st)) seq::fail("the socket file was left behind");
    }
    void check_status(const Client& c)
    {
        std::multiset<std::string> w, g; for (size_t i = 0; i < sinks.size(); ++i) w.insert("s" + std::to_string(i));
        for (auto& p : c.got) { if (!is_info(p)) seq::fail("unexpected reply to a status request: %s", show(c.got).c_str()); g.insert(info_of(p).name); }
        if (w != g) seq::fail("wrong reply to a status request: %s", show(c.got).c_str());
    }
};
}
