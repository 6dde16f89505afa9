// A fake io_uring kernel below liburing's public interface. Completion order,
// results and interruptions are choices of the explorer; the effects are real
// pwrite()/close() calls on the descriptors named in the requests.
#pragma once
#include "seq.h"
#include <liburing.h>
#include <sys/uio.h>
#include <algorithm>
#include <list>

namespace fk {
struct Req { io_uring_sqe s; int fd = -1; std::string snap; uint64_t id; bool executed = false; int res = 0; bool deferred = false; };
struct Ring { io_uring* u; unsigned khead = 0, ktail = 0, chead = 0, ctail = 0, kflags = 0, kdropped = 0, koverflow = 0, smask, sent, cmask, cent; std::vector<io_uring_sqe> sqes; std::vector<io_uring_cqe> cqes; std::vector<unsigned> arr; std::vector<iovec> bufs; std::list<Req> fl; bool dead = false; int fd = -1; };
inline std::list<Ring*> rings;
inline uint64_t next_id = 0;
// environment switches
inline int faults = 0;             // remaining number of faults
inline bool f_short = true, f_again = true, f_err = true, f_wait = true;
inline int policy = 0;             // completion order: 0 explorer's choice, 1 oldest first, 2 newest first
inline bool no_append_faults = false; // no short/retry answers for files in append mode
inline int lasting = 0, lstep = 0; // lasting answers: 1 single bytes, 2 retry requests and single bytes in turn, 3 three hundred retry requests first, 4 halves
inline int eager = 0;              // 1: requests complete as soon as they are submitted
inline int init_error = 0, register_error = 0; // errno values
inline int (*init_hook)() = nullptr; // may inject a failure: returns errno or 0
inline int (*reg_hook)() = nullptr;
struct Lost { uint64_t off; size_t n; std::string data; };
inline std::vector<Lost> lost;     // permanently failed pieces (by content)
inline uint64_t waits = 0, writes = 0;
inline std::string hist;
inline void reset() { for (auto* r : rings) { for (auto& q : r->fl) if (q.fd >= 0) syscall(SYS_close, q.fd); delete r; } rings.clear(); faults = lasting = lstep = 0; f_short = f_again = f_err = f_wait = true; eager = policy = 0; no_append_faults = false; init_error = register_error = 0; lost.clear(); waits = writes = 0; hist.clear(); next_id = 0; init_hook = reg_hook = nullptr; }
inline Ring* of(io_uring* u) { for (auto* r : rings) if (r->u == u && !r->dead) return r; return nullptr; }
inline Ring* need(io_uring* u) { Ring* r = of(u); if (!r) seq::fail("io_uring call on a ring that is not set up"); return r; }
inline size_t inflight() { size_t n = 0; for (auto* r : rings) n += r->fl.size(); return n; }
inline size_t unsubmitted(Ring* r) { return r->u->sq.sqe_tail - r->u->sq.sqe_head; }
inline size_t all_unsubmitted() { size_t n = 0; for (auto* r : rings) if (!r->dead) n += unsubmitted(r); return n; }
inline size_t alive() { size_t n = 0; for (auto* r : rings) n += !r->dead; return n; }
inline bool is_write(const io_uring_sqe& s) { return s.opcode == IORING_OP_WRITE_FIXED || s.opcode == IORING_OP_WRITE; }
// does any request that the kernel may still read from overlap [p,p+n)?
inline bool in_use(const char* p, size_t n)
{
    auto hit = [&](const io_uring_sqe& s) { const char* a = (const char*)s.addr; return is_write(s) && a < p + n && p < a + s.len; };
    for (auto* r : rings) {
        for (auto& q : r->fl) if (hit(q.s)) return true;
        if (!r->dead) for (unsigned i = r->u->sq.sqe_head; i != r->u->sq.sqe_tail; ++i) if (hit(r->u->sq.sqes[i & r->smask])) return true;
    }
    return false;
}
inline void post(Ring* r, Req& q)
{
    if (r->ctail - r->chead >= r->cent) seq::fail("completion queue overflow");
    r->cqes[r->ctail & r->cmask] = io_uring_cqe{};
    r->cqes[r->ctail & r->cmask].user_data = q.s.user_data;
    r->cqes[r->ctail & r->cmask].res = q.res;
    r->ctail++;
}
inline void execute(Ring* r, Req& q)
{
    if (q.executed) return;
    q.executed = true;
    if (q.s.opcode == IORING_OP_CLOSE) { q.res = syscall(SYS_close, q.s.fd) ? -errno : 0; hist += "C"; return; }
    if (q.s.opcode == IORING_OP_FSYNC) { q.res = fsync(q.s.fd) ? -errno : 0; return; }
    if (q.s.opcode == IORING_OP_NOP) { q.res = 0; return; }
    if (!is_write(q.s)) seq::fail("unexpected io_uring opcode %d", q.s.opcode);
    const char* a = (const char*)q.s.addr; unsigned n = q.s.len;
    if (q.s.opcode == IORING_OP_WRITE_FIXED) {
        bool ok = false;
        if (q.s.buf_index < r->bufs.size()) { auto& v = r->bufs[q.s.buf_index]; ok = a >= (char*)v.iov_base && a + n <= (char*)v.iov_base + v.iov_len; }
        if (!ok) { q.res = -EFAULT; hist += "F"; return; }
    }
    if (std::string(a, n) != q.snap) seq::fail("a buffer was overwritten while the kernel was still using it");
    int kind = 0;
    if (faults > 0) {
        std::vector<int> opt{0};
        bool f_short = fk::f_short, f_again = fk::f_again;
        if (no_append_faults && q.fd >= 0 && (fcntl(q.fd, F_GETFL) & O_APPEND)) f_short = f_again = false;
        if (f_short && n >= 2) { opt.push_back(1); if (n >= 3) opt.push_back(2); }
        if (f_again) opt.push_back(3);
        if (f_err) opt.push_back(4);
        kind = opt[size_t(seq::choose(int(opt.size())))];
        if (kind) --faults;
    }
    unsigned part = 0; if (lasting) { ++lstep; if (lasting == 1) part = 1; else if (lasting == 2) { if (lstep % 2) kind = 3; else part = 1; } else if (lasting == 3) { if (lstep <= 300) kind = 3; } else part = (n + 1) / 2; }
    if (kind == 3) { q.res = -EAGAIN; hist += "a"; return; }
    if (kind == 4) { q.res = -EIO; lost.push_back({q.s.off, n, std::string(a, n)}); hist += "e"; return; }
    unsigned k = kind == 1 ? 1 : kind == 2 ? n - 1 : part ? part : n;
    hist += kind == 1 ? "s" : kind == 2 ? "S" : "w";
    ++writes;
    ssize_t w = q.fd < 0 ? (errno = EBADF, -1) : q.s.off == ~0ull ? syscall(SYS_write, q.fd, a, k) : syscall(SYS_pwrite64, q.fd, a, k, off_t(q.s.off));
    if (w < 0 && errno == ESPIPE) w = syscall(SYS_write, q.fd, a, k);
    q.res = w < 0 ? -errno : int(w);
}
inline std::vector<std::list<Req>::iterator> candidates(Ring* r)
{
    std::vector<std::list<Req>::iterator> v; bool earlier = false;
    for (auto i = r->fl.begin(); i != r->fl.end(); ++i) {
        bool drain = i->s.flags & IOSQE_IO_DRAIN;
        if (drain) { if (!earlier) v.push_back(i); break; }
        v.push_back(i); earlier = true;
    }
    return v;
}
inline void complete_one(Ring* r)
{
    auto c = candidates(r);
    auto it = policy == 1 ? c.front() : policy == 2 ? c.back() : c[size_t(seq::choose(int(c.size())))];
    // writes to a file opened for appending are executed in submission order, except that
    // those submitted while a draining request is outstanding are deferred, after which
    // the kernel executes them in any order
    if (it->fd >= 0 && (fcntl(it->fd, F_GETFL) & O_APPEND))
        for (auto i = r->fl.begin(); i != it; ++i) if (is_write(i->s) && !i->deferred) execute(r, *i);
    execute(r, *it);
    hist += std::to_string(std::distance(r->fl.begin(), it));
    post(r, *it);
    if (it->fd >= 0) syscall(SYS_close, it->fd);
    r->fl.erase(it);
}
inline int submit(io_uring* u)
{
    Ring* r = need(u);
    int n = 0;
    while (u->sq.sqe_head != u->sq.sqe_tail) {
        Req q; q.s = u->sq.sqes[u->sq.sqe_head & r->smask]; q.id = next_id++;
        if (is_write(q.s)) { q.snap.assign((const char*)q.s.addr, q.s.len); q.fd = int(syscall(SYS_dup, q.s.fd)); }
        for (auto& e : r->fl) if (e.s.flags & IOSQE_IO_DRAIN) q.deferred = true;
        r->fl.push_back(q);
        u->sq.sqe_head++; ++n;
    }
    r->khead = r->ktail = u->sq.sqe_head;
    if (eager) while (!r->fl.empty() && r->ctail - r->chead < r->cent) complete_one(r);
    return n;
}
inline int get(io_uring* u, io_uring_cqe** out, unsigned wait_nr)
{
    Ring* r = need(u);
    *out = nullptr;
    ++waits;
    if (r->ctail == r->chead) {
        if (wait_nr == 0) { // peek: time passes
            if (r->fl.empty()) { if (waits > 100000) seq::fail("polls for a completion that cannot arrive"); return -EAGAIN; }
        } else {
            if (r->fl.empty()) seq::fail("waits for a completion that cannot arrive (%zu requests prepared but not submitted)", unsubmitted(r));
            if (faults > 0 && f_wait && seq::choose(2)) { --faults; hist += "i"; return -EINTR; }
        }
        complete_one(r);
    }
    *out = &r->cqes[r->chead & r->cmask];
    return 0;
}
}
extern "C" {
int io_uring_queue_init_params(unsigned n, io_uring* u, io_uring_params* p)
{
    int e = fk::init_hook ? fk::init_hook() : fk::init_error;
    if (e) return -e;
    if (n == 0 || n > 32768) return -EINVAL;
    auto* r = new fk::Ring; fk::rings.push_back(r);
    unsigned e2 = 1; while (e2 < n) e2 *= 2;
    memset((void*)u, 0, sizeof *u);
    r->u = u; r->sent = e2; r->smask = e2 - 1; r->cent = 2 * e2; r->cmask = 2 * e2 - 1;
    r->sqes.resize(e2); r->cqes.resize(2 * e2); r->arr.resize(e2);
    u->sq.khead = &r->khead; u->sq.ktail = &r->ktail; u->sq.kring_mask = &r->smask; u->sq.kring_entries = &r->sent; u->sq.kflags = &r->kflags; u->sq.kdropped = &r->kdropped; u->sq.array = r->arr.data(); u->sq.sqes = r->sqes.data(); u->sq.ring_mask = r->smask; u->sq.ring_entries = e2;
    u->cq.khead = &r->chead; u->cq.ktail = &r->ctail; u->cq.kring_mask = &r->cmask; u->cq.kring_entries = &r->cent; u->cq.koverflow = &r->koverflow; u->cq.cqes = r->cqes.data(); u->cq.ring_mask = r->cmask; u->cq.ring_entries = 2 * e2;
    u->flags = 0; u->features = IORING_FEAT_EXT_ARG | IORING_FEAT_NODROP; u->ring_fd = u->enter_ring_fd = 1000000;
    (void)p;
    return 0;
}
int io_uring_queue_init(unsigned n, io_uring* u, unsigned flags) { io_uring_params p{}; p.flags = flags; return io_uring_queue_init_params(n, u, &p); }
void io_uring_queue_exit(io_uring* u)
{
    fk::Ring* r = fk::need(u);
    // the kernel cancels or abandons what is still in flight
    if (!r->fl.empty()) fk::hist += "X";
    r->dead = true;
}
int io_uring_register_buffers(io_uring* u, const iovec* v, unsigned n) { fk::Ring* r = fk::need(u); int e = fk::reg_hook ? fk::reg_hook() : fk::register_error; if (e) return -e; r->bufs.assign(v, v + n); return 0; }
int io_uring_unregister_buffers(io_uring* u) { fk::need(u)->bufs.clear(); return 0; }
int io_uring_submit(io_uring* u) { return fk::submit(u); }
int io_uring_submit_and_wait(io_uring* u, unsigned n) { int k = fk::submit(u); io_uring_cqe* c; if (n) fk::get(u, &c, n); return k; }
int io_uring_submit_and_get_events(io_uring* u) { return fk::submit(u); }
int io_uring_get_events(io_uring*) { return 0; }
int __io_uring_get_cqe(io_uring* u, io_uring_cqe** c, unsigned sub, unsigned wait_nr, sigset_t*) { if (sub) fk::submit(u); return fk::get(u, c, wait_nr); }
int __io_uring_sqring_wait(io_uring*) { return 0; }
unsigned io_uring_peek_batch_cqe(io_uring* u, io_uring_cqe** c, unsigned n)
{
    fk::Ring* r = fk::need(u); unsigned k = 0;
    if (r->ctail == r->chead && !r->fl.empty()) fk::complete_one(r);
    while (k < n && r->chead + k != r->ctail) { c[k] = &r->cqes[(r->chead + k) & r->cmask]; ++k; }
    return k;
}
int io_uring_wait_cqes(io_uring* u, io_uring_cqe** c, unsigned n, __kernel_timespec*, sigset_t*) { return fk::get(u, c, n); }
int io_uring_wait_cqe_timeout(io_uring* u, io_uring_cqe** c, __kernel_timespec*) { return fk::get(u, c, 1); }
io_uring_sqe* (io_uring_get_sqe_fake)(io_uring* u) { (void)u; return nullptr; }
}
