// C21: queue memory. Built without sanitizers: mmap and friends are interposed.
#include "seq.h"
#include <xtr/detail/mirrored_memory_mapping.hpp>
#include <xtr/detail/memory_mapping.hpp>
#include <xtr/detail/file_descriptor.hpp>
#include <xtr/detail/synchronized_ring_buffer.hpp>
#include <xtr/detail/pagesize.hpp>
#include <xtr/sink.hpp>
#include <xtr/logger.hpp>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <sys/stat.h>
#include <stdarg.h>
namespace xd = xtr::detail;
constexpr size_t PG = 4096;
namespace tr {
static bool on = false; static int faults = 0; static int cfaults = 0; static int failed = 0; static std::string hist, bad;
static std::map<uintptr_t, int> pages; // pages mapped by the code under test
static void viol(const char* s) { if (bad.empty()) bad = s; }
static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f; asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); return r; }
static long ret(long r) { if (r < 0 && r > -4096) { errno = int(-r); return -1; } return r; }
static bool fault(const char* w) { if (on && faults > 0 && seq::choose(2)) { --faults; ++failed; hist += std::string(w) + "! "; errno = ENOMEM; return true; } if (on) hist += std::string(w) + " "; return false; }
static size_t np(size_t n) { return (n + PG - 1) / PG; }
static void add(void* p, size_t n) { for (size_t i = 0; i < np(n); ++i) pages[uintptr_t(p) + i * PG] = 1; }
static void reset() { on = false; faults = cfaults = failed = 0; hist.clear(); bad.clear(); pages.clear(); }
static std::vector<int> fds() { std::vector<int> v; for (int i = 0; i < 100; ++i) if (raw(SYS_fcntl, i, F_GETFD) >= 0) v.push_back(i); return v; }
}
extern "C" {
void* mmap(void* a, size_t n, int p, int f, int fd, off_t o) noexcept
{
    if (!tr::on) return reinterpret_cast<void*>(tr::ret(tr::raw(SYS_mmap, long(a), long(n), p, f, fd, o)));
    if (tr::fault("mmap")) return MAP_FAILED;
    if (f & MAP_FIXED) for (size_t i = 0; i < tr::np(n); ++i) if (!tr::pages.count(uintptr_t(a) + i * PG)) tr::viol("memory was mapped over memory that was not reserved");
    void* r = reinterpret_cast<void*>(tr::ret(tr::raw(SYS_mmap, long(a), long(n), p, f, fd, o))); if (r != MAP_FAILED) tr::add(r, n); return r;
}
void* mmap64(void* a, size_t n, int p, int f, int fd, off_t o) noexcept { return mmap(a, n, p, f, fd, o); }
int munmap(void* a, size_t n) noexcept
{
    if (!tr::on) return int(tr::ret(tr::raw(SYS_munmap, long(a), long(n))));
    tr::hist += "munmap "; if (a == MAP_FAILED || n == 0) tr::viol("munmap of nothing");
    for (size_t i = 0; i < tr::np(n); ++i) if (!tr::pages.erase(uintptr_t(a) + i * PG)) { tr::viol("memory was unmapped that is not owned (any more)"); break; }
    return int(tr::ret(tr::raw(SYS_munmap, long(a), long(n))));
}
void* mremap(void* a, size_t o, size_t n, int f, ...) noexcept
{
    va_list ap; va_start(ap, f); void* t = va_arg(ap, void*); va_end(ap);
    if (!tr::on) return reinterpret_cast<void*>(tr::ret(tr::raw(SYS_mremap, long(a), long(o), long(n), f, long(t))));
    if (tr::fault("mremap")) return MAP_FAILED;
    if (f & MREMAP_FIXED) for (size_t i = 0; i < tr::np(n); ++i) if (!tr::pages.count(uintptr_t(t) + i * PG)) tr::viol("memory was moved over memory that was not reserved");
    void* r = reinterpret_cast<void*>(tr::ret(tr::raw(SYS_mremap, long(a), long(o), long(n), f, long(t)))); if (r != MAP_FAILED) { for (size_t i = 0; i < tr::np(o); ++i) tr::pages.erase(uintptr_t(a) + i * PG); tr::add(r, n); } return r;
}
int close(int fd)
{
    if (tr::on) {
        tr::hist += "close "; if (tr::raw(SYS_fcntl, fd, F_GETFD) < 0) tr::viol("a descriptor was closed that is not open");
        // a failing close still closes, as on Linux: closing again would close what someone else opened meanwhile
        if (tr::cfaults > 0) { int k = seq::choose(3); if (k) { --tr::cfaults; tr::hist += "! "; tr::raw(SYS_close, fd); errno = k == 1 ? EINTR : EIO; return -1; } }
    }
    return int(tr::ret(tr::raw(SYS_close, fd)));
}
}
static void finish(const char* what)
{
    tr::on = false;
    if (!tr::bad.empty()) seq::fail("%s: %s [%s]", what, tr::bad.c_str(), tr::hist.c_str());
    if (!tr::pages.empty()) seq::fail("%s: %zu pages stay mapped [%s]", what, tr::pages.size(), tr::hist.c_str());
}
static void alias(void* mem, size_t len, bool full)
{
    auto* p = static_cast<volatile unsigned char*>(mem); size_t step = full ? 1 : 61;
    for (size_t i = 0; i < 2 * len; ++i) { if (!full && i % step && (i % PG) > 1 && (i % PG) < PG - 2) continue; unsigned char v = (unsigned char)(i * 7 + i / 256 + 1); p[i] = v; if (p[i < len ? i + len : i - len] != v) seq::fail("offset %zu of a mapping of %zu bytes is not mirrored", i, len); }
    for (size_t i = 0; i < len; i += step) { p[i] = (unsigned char)(i / 3); } for (size_t i = 0; i < len; i += step) if (p[i] != (unsigned char)(i / 3) || p[i + len] != (unsigned char)(i / 3)) seq::fail("offsets of a mapping of %zu bytes are mixed up at %zu", len, i);
}
// every size, anonymous or on a file, with failures
static void sizes()
{
    tr::reset(); int kind = seq::choose(3); size_t n = size_t(seq::choose(seq::thorough() ? 257 : 65)) * PG; static const int off[] = {0, 1, -1, 8, 2048, -4095}; long len = long(n) + off[seq::choose(6)]; if (len < 0) { seq::note("-"); return; }
    int fl = seq::flip() ? MAP_POPULATE : 0; seq::note("kind%d length %ld", kind, len);
    int fd = -1; size_t fo = 0; if (kind) { fd = memfd_create("m", 0); fo = kind == 2 ? 3 * PG : 0; if (ftruncate(fd, off_t(size_t(len) + fo + PG))) {} }
    auto before = tr::fds(); bool threw = false, inval = false; tr::on = true; tr::faults = 2; tr::cfaults = 1;
    {
        std::optional<xd::mirrored_memory_mapping> m;
        try { m.emplace(size_t(len), fd, fo, fl); } catch (const std::invalid_argument&) { inval = true; } catch (const std::exception&) { threw = true; }
        tr::faults = 0;
        bool ok = len > 0 && len % long(PG) == 0;
        if (m) {
            if (!ok) seq::fail("a mapping of %ld bytes was accepted", len);
            if (tr::failed) seq::fail("a failure was not reported [%s]", tr::hist.c_str());
            if (m->length() != size_t(len) || !*m) seq::fail("length is %zu instead of %ld", m->length(), len);
            if (tr::pages.size() != 2 * size_t(len) / PG) seq::fail("%zu pages mapped instead of %zu", tr::pages.size(), 2 * size_t(len) / PG);
            alias(m->get(), size_t(len), len <= 8 * long(PG) || seq::thorough());
            if (fd >= 0) { unsigned char c = 0x5a; static_cast<unsigned char*>(m->get())[5] = c; unsigned char d = 0; if (pread(fd, &d, 1, off_t(fo + 5)) != 1 || d != c) seq::fail("the mapping is not backed by the file at the offset given"); }
        } else if (ok && !tr::failed) seq::fail("creation failed although nothing failed");
        else if (!ok && len != 0 && !inval && !tr::failed) seq::fail("length %ld was not rejected as an invalid argument", len);
        (void)threw;
    }
    finish("mapping"); if (tr::fds() != before) seq::fail("a descriptor leaked [%s]", tr::hist.c_str());
    if (fd >= 0) { if (fcntl(fd, F_GETFD) < 0) seq::fail("the caller's descriptor was closed"); close(fd); }
    seq::outcome(tr::hist);
}
// owners: all short sequences of operations over three objects
template<class T> struct Own;
struct Res { int id; };
template<class Ops> static void owners(const char* what)
{
    tr::reset(); tr::on = true; tr::cfaults = Ops::cfaults; Ops o; typename Ops::type* obj[3] = {nullptr, nullptr, nullptr}; bool has[3] = {false, false, false}; int depth = seq::thorough() ? 6 : 5; size_t held = 0;
    for (int i = 0; i < depth; ++i) {
        struct Op { int k, a, b; }; std::vector<Op> en;
        for (int a = 0; a < 3; ++a) {
            if (!obj[a]) { if (a == 0 || obj[a - 1]) { en.push_back({0, a, 0}); en.push_back({1, a, 0}); for (int b = 0; b < 3; ++b) if (obj[b]) en.push_back({2, a, b}); } continue; }
            en.push_back({3, a, 0}); for (int b = 0; b < 3; ++b) if (obj[b]) { en.push_back({4, a, b}); if (b > a) en.push_back({5, a, b}); }
            if (Ops::can_reset) { en.push_back({6, a, 0}); en.push_back({7, a, 0}); en.push_back({8, a, 0}); }
        }
        auto [k, a, b] = en[size_t(seq::choose(int(en.size())))];
        switch (k) {
        case 0: seq::note("new%d", a); obj[a] = new typename Ops::type(o.make()); has[a] = true; break;
        case 1: seq::note("empty%d", a); obj[a] = new typename Ops::type(); has[a] = false; break;
        case 2: seq::note("move%d>%d", b, a); obj[a] = new typename Ops::type(std::move(*obj[b])); has[a] = has[b]; has[b] = false; break;
        case 3: seq::note("del%d", a); delete obj[a]; obj[a] = nullptr; has[a] = false; break;
        case 4: seq::note("assign%d=%d", a, b); { auto& r = *obj[b]; *obj[a] = std::move(r); } if (a != b) { bool was = has[a]; has[a] = has[b]; if (bool(*obj[b])) { if (!was) seq::fail("%s: a moved-from object claims ownership", what); has[b] = true; } else has[b] = false; if (has[a] != bool(*obj[a])) seq::fail("%s: ownership lost in assignment", what); } break;
        case 5: { seq::note("swap%d,%d", a, b); using std::swap; swap(*obj[a], *obj[b]); std::swap(has[a], has[b]); break; }
        case 6: seq::note("reset%d", a); o.reset(*obj[a]); has[a] = false; break;
        case 7: seq::note("reset-to%d", a); o.reset_to(*obj[a]); has[a] = true; break;
        case 8: seq::note("release%d", a); if (has[a]) ++held; o.release(*obj[a], has[a]); has[a] = false; break;
        }
        size_t n = 0; for (int j = 0; j < 3; ++j) if (obj[j]) { if (bool(*obj[j]) != has[j]) seq::fail("%s: object %d %s a resource", what, j, has[j] ? "lost" : "wrongly claims"); n += has[j]; if (has[j]) o.check(*obj[j]); }
        if (!tr::bad.empty()) seq::fail("%s: %s", what, tr::bad.c_str());
        if (o.count() < n) seq::fail("%s: a resource was released while owned", what);
    }
    for (auto*& x : obj) { delete x; x = nullptr; }
    o.drop_held(); finish(what); if (o.count()) seq::fail("%s: %zu resources leaked", what, o.count());
    seq::outcome(std::to_string(held));
}
struct OpsMap { using type = xd::memory_mapping; static constexpr bool can_reset = true; static constexpr int cfaults = 0; std::vector<std::pair<void*, size_t>> heldv; size_t nth = 0;
    type make() { return type(nullptr, PG * (1 + nth++ % 2), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS); }
    void reset(type& t) { t.reset(); } void reset_to(type& t) { size_t n = PG * (1 + nth++ % 2); void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); t.reset(p, n); }
    void release(type& t, bool h) { if (h) heldv.push_back({t.get(), t.length()}); t.release(); } void drop_held() { for (auto& [p, n] : heldv) munmap(p, n); heldv.clear(); }
    void check(type& t) { for (size_t i = 0; i < t.length(); i += PG) if (!tr::pages.count(uintptr_t(t.get()) + i)) seq::fail("memory_mapping: memory was unmapped while owned"); static_cast<volatile char*>(t.get())[t.length() - 1] = 1; }
    size_t count() { return tr::pages.empty() ? 0 : 3; } };
struct OpsFd { using type = xd::file_descriptor; static constexpr bool can_reset = true; static constexpr int cfaults = 2; std::vector<int> heldv; std::vector<int> base = tr::fds();
    int mk() { return memfd_create("f", 0); } type make() { return type(mk()); } void reset(type& t) { t.reset(); } void reset_to(type& t) { t.reset(mk()); } void release(type& t, bool h) { int f = t.release(); if (h) heldv.push_back(f); else if (f != -1) seq::fail("release of an empty file_descriptor returned %d", f); }
    void drop_held() { tr::cfaults = 0; for (int f : heldv) close(f); heldv.clear(); } void check(type& t) { if (tr::raw(SYS_fcntl, t.get(), F_GETFD) < 0) seq::fail("file_descriptor: descriptor was closed while owned"); } size_t count() { return tr::fds().size() - base.size(); } };
struct OpsMir { using type = xd::mirrored_memory_mapping; static constexpr bool can_reset = false; static constexpr int cfaults = 0; type make() { return type(PG); } void reset(type&) {} void reset_to(type&) {} void release(type&, bool) {} void drop_held() {}
    void check(type& t) { volatile char* p = static_cast<char*>(t.get()); p[0] = 7; if (p[t.length()] != 7) seq::fail("mirrored mapping broken"); } size_t count() { return tr::pages.empty() ? 0 : 3; } };
static void own_map() { owners<OpsMap>("memory_mapping"); }
static void own_fd() { owners<OpsFd>("file_descriptor"); }
static void own_mir() { owners<OpsMir>("mirrored_memory_mapping"); }
// the ring against a reference queue, from many values of the free-running counters
template<class R> static void ring_run(R& r, size_t cap)
{
    static const uint64_t starts[] = {0, 1, 4095, (1ull << 32) - 8, (1ull << 63) - 100, ~0ull - 4095, ~0ull - 7, ~0ull};
    uint64_t st = starts[seq::choose(8)]; if (r.capacity() != cap) seq::fail("capacity is %zu", r.capacity());
    r.clear(); if (st) { r.reduce_writable(st); r.reduce_readable(st); }
    (void)r.write_span(); seq::note("counters at %llx, capacity %zu", (unsigned long long)st, cap);
    std::vector<unsigned char> q; unsigned char next = 1; uint64_t wpos = st; size_t drops = 0; int depth = seq::thorough() ? 6 : 5; const size_t sz[] = {1, 8, cap / 2 - 1, cap - 9, cap};
    for (int i = 0; i < depth; ++i) {
        int op = seq::choose(12); size_t fr = cap - q.size();
        auto put = [&](typename R::span s, size_t n) { // offered span: at the write position in the first view
            if (s.begin() != r.begin() + wpos % cap) seq::fail("the writer was offered offset %td instead of %llu", s.begin() - r.begin(), (unsigned long long)(wpos % cap));
            if (s.size() < n || s.size() > fr) seq::fail("the writer was offered %zu bytes, %zu are free", size_t(s.size()), fr);
            for (size_t j = 0; j < n; ++j) { s.begin()[j] = std::byte(next); q.push_back(next); next = (unsigned char)(next * 5 + 1); }
            r.reduce_writable(n); wpos += n; };
        if (op < 5) { size_t n = sz[op]; if (n > fr) { // would block: only the non-blocking form may be tried
                typename R::span s = r.template write_span<void(xtr::non_blocking_tag)>(n); seq::note("try %zu", n); ++drops; if (!s.empty()) seq::fail("%zu bytes were offered to a non-blocking writer although %zu are free", n, fr); }
            else { seq::note("w%zu", n); typename R::span s = r.write_span(n); if (s.size() != fr) seq::fail("the writer was offered %zu bytes, %zu are free", size_t(s.size()), fr); put(s, n); } }
        else if (op == 5) { seq::note("spec"); typename R::span s = r.write_span_spec(); if (s.size() > fr) seq::fail("the writer was offered %zu bytes, %zu are free", size_t(s.size()), fr); put(s, std::min<size_t>(s.size(), 24)); }
        else if (op == 6) { seq::note("spec try"); size_t n = 40; typename R::span s = r.template write_span_spec<void(xtr::non_blocking_tag)>(n); if (n > fr) { ++drops; if (!s.empty()) seq::fail("offered too much"); } else { if (s.size() < n) seq::fail("a non-blocking writer was refused %zu bytes although %zu are free", n, fr); put(s, n); } }
        else if (op == 7) { seq::note("all"); put(r.write_span(), fr); }
        else if (op < 11) { typename R::span s = r.read_span(); if (s.size() != q.size()) seq::fail("the reader was offered %zu bytes of %zu", size_t(s.size()), q.size());
            if (!q.empty() && s.begin() != r.begin() + (wpos - q.size()) % cap) seq::fail("the reader was offered the wrong position");
            for (size_t j = 0; j < q.size(); ++j) if (s.begin()[j] != std::byte(q[j])) seq::fail("byte %zu of %zu read is wrong", j, q.size());
            size_t n = op == 8 ? q.size() : op == 9 ? (q.size() + 1) / 2 : std::min<size_t>(q.size(), 8); seq::note("r%zu", n); r.reduce_readable(n); q.erase(q.begin(), q.begin() + long(n)); }
        else { seq::note("drops"); size_t d = r.dropped_count(); if (d != drops) seq::fail("%zu drops counted instead of %zu", d, drops); drops = 0; }
    }
    const R& cr = r; auto s = cr.read_span(); if (s.size() != q.size()) seq::fail("the reader was offered %zu bytes of %zu at the end", size_t(s.size()), q.size());
    for (size_t j = 0; j < q.size(); ++j) if (s.begin()[j] != std::byte(q[j])) seq::fail("byte %zu of %zu read is wrong at the end", j, q.size());
    if (r.dropped_count() != drops) seq::fail("wrong drop count at the end"); r.clear(); if (r.read_span().size() || r.write_span().size() != cap || r.dropped_count()) seq::fail("a cleared ring is not empty");
    seq::outcome(std::to_string(q.size()));
}
static void ring()
{
    tr::reset();
    switch (seq::choose(3)) {
    case 0: { static auto* r = new xd::synchronized_ring_buffer<4096>; ring_run(*r, 4096); break; }
    case 1: { static auto* r = new xd::synchronized_ring_buffer<>(4096); ring_run(*r, 4096); break; }
    case 2: { static auto* r = new xd::synchronized_ring_buffer<65536>; ring_run(*r, 65536); break; }
    }
}
// dynamic capacities
static void capacities()
{
    tr::reset(); static const long d[] = {-1, 0, 1}; int p = 1 + seq::choose(seq::thorough() ? 24 : 20); size_t n = size_t((1l << p) + d[seq::choose(3)]); if (n == 0) n = 1; size_t want = PG; while (want < n) want *= 2; seq::note("minimum %zu", n);
    tr::on = true; tr::faults = 1;
    try { xd::synchronized_ring_buffer<> r(n, -1, 0, 0); tr::faults = 0; if (tr::failed) seq::fail("a failure was not reported [%s]", tr::hist.c_str()); if (r.capacity() != want) seq::fail("a ring of at least %zu bytes has capacity %zu", n, r.capacity()); if (r.write_span().size() != want || !r.read_span().empty()) seq::fail("a new ring is not empty"); alias(r.begin(), want, false); } catch (const std::system_error&) { if (!tr::failed) seq::fail("creation failed although nothing failed"); }
    finish("ring"); seq::outcome(tr::hist);
}
// sinks and loggers when memory runs out
static void users()
{
    tr::reset(); auto before = tr::fds(); tr::on = true; tr::faults = 2; tr::cfaults = 1; int k = seq::choose(2);
    try { if (k == 0) { xtr::sink s; tr::faults = 0; if (tr::failed) seq::fail("a failure was not reported"); } else { xtr::sink a; xtr::sink b(a); b = a; tr::faults = 0; } } catch (const std::system_error&) { if (!tr::failed) seq::fail("creation failed although nothing failed"); }
    seq::note("%s", tr::hist.c_str()); finish("sink"); if (tr::fds() != before) seq::fail("a descriptor leaked"); seq::outcome(tr::hist);
}
int main(int argc, char** argv)
{
    return seq::main_(argc, argv, "C21",
        "histories differ in mapping length (0 to 64 pages, thorough 256, and lengths around them), backing, and the subset of up to two failing mmap/mremap calls and of failing close calls; sequences of construct, move, assign, swap, reset, release and destroy over three owners (depth 5, thorough 6); sequences of writes and reads of boundary sizes on rings with the counters starting at eight values up to 2^64 (depth 5, thorough 6)",
        {{"sizes", sizes}, {"own_map", own_map}, {"own_fd", own_fd}, {"own_mirrored", own_mir}, {"ring", ring}, {"capacities", capacities}, {"users", users}}, {"4 KB pages", "munmap does not fail; a close that fails has closed the descriptor (Linux)"});
}
