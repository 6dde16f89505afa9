// C17: rotation of a whole logger's file through its command socket. The background thread
// is advanced one round at a time; every way of constructing the logger is used.
#include "fakeuring.h"
#include "ctl.h"
#include <xtr/io/fd_storage.hpp>
using namespace ctl;
// arguments whose formatting shows that a message has been processed
static std::atomic<int> processed{0};
struct Msg { int id; unsigned n; char at(size_t i) const { return char('a' + (size_t(id) * 7 + i) % 26); } };
template<> struct fmt::formatter<Msg> {
    template<class C> constexpr auto parse(C& c) { return c.begin(); }
    template<class C> auto format(const Msg& m, C& c) const { processed = m.id; std::string s; for (size_t i = 0; i < m.n; ++i) s += m.at(i); return fmt::format_to(c.out(), "{}", s); }
};
static std::string slurp(const std::string& p)
{
    int fd = int(raw(SYS_openat, AT_FDCWD, long(p.c_str()), O_RDONLY, 0)); if (fd < 0) return "<missing>";
    std::string s; static char b[1 << 18]; long n; while ((n = raw(SYS_read, fd, long(b), sizeof b)) > 0) s.append(b, size_t(n)); raw(SYS_close, fd); return s;
}
struct Custom : xtr::storage_interface {
    std::string path; int fd; int err; char b[512];
    Custom(std::string p, int e) : path(std::move(p)), fd(::open(path.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644)), err(e) {}
    ~Custom() { ::close(fd); }
    std::span<char> allocate_buffer() override { return {b, sizeof b}; }
    void submit_buffer(char* p, std::size_t n) override { if (::write(fd, p, n) != ssize_t(n)) abort(); }
    void flush() override {}
    void sync() noexcept override {}
    int reopen() noexcept override { if (err) return err; int f = ::open(path.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644); if (f < 0) return errno; ::close(fd); fd = f; return 0; }
};
struct Line { std::string text; int lo, hi, id; };
static void rotate(int how, int back, int depth)
{
    static const char* const how_[] = {"path", "stream+path", "stream", "make_fd_storage", "custom", "custom failing", "stream+path posix-mode w"};
    bool posix = back == 0; bool exists = how == 0 && seq::flip(); fk::reset(); fk::init_error = posix ? ENOSYS : 0; fk::policy = back == 3 ? 2 : 1; fk::eager = back == 1;
    std::string d = std::string(seq::scratch_dir()) + "/r" + std::to_string(getpid()), away = d + ".away", path = d + "/log";
    rename(away.c_str(), d.c_str()); mkdir(d.c_str(), 0755); for (int i = 0; i < 9; ++i) unlink((path + (i ? "." + std::to_string(i) : "")).c_str());
    seq::note("%s%s%s", how_[how], posix ? " posix" : back == 1 ? " eager" : back == 2 ? " oldest" : " newest", exists ? " exists" : "");
    is_main = true; bad.clear(); hist.clear(); injected.clear(); nfault = 0; faulty = false; faults = 0; small_window = 0; on_recv = nullptr; gate = 0; permit = 0; parked = 0; processed = 0;
    std::string sp = sock_path(); ::unlink(sp.c_str()); int fds0 = count_fds();
    std::vector<std::string> files{path}; std::vector<Line> lines; int cur = 0, id = 0, rot = 0; std::string old;
    if (exists) { old = "old line\n"; int f = ::open(path.c_str(), O_CREAT | O_WRONLY, 0644); if (::write(f, old.data(), old.size()) < 0) {} ::close(f); }
    FILE* fp = how == 1 || how == 2 ? fopen(path.c_str(), "a") : how == 6 ? fopen(path.c_str(), "w") : nullptr;
    int e0 = how == 5 ? (seq::flip() ? ENOSPC : EXDEV) : 0; bool can = how != 2 && how != 5;
    hooks = true; std::unique_ptr<xtr::logger> L;
    switch (how) {
    case 0: L.reset(new xtr::logger(path.c_str(), lg::Clock(), sp)); break;
    case 1: case 6: L.reset(new xtr::logger(path, fp, lg::Clock(), sp)); break;
    case 2: L.reset(new xtr::logger(fp, lg::Clock(), sp)); break;
    case 3: L.reset(new xtr::logger(xtr::make_fd_storage(path.c_str()), lg::Clock(), sp)); break;
    default: L.reset(new xtr::logger(std::make_unique<Custom>(path, e0), lg::Clock(), sp)); break;
    }
    auto s = std::make_unique<xtr::sink>(L->get_sink("s")), t = std::make_unique<xtr::sink>(L->get_sink("t")); s->sync(); t->sync(); park(); tick();
    std::unique_ptr<Client> c; int kind = 0; // request under way: 1 nothing moved, 2 file moved, 3 directory gone
    auto reply = [&] {
        if (!finish(*c)) seq::fail("a reopen request is not answered"); bool ok = can && (kind != 3);
        if (c->got.size() != 1 || !(ok ? is_success(c->got[0]) : is_error(c->got[0]))) seq::fail("a reopen request that %s was answered with %s", ok ? "can be carried out" : "cannot be carried out", show(c->got).c_str());
        c.reset(); if (kind == 3) rename(away.c_str(), d.c_str());
        if (ok && files.back() != path) { files.push_back(path); ++cur; }
        kind = 0;
    };
    auto log = [&](unsigned n) {
        Msg m{++id, n}; int ln; XTR_LOG(*s, "m{} {}", id, m); ln = __LINE__; std::string b; for (size_t i = 0; i < n; ++i) b += m.at(i);
        lines.push_back({lg::line('I', "s", "c17l.cpp", ln, "m" + std::to_string(id) + " " + b), cur, cur + (c && kind != 3 && can && files.back() != path), id}); };
    for (int i = 0; i < depth; ++i) {
        int op = seq::choose(c ? 4 : 7);
        switch (op) {
        case 0: log(3); seq::note("log"); break;
        case 1: log(70000); seq::note("LOG"); break;
        case 2: tick(); seq::note("tick"); break;
        case 3: if (c) { reply(); seq::note("reply"); } else { unpark(); s->sync(); park(); tick(); seq::note("sync"); } break;
        default:
            kind = op - 3; seq::note(kind == 1 ? "reopen" : kind == 2 ? "mv+reopen" : "nodir+reopen");
            if (kind == 2 && files.back() == path) { std::string m = path + "." + std::to_string(++rot); rename(path.c_str(), m.c_str()); files.back() = m; }
            if (kind == 3) rename(d.c_str(), away.c_str());
            if (kind != 3 && can && files.back() != path) for (auto& l : lines) if (l.id > processed) l.hi = cur + 1;
            c.reset(new Client); if (!c->open(sp)) seq::fail("cannot connect"); { std::string r = req_reopen(); if (!c->send(r.data(), r.size())) seq::fail("cannot send"); }
        }
    }
    if (c) reply();
    unpark(); log(2); s->sync();
    auto check = [&](const char* when) {
        std::string want = old; size_t k = 0;
        for (size_t f = 0; f < files.size(); ++f) {
            std::string got = slurp(files[f]); size_t p = 0; if (f == 0) { if (got.compare(0, old.size(), old)) seq::fail("%s: the content of the file was not kept", when); p = old.size(); }
            for (; p < got.size(); ++k) {
                if (k >= lines.size()) seq::fail("%s: something was written twice", when);
                auto& l = lines[k]; if (got.compare(p, l.text.size(), l.text)) seq::fail("%s: file %zu of %zu does not continue with message m%d but with \"%s\"", when, f + 1, files.size(), l.id, lg::esc(got.substr(p, 120)).c_str());
                if (int(f) < l.lo || int(f) > l.hi) seq::fail("%s: message m%d is in file %zu of %zu, expected %d..%d", when, l.id, f + 1, files.size(), l.lo + 1, l.hi + 1);
                p += l.text.size();
            }
        }
        if (k != lines.size()) seq::fail("%s: message m%d is missing", when, lines[k].id);
        if (files.back() != path && slurp(path) != "<missing>") seq::fail("%s: unexpected file at the path", when);
    };
    if (how < 4 || how == 6) check("after sync");
    s.reset(); t.reset(); L.reset(); hooks = false; check("after destruction");
    if (!bad.empty()) seq::fail("%s", bad.c_str());
    if (fp) { if (fputs("mine\n", fp) < 0 || fclose(fp)) seq::fail("the caller's stream was damaged"); std::string g = slurp(files[0]); if (how != 6 && (g.size() < 5 || g.substr(g.size() - 5) != "mine\n")) seq::fail("the caller's stream no longer writes to its file"); }
    int n = count_fds(); if (n != fds0) seq::fail("%d descriptors open instead of %d after destruction", n, fds0);
    seq::outcome(fmt::format("{} {} {}", how, files.size(), lines.size()));
}
static void ctors() { int how = seq::choose(7); int back = how == 4 || how == 5 ? 0 : seq::choose(4); rotate(how, back, seq::thorough() ? 5 : 3); }
static void deep() { rotate(0, seq::choose(2) * 2, seq::thorough() ? 6 : 4); }
int main(int argc, char** argv)
{
    return seq::main_(argc, argv, "C17",
        "sequences of log statements (short, longer than a buffer), rounds of the background thread, syncs and reopen requests (file in place, file moved away, directory gone) on a whole logger built in each possible way over real files, with the plain back-end and io_uring completing requests at once, oldest or newest first",
        {{"ctors", ctors}, {"deep", deep}}, {});
}
