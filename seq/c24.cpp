// C24: failing messages and failing back-end calls.
#include "bstore.h"
#include <optional>
using namespace lg;
// an argument whose formatting fails, before or after producing some output
static std::atomic<int> live{0};
struct Bad { int mode; explicit Bad(int m) : mode(m) { live++; } Bad(const Bad& o) noexcept : mode(o.mode) { live++; } Bad(Bad&& o) noexcept : mode(o.mode) { live++; } ~Bad() { live--; } };
struct MyErr : std::exception { const char* what() const noexcept override { return "my error"; } };
struct OwnTs { int mode; };
static void fail_now(int mode) { switch (mode) { case 1: throw std::runtime_error("broken"); case 2: throw std::bad_alloc(); case 3: throw MyErr(); case 4: throw std::out_of_range(std::string(600, 'e')); case 5: throw fmt::format_error("{} %s \n"); default:; } }
template<> struct fmt::formatter<Bad> { template<class C> constexpr auto parse(C& c) { return c.begin(); } template<class C> auto format(const Bad& b, C& c) const { if (b.mode > 10) { fmt::format_to(c.out(), "PART\nPART {}", std::string(b.mode > 20 ? 3000 : 3, 'P')); fail_now(b.mode % 10); } fail_now(b.mode); return fmt::format_to(c.out(), "good{}", b.mode); } };
template<> struct fmt::formatter<OwnTs> { template<class C> constexpr auto parse(C& c) { return c.begin(); } template<class C> auto format(const OwnTs& b, C& c) const { if (b.mode > 10) fmt::format_to(c.out(), "PART"); fail_now(b.mode % 10); return fmt::format_to(c.out(), "{}", TS); } };
// ---- stderr capture ----
static int errfd = -1;
static void err_begin() { if (errfd < 0) { errfd = memfd_create("err", 0); } if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET); if (!seq::replaying) dup2(errfd, 2); }
static std::string err_end() { char b[20000]; ssize_t n = pread(errfd, b, sizeof b, 0); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); close(dn); return n > 0 ? std::string(b, size_t(n)) : ""; }
static xtr::sink& z() { static xtr::sink* s = new xtr::sink(L().get_sink("z")); return *s; }
constexpr int NK = 13;
static const char* knames[NK] = {"ok", "ok str", "throws", "throws bad_alloc", "throws own", "throws after part", "throws after much", "second arg throws", "string and throws", "bad format", "ok Bad", "ts throws", "ts throws after part"};
// logs a message of the kind; returns its text or nothing if it fails
static std::optional<std::string> emit(xtr::sink& s, int k, int n)
{
    switch (k) {
    case 0: XTR_LOG(s, "m{}", n); return line('I', "s", "c24.cpp", __LINE__, "m" + std::to_string(n));
    case 1: XTR_TRY_LOG(s, "{} {}", "str", n); return line('I', "s", "c24.cpp", __LINE__, "str " + std::to_string(n));
    case 2: XTR_LOG(s, "{}", Bad(1)); return {};
    case 3: XTR_LOG(s, "{}{}", Bad(2), n); return {};
    case 4: XTR_TRY_LOG(s, "{} x", Bad(3)); return {};
    case 5: XTR_LOG(s, "before {}", Bad(11)); return {};
    case 6: XTR_LOG(s, "{} {}", n, Bad(24)); return {};
    case 7: XTR_LOG(s, "{} {}", Bad(0), Bad(5)); return {};
    case 8: XTR_LOG(s, "{} {} {}", "abc", std::string("d"), Bad(13)); return {};
    case 9: XTR_LOG(s, "{:d}", "not a number"); return {};
    case 10: { XTR_LOG(s, "{}", Bad(0)); return line('I', "s", "c24.cpp", __LINE__, "good0"); }
    case 11: XTR_LOG_TS(s, OwnTs{1}, "{}", Bad(0)); return {};
    case 12: XTR_TRY_LOG_TS(s, OwnTs{15}, "{}", n); return {};
    }
    return {};
}
static void formats()
{
    int n = seq::thorough() ? 5 : 4; std::vector<int> k; for (int i = 0; i < n; ++i) { k.push_back(seq::choose(NK)); seq::note("%s,", knames[k.back()]); }
    int mode = seq::choose(3); bool noerr = mode == 2; // 1: all in one batch; 2: standard error cannot be written
    if (noerr) seq::note("stderr closed");
    z().sync(); take(); live = 0; err_begin(); if (noerr) close(2);
    std::string want; int fails = 0;
    {
        std::optional<Held> h; std::optional<xtr::sink> own; if (mode == 1) { h.emplace(0); want = h->want; } else own.emplace(L().get_sink("s")); xtr::sink& s = h ? h->s : *own;
        for (int i = 0; i < n; ++i) { auto t = emit(s, k[size_t(i)], i); if (t) want += *t; else ++fails; if (!h) s.sync(); }
        if (h) h->let_go();
        s.sync(); if (live) seq::fail("%d arguments of failed messages were not destroyed", int(live));
        XTR_LOG(s, "end"); want += line('I', "s", "c24.cpp", __LINE__, "end"); s.close();
    }
    z().sync(); std::string e = err_end();
    expect(take(), want, "log with failing messages");
    if (!noerr) { int lines = 0; for (size_t p = 0; (p = e.find("Error writing log", p)) != std::string::npos; ++p) ++lines; if (lines != fails) seq::fail("%d failures, %d reports on standard error: \"%s\"", fails, lines, esc(e).c_str()); }
    seq::outcome(std::to_string(fails));
}
// ---- failing back-end calls ----
constexpr int mline = __LINE__ + 1;
static void say(xtr::sink& s, const std::string& t) { XTR_LOG(s, "{}", t); }
static void backend()
{
    static const size_t sz[] = {1000, 16, 50, 61, 120}; int nm = seq::thorough() ? 5 : 4; size_t size = sz[seq::choose(5)];
    auto rec = std::make_shared<bs::Rec>(); rec->sizes = {size}; rec->line_ends = false; std::vector<std::string> lines; std::string full; long seen_fail = 0;
    seq::note("buffers %zu", size);
    int nf = 1 + seq::choose(2); std::string d;
    for (int i = 0; i < nf; ++i) { int kind = seq::choose(3); int at = seq::choose(seq::thorough() ? 12 : 8); (kind == 0 ? rec->fsub : kind == 1 ? rec->falloc : rec->fflush).push_back(at); d += fmt::format("{}#{} ", kind == 0 ? "submit" : kind == 1 ? "allocate" : "flush", at); }
    rec->exc = nf == 1 ? seq::choose(5) : int((rec->fsub.size() + 2 * rec->falloc.size() + size_t(size)) % 5); d += fmt::format("(exception {}) ", rec->exc);
    unsigned syncs = unsigned(seq::choose(4)); bool noerr = seq::flip(); seq::note("fail %s syncs %u%s", d.c_str(), syncs, noerr ? " stderr closed" : "");
    err_begin(); if (noerr) close(2);
    {
        xtr::logger l(std::make_unique<bs::St>(rec), Clock(), xtr::null_command_path); xtr::sink s = l.get_sink("s"); 
        int id = ++Held::next; XTR_LOG(s, "{}", Stall{id}); wait_entered(id); bool held = true; lines.push_back(line('I', "s", "c24.cpp", __LINE__, "stall"));
        for (int i = 0; i < nm; ++i) { std::string t(size_t(i == 1 ? 0 : i * 20 + 1), char('a' + i)); t = fmt::format("<{}{}>", i, t); say(s, t); lines.push_back(line('I', "s", "c24.cpp", mline, t)); if (i >= 1 && (syncs >> (i - 1) & 1)) { if (held) release(id); held = false; s.sync(); } }
        if (held) release(id);
        s.sync(); s.close();
    }
    std::string e = err_end(); seen_fail = rec->failures;
    // protocol violations other than those a failure permits
    if (!rec->bad.empty() && rec->bad.find("in the middle") == std::string::npos && rec->bad.find("still to be submitted") == std::string::npos) seq::fail("%s", rec->bad.c_str());
    if (!rec->gone) seq::fail("the back-end was not released");
    // Which lines may be affected: those with bytes in a buffer that failed, and the one being written at the time.
    for (auto& x : lines) full += x;
    std::vector<bool> hit(lines.size(), false); std::string key;
    for (auto& [kind, data] : rec->fails) {
        int last = -1;
        for (size_t i = 0; i < lines.size(); ++i) {
            std::string tag = i == 0 ? "stall" : fmt::format("<{}", i - 1);
            if (kind == 'a') { if (data.find(lines[i]) != std::string::npos) last = int(i); }
            else if (data.find(tag) != std::string::npos) { hit[i] = true; last = int(i); if (i) hit[i - 1] = true; }
        }
        if (kind == 's' && last < 0) { for (size_t i = 0; i < hit.size(); ++i) hit[i] = true; continue; } // a buffer too small to tell
        for (size_t i = size_t(last + 1); i < lines.size(); ++i) if (!hit[i]) { hit[i] = true; break; } // the line being written
    }
    size_t at = 0;
    for (size_t i = 0; i < lines.size(); ++i) {
        size_t n = count_of(rec->out, i == 0 ? ": stall\n" : fmt::format("<{}", i - 1).c_str()); if (n > 1) seq::fail("line %zu was delivered %zu times [%s]", i, n, esc(rec->out).c_str());
        size_t p = rec->out.find(lines[i], at); if (p != std::string::npos) at = p + lines[i].size(); else if (!hit[i]) seq::fail("line %zu, which no failure concerns, is not intact in the log \"%s\"", i, esc(rec->out).c_str());
    }
    if (seen_fail == 0 && rec->out != full) seq::fail("nothing failed but the log is \"%s\"", esc(rec->out).c_str());
    if (rec->out.size() > full.size()) seq::fail("more was delivered than was logged: \"%s\"", esc(rec->out).c_str());
    if (!noerr && seen_fail && e.find("Error") == std::string::npos) seq::fail("a failure of the back-end was not reported");
    seq::outcome(std::to_string(rec->out.size()));
}
int main(int argc, char** argv)
{
    return seq::main_(argc, argv, "C24",
        "histories differ in the kinds of four (thorough five) messages (succeeding, failing before, in the middle of or after output, in a string table record, through a bad format or a failing timestamp), whether they are processed one by one or in one batch, whether standard error works; which one or two of the first 8 (12) submit, allocate and flush calls fail and with what exception, the buffer size and the sync points",
        {{"formats", formats}, {"backend", backend}}, {"failures are reported by exceptions derived from std::exception", "a back-end failure may cut the line being written and may split lines"});
}
