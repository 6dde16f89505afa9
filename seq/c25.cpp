// C25: layout of a line.
#include "fakeuring.h"
#include "variants.h"
#include <xtr/io/fd_storage.hpp>
using namespace lg;
static const char* custom(xtr::log_level_t l) { static const char* t[] = {"[none]", "[F] ", "", "warn|", "{} ", "a much longer prefix for debug statements than anyone would want: "}; return t[int(l)]; }
static const char* odd(xtr::log_level_t l) { static const char* t[] = {"0%s ", "1%s ", "2%s ", "3%s ", "4%s ", "5%s "}; return t[int(l)]; }
static const char* ref_style(int st, int lv)
{
    static const char* d[] = {"", "F ", "E ", "W ", "I ", "D "}; static const char* sd[] = {"", "<0>", "<3>", "<4>", "<6>", "<7>"};
    return st == 0 ? d[lv] : st == 1 ? sd[lv] : st == 2 ? custom(xtr::log_level_t(lv)) : odd(xtr::log_level_t(lv));
}
static xtr::log_level_style_t style(int st) { return st == 0 ? &xtr::default_log_level_style : st == 1 ? &xtr::systemd_log_level_style : st == 2 ? &custom : &odd; }
static const char* const names[] = {"s", "", "a name", "{}", "{0}{", "%d%s", "N\303\204me", "sub/dir:1", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"};
constexpr int NN = int(sizeof names / sizeof *names);
static xtr::sink& z() { static xtr::sink* s = new xtr::sink(L().get_sink("z")); return *s; }
static std::string ref_line(int st, int lv, const std::string& name, const char* file, int ln, const std::string& msg) { return std::string(ref_style(st, lv)) + TS + " " + name + " " + file + ":" + std::to_string(ln) + ": " + msg + "\n"; }
// prefix of each level in each style x macro x name
static void layout()
{
    int st = seq::choose(4), lv = 1 + seq::choose(5), k = seq::choose(var::NK), nm = seq::choose(NN); bool a = seq::flip();
    seq::note("style%d level%d %s name%d%s", st, lv, var::kname(k), nm, a ? " args" : "");
    L().set_log_level_style(style(st));
    xtr::sink s = L().get_sink(names[nm]); s.set_level(xtr::log_level_t::debug); var::evals = 0;
    if (lv == 1) { lv = 4; var::unlevelled(k, s, a); } else var::levelled(lv, k, s, a);
    s.close(); z().sync();
    expect(var::norm(take(), k, strlen(ref_style(st, lv))), ref_line(st, lv, names[nm], "variants.h", var::last_line, a ? "v 1" : "plain"), "line");
    seq::outcome(fmt::format("{}{}", st, lv));
}
// source positions
struct Site { void (*fn)(xtr::sink&); const char* file; int line; const char* msg; };
#define SITE(X) static void X(xtr::sink& s)
#line 1 "a.cpp"
SITE(p0) { XTR_LOG(s, "m"); }
#line 9 "/a.cpp"
SITE(p1) { XTR_LOG(s, "m {}", 1); }
#line 10 "/x/y/long-name_1.2.cc"
SITE(p2) { XTR_TRY_LOG(s, "m {}", "str"); }
#line 99 "./c"
SITE(p3) { XTR_LOGL(error, s, "m {:>3}|{:<4}|{:x}", 7, 12, 255); }
#line 100 "../d/e f.cpp"
SITE(p4) { XTR_LOG(s, "{{literal}} {}", 'c'); }
#line 999999 "C:\\dir\\w.cpp"
SITE(p5) { XTR_LOG(s, ""); }
#line 1000000 "dir/dir/../z.hpp"
SITE(p6) { XTR_LOG(s, "{} {}", 2, 1); }
#line 12345 "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz/q"
SITE(p7) { XTR_LOG_TS(s, (xtr::timespec{std::timespec{946688523, 123456789}}), "ts {}", 1); }
#line 3 "q/"
SITE(p8) { XTR_LOG(s, "no base name"); }
#line 7 "-"
SITE(p9) { XTR_LOG(s, "%d %s \\ \" ' \t tab"); }
#line 70 "c25.cpp"
static const Site sites[] = {{p0, "a.cpp", 1, "m"}, {p1, "a.cpp", 9, "m 1"}, {p2, "long-name_1.2.cc", 10, "m str"}, {p3, "c", 99, "m   7|12  |ff"}, {p4, "e f.cpp", 100, "{literal} c"}, {p5, "C:\\dir\\w.cpp", 999999, ""}, {p6, "z.hpp", 1000000, "2 1"}, {p7, "q", 12345, "ts 1"}, {p8, "", 3, "no base name"}, {p9, "-", 7, "%d %s \\ \" ' \t tab"}};
static void positions()
{
    int a = seq::choose(10), b = seq::choose(10), st = seq::choose(2); seq::note("site%d site%d", a, b);
    L().set_log_level_style(style(st));
    xtr::sink s = L().get_sink("s"); s.set_level(xtr::log_level_t::debug); sites[a].fn(s); sites[b].fn(s); s.close(); z().sync();
    auto w = [&](int i) { return ref_line(st, i == 3 ? 2 : 4, "s", sites[i].file, sites[i].line, sites[i].msg); };
    expect(take(), w(a) + w(b), "lines");
    seq::outcome(sites[a].file);
}
// histories of name and style changes, messages and syncs on two sinks
static void history()
{
    int depth = seq::thorough() ? 7 : 5, st = 0; L().set_log_level_style(style(0));
    xtr::sink s[2] = {L().get_sink("one"), L().get_sink("two")}; std::string nm[2] = {"one", "two"}, got; struct Ent { std::string name; int st0, st1, n; }; std::vector<Ent> want[2]; bool synced[2] = {true, true}; int n = 0;
    auto log = [&](int i) { ++n; XTR_LOG(s[i], "m{}", n); want[i].push_back({nm[i], st, -1, n}); synced[i] = false; return __LINE__; }; int ln = 0;
    for (int i = 0; i < depth; ++i) {
        int op = seq::choose(7);
        switch (op) {
        case 0: case 1: ln = log(op); seq::note("log%d", op); break;
        case 2: case 3: { static const char* r[] = {"renamed", "", "{}"}; nm[op - 2] = r[(i + op) % 3]; s[op - 2].set_name(nm[op - 2]); seq::note("rename%d", op - 2); break; }
        case 4: case 5: { int ns = (st + (op == 4 ? 1 : 2)) % 4; for (int j = 0; j < 2; ++j) if (!synced[j]) for (auto& e : want[j]) if (e.st1 < 0) e.st1 = ns; L().set_log_level_style(style(ns)); st = ns; seq::note("style%d", st); break; }
        case 6: s[0].sync(); for (auto& e : want[0]) if (e.st1 < 0) e.st1 = e.st0; synced[0] = true; seq::note("sync0"); break;
        }
    }
    s[0].sync(); s[1].sync(); got = take();
    // one interleaving of the two sequences; messages not yet processed when the style changed may show either
    size_t p[2] = {0, 0}; std::string rest = got;
    while (!rest.empty()) {
        size_t e = rest.find('\n'); if (e == std::string::npos) seq::fail("unfinished line"); std::string l = rest.substr(0, e + 1); rest.erase(0, e + 1); bool ok = false;
        for (int j = 0; j < 2 && !ok; ++j) if (p[j] < want[j].size()) {
            auto& w = want[j][p[j]]; auto m = fmt::format("m{}", w.n);
            for (int v = 0; v < 4 && !ok; ++v) if ((v == w.st0 || v == w.st1 || (w.st1 >= 0 && w.st1 != w.st0)) && l == ref_line(v, 4, w.name, "c25.cpp", ln, m)) { ok = true; ++p[j]; }
        }
        if (!ok) seq::fail("unexpected line \"%s\"", esc(l).c_str());
    }
    for (int j = 0; j < 2; ++j) if (p[j] != want[j].size()) seq::fail("a message of sink %d is missing", j);
    seq::outcome(got);
}
// drop warnings
static void drops()
{
    int st = seq::choose(4), nm = seq::choose(NN), k = 1 + seq::choose(3); L().set_log_level_style(style(st));
    seq::note("style%d name%d %d drops", st, nm, k);
    std::string o; { Held h(0, names[nm]); static Blk b; XTR_TRY_LOG(h.s, "{}", Blk()); // fill up with whatever fits
        for (int i = 0; i < 700; ++i) XTR_TRY_LOG(h.s, "q"); h.let_go(); h.s.sync(); take();
        // measured: now the same again with exactly k more than fit
        static int fits = -1; (void)b;
        if (fits < 0) { Held g(0, "m"); for (int i = 0; i < 2000; ++i) XTR_TRY_LOG(g.s, "q"); g.let_go(); g.s.close(); z().sync(); fits = int(count_of(take(), ": q\n")); }
        L().set_log_level_style(style(st)); Held g(0, names[nm]); for (int i = 0; i < fits + k; ++i) XTR_TRY_LOG(g.s, "q"); g.let_go(); g.s.close(); z().sync(); o = take(); h.s.close(); }
    std::string w = std::string(ref_style(st, 3)) + TS + " " + names[nm] + ": " + std::to_string(k) + " messages dropped\n";
    if (o.size() < w.size() || o.substr(o.size() - w.size()) != w) seq::fail("drop warning is not \"%s\" but \"%s\"", esc(w).c_str(), esc(o.substr(o.size() > 200 ? o.size() - 200 : 0)).c_str());
    take(); seq::outcome(w);
}
// every constructor with each style, given or defaulted, and a history of style changes
extern "C" int fsync(int) { return 0; }
extern "C" int fdatasync(int) { return 0; }
static std::string slurp(const std::string& p) { std::string r; if (FILE* f = fopen(p.c_str(), "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); } return r; }
static void ctors()
{
    fk::reset(); fk::eager = 1; fk::policy = 1;
    int how = seq::choose(5), st = seq::choose(5), change = seq::choose(5); bool dflt = st == 4; if (dflt) st = 0; // 4: argument omitted
    static const char* const h[] = {"path", "stream", "stream+path", "storage", "make_fd_storage"}; seq::note("%s style%d%s change%d", h[how], st, dflt ? "(default)" : "", change);
    std::string p = std::string(seq::scratch_dir()) + "/l" + std::to_string(getpid()); unlink(p.c_str()); take(); FILE* fp = how == 1 || how == 2 ? fopen(p.c_str(), "a") : nullptr;
    std::string want; {
        std::unique_ptr<xtr::logger> l; std::string np = xtr::null_command_path; Clock c;
        switch (how) {
        case 0: l.reset(dflt ? new xtr::logger(p.c_str(), c, np) : new xtr::logger(p.c_str(), c, np, style(st))); break;
        case 1: l.reset(dflt ? new xtr::logger(fp, c, np) : new xtr::logger(fp, c, np, style(st))); break;
        case 2: l.reset(dflt ? new xtr::logger(p, fp, c, np) : new xtr::logger(p, fp, c, np, style(st))); break;
        case 3: l.reset(dflt ? new xtr::logger(std::make_unique<Mem>(), c, np) : new xtr::logger(std::make_unique<Mem>(), c, np, style(st))); break;
        default: l.reset(dflt ? new xtr::logger(xtr::make_fd_storage(p.c_str()), c, np) : new xtr::logger(xtr::make_fd_storage(p.c_str()), c, np, style(st))); break;
        }
        xtr::sink s = l->get_sink("s"); s.set_level(xtr::log_level_t::debug); int ln = 0;
        for (int k = 0; k < 2; ++k) {
            XTR_LOGL(error, s, "e"); want += ref_line(st, 2, "s", "c25.cpp", __LINE__, "e"); XTR_LOGL(warning, s, "w"); want += ref_line(st, 3, "s", "c25.cpp", __LINE__, "w");
            XTR_LOG(s, "i"); want += ref_line(st, 4, "s", "c25.cpp", __LINE__, "i"); XTR_LOGL(debug, s, "d"); want += ref_line(st, 5, "s", "c25.cpp", __LINE__, "d"); (void)ln;
            s.sync(); if (k == 0) { if (change == 4) break; st = change; l->set_log_level_style(style(st)); }
        }
    }
    expect(how == 3 ? take() : slurp(p), want, "lines"); if (fp) fclose(fp); seq::outcome(std::to_string(how));
}
int main(int argc, char** argv)
{
    return seq::main_(argc, argv, "C25",
        "histories differ in style, level, macro, sink name, arguments or not, pair of source positions, sequence of log, rename, style-change and sync operations on two sinks (depth 5, thorough 7), number of drops, logger constructor with given or defaulted style",
        {{"layout", layout}, {"positions", positions}, {"history", history}, {"drops", drops}, {"ctors", ctors}}, {"source file names contain no braces"});
}
