// C12: log levels. Built twice: with and without XTR_NDEBUG.
#include "variants.h"
#include <optional>
using namespace lg;
#ifdef DEBUG_OUT
constexpr bool no_debug = true;
#else
constexpr bool no_debug = false;
#endif
using LV = xtr::log_level_t;
static const char* lname[] = {"none", "fatal", "error", "warning", "info", "debug"};
static const char lchar[] = "?FEWID";
// every statement level x macro x sink level x with/without arguments, several in a row
static void filter()
{
    xtr::sink s = L().get_sink("s");
    int n = seq::thorough() ? 3 : 2; std::string want, got;
    for (int i = 0; i < n; ++i) {
        int sl = seq::choose(6), lv = i == 1 && !seq::thorough() ? 2 + seq::choose(2) * 2 : 2 + seq::choose(4), k = i == 0 ? seq::choose(var::NK) : seq::choose(2) * 5; bool a = i == 0 ? seq::flip() : true;
        seq::note("sink %s: XTR_%s level %s%s", lname[sl], var::kname(k), lname[lv], a ? "" : " plain");
        s.set_level(LV(sl));
        if (int(s.level()) != sl) seq::fail("level() returned %d after set_level(%d)", int(s.level()), sl);
        var::evals = var::ts_evals = 0;
        var::levelled(lv, k, s, a);
        s.sync(); got = var::norm(take(), k, 2);
        bool pass = sl >= lv && !(no_debug && lv == 5);
        want = pass ? line(lchar[lv], "s", "variants.h", var::last_line, a ? "v 1" : "plain") : "";
        expect(got, want, pass ? "a statement that the level admits" : "a statement below the sink's level");
        if (var::evals != (pass && a)) seq::fail("the arguments of a %s statement were evaluated %d times", pass ? "logged" : "filtered", var::evals);
        if (var::ts_evals != (pass && (k == var::TS || k == var::TRYTS))) seq::fail("the timestamp expression of a %s statement was evaluated %d times", pass ? "logged" : "filtered", var::ts_evals);
        seq::outcome(want.substr(0, 1));
    }
    s.close();
}
static void always()
{
    int sl = seq::choose(6), k = seq::choose(var::NK); bool a = seq::flip();
    seq::note("sink %s: XTR_%s%s", lname[sl], var::kname(k), a ? "" : " plain");
    xtr::sink s = L().get_sink("s"); s.set_level(LV(sl)); var::evals = var::ts_evals = 0;
    var::unlevelled(k, s, a); s.close();
    static xtr::sink* z = new xtr::sink(L().get_sink("z")); z->sync();
    expect(var::norm(take(), k, 2), line('I', "s", "variants.h", var::last_line, a ? "v 1" : "plain"), "an unlevelled statement");
    if (var::evals != a) seq::fail("arguments evaluated %d times", var::evals);
    seq::outcome("A");
}
// levels of sinks: default, copies, assignment, independence
static void propagation()
{
    static xtr::logger* l = new xtr::logger(std::make_unique<Mem>(), Clock(), xtr::null_command_path);
    int depth = seq::thorough() ? 8 : 6; std::optional<xtr::sink> s[3]; int lv[3] = {-1, -1, -1}; bool open[3] = {false, false, false}; int def = 4; l->set_default_log_level(LV::info);
    static const int some[] = {0, 3, 5};
    for (int i = 0; i < depth; ++i) {
        struct Op { int op, a, v; }; std::vector<Op> en;
        for (int v : some) if (v != def) en.push_back({0, 0, v});
        for (int a = 0; a < 2; ++a) {
            int b = 1 - a;
            if (!s[a]) { if (a == 0 || s[0]) en.push_back({1, a, 0}); if (s[b]) en.push_back({3, a, 0}); continue; }
            for (int v : some) if (v != lv[a]) en.push_back({2, a, v});
            if (s[b]) en.push_back({4, a, 0});
            en.push_back({open[a] ? 6 : 5, a, 0});
        }
        Op o = en[size_t(seq::choose(int(en.size())))]; int a = o.a, b = 1 - a;
        switch (o.op) {
        case 0: def = o.v; seq::note("default %s", lname[def]); l->set_default_log_level(LV(def)); break;
        case 1: seq::note("get %d", a); s[a].emplace(l->get_sink("n")); lv[a] = def; open[a] = true; break;
        case 2: lv[a] = o.v; seq::note("set %d %s", a, lname[lv[a]]); s[a]->set_level(LV(lv[a])); break;
        case 3: seq::note("copy %d to %d", b, a); s[a].emplace(*s[b]); lv[a] = lv[b]; open[a] = open[b]; break;
        case 4: seq::note("assign %d = %d", a, b); *s[a] = *s[b]; lv[a] = lv[b]; open[a] = open[b]; break;
        case 5: seq::note("register %d", a); l->register_sink(*s[a], "n"); open[a] = true; break;
        case 6: seq::note("close %d", a); s[a]->close(); open[a] = false; break;
        }
        for (int j = 0; j < 2; ++j) if (s[j]) {
            if (int(s[j]->level()) != lv[j]) seq::fail("sink %d has level %d, expected %s", j, int(s[j]->level()), lname[lv[j]]);
        }
    }
    seq::outcome(fmt::format("{}{}", lv[0], lv[1]));
    for (auto& x : s) x.reset();
    take();
}
// parsing
static int parse(std::string_view t) { try { return int(xtr::log_level_from_string(t)); } catch (const std::invalid_argument&) { return -1; } catch (...) { seq::fail("wrong exception for '%s'", esc(std::string(t)).c_str()); } }
static int lref(std::string_view t) { for (int i = 0; i < 6; ++i) if (t == lname[i]) return i; return -1; }
static void spelling()
{
    int kind = seq::choose(3); std::vector<std::string> v;
    if (kind == 0) { v = {""}; for (int a = 0; a < 256; ++a) { v.push_back(std::string(1, char(a))); } int b = seq::choose(256); for (int a = 0; a < 256; ++a) v.push_back({char(b), char(a)}); }
    else {
        std::string n = lname[seq::choose(6)];
        if (kind == 1) { // one edit
            size_t p = size_t(seq::choose(int(n.size()) + 1));
            for (int c = 0; c < 256; ++c) { std::string t = n; t.insert(p, 1, char(c)); v.push_back(t); if (p < n.size()) { t = n; t[p] = char(c); v.push_back(t); } }
            if (p < n.size()) { std::string t = n; t.erase(p, 1); v.push_back(t); } v.push_back(n.substr(0, p)); v.push_back(n.substr(p)); v.push_back(n); for (auto* o : lname) v.push_back(n.substr(0, p) + o), v.push_back(o + n.substr(p));
        } else { // all case patterns, repetition, white space, embedded zero
            for (unsigned m = 0; m < (1u << n.size()); ++m) { std::string t = n; for (size_t i = 0; i < t.size(); ++i) if (m >> i & 1) t[i] = char(toupper(t[i])); v.push_back(t); }
            for (std::string x : {" ", "\t", "\n", "\0"}) { v.push_back(x + n); v.push_back(n + x); } v.push_back(n + std::string(1, '\0')); v.push_back(n + n); for (int i = 0; i < 10; ++i) v.push_back(std::to_string(i)), v.push_back(n + std::to_string(i));
        }
    }
    for (auto& t : v) if (parse(t) != lref(t)) seq::fail("'%s' parsed as %d, expected %d", esc(t).c_str(), parse(t), lref(t));
    // round trip
    for (int i = 0; i < 6; ++i) if (parse(lname[i]) != i) seq::fail("'%s' not recognised", lname[i]);
    seq::note("%zu spellings", v.size()); seq::outcome("P");
}
// fatal statements abort whatever the level; each in a process of its own
struct Shared { std::atomic<int> n, flush_at, sync_at, after; char out[4000]; };
static Shared* sh;
struct ShMem : xtr::storage_interface {
    char b[100];
    std::span<char> allocate_buffer() override { return {b, sizeof b}; }
    void submit_buffer(char* p, std::size_t n) override { memcpy(sh->out + sh->n, p, n); sh->n = int(sh->n + int(n)); }
    void flush() override { sh->flush_at = int(sh->n); }
    void sync() noexcept override { sh->sync_at = int(sh->flush_at); }
    int reopen() noexcept override { return 0; }
};
constexpr int mline = __LINE__ + 1;
static void m(xtr::sink& s) { XTR_LOG(s, "m"); }
static void fatal()
{
    int sl = seq::choose(6), k = seq::choose(var::NK), before = seq::choose(3); bool a = seq::flip();
    seq::note("sink %s: XTR_%s fatal%s after %d", lname[sl], var::kname(k), a ? "" : " plain", before);
    // a first logger, gone before the fork, takes the cost of measuring the cycle counter
    if (!sh) { xtr::logger warm(std::make_unique<Mem>(), Clock(), xtr::null_command_path); }
    if (!sh) sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    memset(static_cast<void*>(sh), 0, sizeof *sh); sh->flush_at = sh->sync_at = -1;
    pid_t p = fork();
    if (!p) {
        signal(SIGABRT, SIG_DFL); struct rlimit* r = nullptr; (void)r; prctl(PR_SET_DUMPABLE, 0);
        xtr::logger l(std::make_unique<ShMem>(), Clock(), xtr::null_command_path); xtr::sink s = l.get_sink("s"); s.set_level(LV(sl));
        for (int i = 0; i < before; ++i) m(s);
        var::evals = 0; var::levelled(1, k, s, a); sh->after = 1; _exit(9);
    }
    int st; waitpid(p, &st, 0);
    if (sh->after || !WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) seq::fail("a fatal statement did not abort the process (status %x)", st);
    std::string o(sh->out, size_t(sh->n)), want; const int ml = mline;
    for (int i = 0; i < before; ++i) want += line('I', "s", "c12.cpp", ml, "m");
    size_t pre = want.size(); bool pass = sl >= 1;
    if (pass) want += line('F', "s", "variants.h", var::fatal_line, a ? "v 1" : "plain");
    expect(var::norm(o, k, pre + 2), want, "output of a process ended by a fatal statement");
    if (sh->sync_at != int(o.size())) seq::fail("the log was not flushed and synced before the process was aborted (%d of %zu bytes)", int(sh->sync_at), o.size());
    seq::outcome(want.substr(pre, 1));
}
int main(int argc, char** argv)
{
    return seq::main_(argc, argv, "C12",
        "histories differ in statement level, macro, sink level, arguments or not (pairs of statements; thorough: triples); operation sequences over two sinks (default level, get, set, copy, assign, close, register) of depth 6 (thorough 8); level strings: all of up to two bytes, all one-edit neighbours and case patterns of every level name; fatal statements in processes of their own",
        {{"filter", filter}, {"always", always}, {"propagation", propagation}, {"spelling", spelling}, {"fatal", fatal}}, {});
}
