// C19: status and level commands act on exactly the sinks they select.
#include "ctl.h"
#include <fnmatch.h>
#include <regex.h>
#include <map>
#include <thread>
using namespace ctl;
using PT = xd::pattern_type_t;
struct W : World {
    std::vector<std::string> names;
    explicit W(std::vector<std::string> n) : World(0), names(std::move(n))
    {
        unpark(); for (auto& s : names) sinks.emplace_back(new xtr::sink(L->get_sink(s))); for (auto& s : sinks) s->sync(); park(); tick();
    }
    void end19() { unpark(); sinks.clear(); L.reset(); hooks = false; if (!bad.empty()) seq::fail("%s", bad.c_str()); }
};
// -1 invalid, else whether the name is selected
static int selected(PT t, bool ic, const std::string& pat, const std::string& name)
{
    if (t == PT::none) return 1;
    if (t == PT::wildcard) return fnmatch(pat.c_str(), name.c_str(), ic ? FNM_CASEFOLD : 0) == 0;
    static std::map<std::string, std::pair<int, regex_t>> cache; std::string key = std::to_string(int(t)) + char('0' + ic) + pat;
    auto it = cache.find(key); if (it == cache.end()) { if (cache.size() > 3000) { for (auto& c : cache) if (!c.second.first) regfree(&c.second.second); cache.clear(); } it = cache.emplace(key, std::pair<int, regex_t>()).first; it->second.first = regcomp(&it->second.second, pat.c_str(), REG_NOSUB | (ic ? REG_ICASE : 0) | (t == PT::extended_regex ? REG_EXTENDED : 0)); }
    if (it->second.first) return -1;
    return regexec(&it->second.second, name.c_str(), 0, nullptr, 0) == 0;
}
struct Model { std::string name; int level; size_t cap; long nbytes = 0; long dropped = 0; };
static std::string key_of(const Model& m) { return m.name.substr(0, 127) + "|" + std::to_string(m.level) + "|" + std::to_string(m.cap) + "|" + std::to_string(m.nbytes) + "|" + std::to_string(m.dropped); }
static std::string desc(const std::multiset<std::string>& s) { std::string o; for (auto& x : s) o += "[" + lg::esc(x) + "] "; return o; }
static void check_status(const std::string& path, PT t, bool ic, const std::string& pat, const std::vector<Model>& all, int rounds = 80)
{
    Client c; if (!exchange(c, path, req_status(t, pat, ic), rounds)) seq::fail("a status request is not answered");
    std::multiset<std::string> w, g; bool inv = selected(t, ic, pat, "") < 0;
    if (inv) { if (c.got.size() != 1 || !is_error(c.got[0])) seq::fail("status with an invalid pattern was answered with %s", show(c.got).c_str()); c.close(); return; }
    for (auto& m : all) if (selected(t, ic, pat, m.name) == 1) w.insert(key_of(m));
    for (auto& p : c.got) { if (!is_info(p)) seq::fail("a status request was answered with %s", show(c.got).c_str()); auto i = info_of(p); g.insert(key_of({i.name, int(i.level), i.buf_capacity, long(i.buf_nbytes), long(i.dropped_count)})); }
    if (w != g) seq::fail("status type%d case%d pattern \"%s\": reported %sinstead of %s", int(t), int(ic), pat.c_str(), desc(g).c_str(), desc(w).c_str());
    seq::outcome(std::to_string(g.size())); c.close();
}
static void level_request(const std::string& path, int lv, PT t, bool ic, const std::string& pat, std::vector<Model>& all)
{
    Client c; if (!exchange(c, path, req_level(lv, t, pat, ic))) seq::fail("a level request is not answered");
    bool bad_ = lv < 0 || lv > 5 || selected(t, ic, pat, "") < 0;
    if (c.got.size() != 1 || !(bad_ ? is_error(c.got[0]) : is_success(c.got[0]))) seq::fail("level %d type%d pattern \"%s\" was answered with %s", lv, int(t), pat.c_str(), show(c.got).c_str());
    if (!bad_) for (auto& m : all) if (selected(t, ic, pat, m.name) == 1) m.level = lv;
    c.close();
}
static void check_levels(const std::vector<Model>& all, const std::vector<std::unique_ptr<xtr::sink>>& s, const char* what)
{
    for (size_t i = 0; i < all.size(); ++i) if (int(s[i]->level()) != all[i].level) seq::fail("%s: the level of sink \"%s\" is %d instead of %d", what, all[i].name.c_str(), int(s[i]->level()), all[i].level);
}
static std::vector<Model> model_of(W& w) { std::vector<Model> m; for (size_t i = 0; i < w.names.size(); ++i) { int l = int(i % 6); w.sinks[i]->set_level(xtr::log_level_t(l)); m.push_back({w.names[i], l, w.sinks[i]->capacity()}); } return m; }
// ---- all short patterns against a set of names ---------------------------------------
static void pats(const char* alpha, int maxlen, std::vector<std::string> names)
{
    PT t = PT(seq::choose(4)); bool ic = seq::flip(); std::string p; int n = int(strlen(alpha));
    for (int i = 0; i < maxlen; ++i) { int c = seq::choose(n + 1); if (!c) break; p += alpha[c - 1]; }
    if (t == PT::none && p.size() > 1) return;
    seq::note("type%d case%d \"%s\"", int(t), int(ic), p.c_str());
    W w(std::move(names)); auto m = model_of(w);
    check_status(w.path, t, ic, p, m);
    int lv = int((p.size() + p[0] * 5u + unsigned(t)) % 6);
    level_request(w.path, lv, t, ic, p, m); check_levels(m, w.sinks, "after a level request");
    check_status(w.path, PT::none, false, "", m);
    w.end19();
}
static void short_patterns() { pats("aB.*[]^$", seq::thorough() ? 4 : 3, {"a", "b", "Ab", "BA", "a.", "control", "", "a*"}); }
static void group_patterns() { pats("a(|)\\+?", seq::thorough() ? 4 : 3, {"a", "aa", "A", "a+", "(a", "|", "\\", "b?"}); }
static void special_patterns()
{
    static const char* const ps[] = {"a/b", "a*b", "a?b", "*", "?", "*.x", ".*", "^a", "b$", "^$", "a\\.b", "[!a]*", "[^a]*", "[[:upper:]]", "[[:digit:]]+", "a{2}", "a\\{2\\}", "\\(a\\)\\1", "(a)b|c", "a.b", "a\nb", "^b", "a$", "\\*", "[a-c]z", "[A-C]Z", "x\\|y", "control", "CONTROL", "con", "s p", "\303\244", "\\/", "**", "!(a)", "@(a|b)", "~", "[.]*", "A\\B", "trailing\\", "[]a]", "[]", "[[.hyphen.]]", "[[=a=]]", "\\<a", "\\w", "\\bq", "aa*", "{a,b}"};
    int n = int(sizeof ps / sizeof *ps); PT t = PT(seq::choose(4)); bool ic = seq::flip(); std::string p = ps[seq::choose(n)]; bool rev = seq::flip(); seq::note("type%d case%d \"%s\"", int(t), int(ic), lg::esc(p).c_str());
    W w({"a/b", ".a", "a\nb", "control", "", "aab", "a.b", "AaB", "x|y", "c", "9", "s p", "\303\204", "bz", "*", "\\", "a-b", "CONTROL"}); auto m = model_of(w);
    if (rev) { level_request(w.path, 3, t, ic, p, m); check_levels(m, w.sinks, "after a level request"); check_status(w.path, t, ic, p, m); }
    else { check_status(w.path, t, ic, p, m); level_request(w.path, 5, t, ic, p, m); check_levels(m, w.sinks, "after a level request"); check_status(w.path, PT::none, false, "", m); }
    w.end19();
}
// ---- levels, valid and not --------------------------------------------------------------
static void levels()
{
    static const int lv[] = {0, 1, 2, 3, 4, 5, 6, 7, 255, 256, 0x7fffffff, -1, -2, -256, -2147483647 - 1}; int l = seq::pick(lv); PT t = PT(seq::choose(4)); static const char* const ps[] = {"", "a", "*", "[", "zz"}; std::string p = seq::pick(ps); bool ic = seq::flip(); int first = seq::choose(2);
    seq::note("level %d type%d \"%s\"", l, int(t), p.c_str());
    W w({"a", "A", "b", "control"}); auto m = model_of(w);
    if (first) { level_request(w.path, 1, PT::none, false, "", m); check_levels(m, w.sinks, "after a level request"); }
    level_request(w.path, l, t, ic, p, m); check_levels(m, w.sinks, "after a level request"); check_status(w.path, PT::none, false, "", m); check_status(w.path, t, ic, p, m);
    // levels decide what is written
    unpark(); lg::take(); std::string want;
    for (size_t i = 0; i < w.sinks.size(); ++i) { bool on = m[i].level >= 3; XTR_LOGL(warning, *w.sinks[i], "w"); if (on) want += lg::line('W', w.names[i], "c19.cpp", __LINE__, "w"); w.sinks[i]->sync(); }
    lg::expect(lg::take(), want, "messages after a level request");
    w.end19();
}
// ---- the set of sinks after any history ---------------------------------------------------
static void histories()
{
    struct S { std::unique_ptr<xtr::sink> s; Model m; bool open; };
    W w({}); std::vector<S> v; int depth = seq::thorough() ? 6 : 5; int def = 4; static const char* const nm[] = {"a", "B"};
    auto mod = [&] { std::vector<Model> o; for (auto& x : v) if (x.s && x.open) o.push_back(x.m); return o; };
    for (int d = 0; d < depth; ++d) {
        struct A { int a, i, j; }; std::vector<A> en;
        if (v.size() < 3) { en.push_back({0, 0, 0}); en.push_back({0, 1, 0}); }
        for (int i = 0; i < int(v.size()); ++i) { if (!v[size_t(i)].s) continue; auto& x = v[size_t(i)];
            if (x.open) { en.push_back({1, i, 0}); en.push_back({3, i, 0}); if (v.size() < 3) en.push_back({5, i, 0}); } else en.push_back({7, i, 0});
            en.push_back({2, i, 0}); en.push_back({4, i, 0}); for (int j = 0; j < int(v.size()); ++j) if (j != i && v[size_t(j)].s) en.push_back({6, i, j}); }
        en.push_back({8, 0, 0}); en.push_back({9, 0, 0});
        if (d == 0) { en.clear(); en.push_back({0, 0, 0}); en.push_back({8, 0, 0}); }
        A a = en[size_t(seq::choose(int(en.size())))]; unpark();
        switch (a.a) {
        case 0: seq::note("new:%s", nm[a.i]); v.push_back({std::make_unique<xtr::sink>(w.L->get_sink(nm[a.i])), {nm[a.i], def, 0}, true}); v.back().m.cap = v.back().s->capacity(); break;
        case 1: seq::note("close%d", a.i); v[size_t(a.i)].s->close(); v[size_t(a.i)].open = false; break;
        case 2: seq::note("delete%d", a.i); v[size_t(a.i)].s.reset(); break;
        case 3: seq::note("rename%d", a.i); v[size_t(a.i)].s->set_name("aR" + std::to_string(d)); v[size_t(a.i)].m.name = "aR" + std::to_string(d); break;
        case 4: seq::note("level%d", a.i); v[size_t(a.i)].s->set_level(xtr::log_level_t(d % 3)); v[size_t(a.i)].m.level = d % 3; break;
        case 5: { seq::note("copy%d", a.i); S n{std::make_unique<xtr::sink>(*v[size_t(a.i)].s), v[size_t(a.i)].m, true}; v.push_back(std::move(n)); break; }
        case 6: seq::note("assign%d=%d", a.i, a.j); *v[size_t(a.i)].s = *v[size_t(a.j)].s; v[size_t(a.i)].m = v[size_t(a.j)].m; v[size_t(a.i)].open = v[size_t(a.j)].open; break;
        case 7: seq::note("register%d", a.i); w.L->register_sink(*v[size_t(a.i)].s, "again"); v[size_t(a.i)].m.name = "again"; v[size_t(a.i)].open = true; break;
        case 8: def = 2; seq::note("default%d", def); w.L->set_default_log_level(xtr::log_level_t(def)); break;
        case 9: break;
        }
        for (int r = 0; r < 2; ++r) for (auto& x : v) if (x.s && x.open) x.s->sync();
        park(); tick(2);
        if (a.a == 9) { seq::note("request"); std::vector<Model> o = mod(); level_request(w.path, 5, PT::basic_regex, false, "^a", o); size_t k = 0; for (auto& x : v) if (x.s && x.open) x.m.level = o[k++].level; }
        check_status(w.path, PT::none, false, "", mod());
    }
    check_status(w.path, PT::basic_regex, true, "^b", mod()); check_status(w.path, PT::wildcard, false, "a*", mod());
    for (auto& x : v) if (x.s && x.open && int(x.s->level()) != x.m.level) seq::fail("the level of sink %s is %d instead of %d", x.m.name.c_str(), int(x.s->level()), x.m.level);
    unpark(); v.clear(); w.end19();
}
// ---- queued bytes and dropped messages ------------------------------------------------------
static void queues()
{
    static const int ks[] = {0, 1, 2, 3, 7, 100, 2000}; int k0 = seq::pick(ks), k1 = seq::pick(ks), again = seq::choose(3); seq::note("%d and %d messages, again %d", k0, k1, again);
    W w({"a", "b", "c"}); auto m = model_of(w); for (auto& s : w.sinks) s->set_level(xtr::log_level_t::info); for (auto& x : m) x.level = 4;
    static long unit = 0; auto log = [&](size_t i, int n) { for (int j = 0; j < n; ++j) XTR_TRY_LOG(*w.sinks[i], "m"); };
    auto run = [&](std::vector<long>& bytes) { Client c; if (!exchange(c, w.path, req_status())) seq::fail("a status request is not answered"); bytes.assign(3, -1); for (auto& p : c.got) { if (!is_info(p)) seq::fail("unexpected reply"); auto i = info_of(p); bytes[size_t(i.name[0] - 'a')] = long(i.buf_nbytes); if (i.dropped_count != size_t(m[size_t(i.name[0] - 'a')].dropped)) seq::fail("sink %s: %zu messages reported as dropped instead of %ld", i.name, i.dropped_count, m[size_t(i.name[0] - 'a')].dropped); if (i.buf_capacity != m[0].cap) seq::fail("capacity %zu", i.buf_capacity); } };
    std::vector<long> b;
    on_recv = [&] { log(2, 1); }; run(b); if (b[0] || b[1] || b[2] <= 0) seq::fail("one message queued is reported as %ld, %ld and %ld bytes", b[0], b[1], b[2]); unit = b[2]; lg::take();
    auto acc = [&](int n) { return std::min<long>(n, long(m[0].cap) / unit); };
    for (int r = 0; r < again + 1; ++r) {
        int q0 = r % 2 ? k1 : k0, q1 = r % 2 ? k0 : k1; lg::take();
        on_recv = [&] { log(0, q0); log(1, q1); }; run(b); on_recv = nullptr;
        if (b[0] != acc(q0) * unit || b[1] != acc(q1) * unit || b[2]) seq::fail("%ld, %ld and %ld bytes are reported as queued instead of %ld, %ld and 0", b[0], b[1], b[2], acc(q0) * unit, acc(q1) * unit);
        tick(3); m[0].dropped += q0 - acc(q0); m[1].dropped += q1 - acc(q1); run(b); if (b[0] || b[1] || b[2]) seq::fail("bytes are reported as queued although nothing is");
    }
    seq::outcome(std::to_string(m[0].dropped)); w.end19();
}
// ---- long names and patterns ------------------------------------------------------------------
static void long_names()
{
    static const size_t ls[] = {0, 1, 100, 126, 127, 128, 129, 255, 256, 257, 1000}; size_t a = seq::pick(ls), b = seq::pick(ls); int how = seq::choose(4); seq::note("name %zu pattern %zu how%d", a, b, how);
    std::string na(a, 'x'), nb = na + "y"; W w({na, nb, "z"}); auto m = model_of(w);
    std::string p(b, 'x'); PT t = how == 0 ? PT::wildcard : how == 1 ? PT::basic_regex : how == 2 ? PT::extended_regex : PT::none; if (p.size() > 256) p.resize(256);
    std::string eff = p.substr(0, 255);
    check_status(w.path, t, false, eff, m); level_request(w.path, 5, t, false, p.size() > 255 ? p : eff, m);
    // an unterminated pattern is cut at 255 characters
    for (size_t i = 0; i < m.size(); ++i) m[i].level = selected(t, false, eff, w.names[i]) == 1 ? 5 : int(i);
    check_levels(m, w.sinks, "after a level request"); w.end19();
}
// ---- many sinks -------------------------------------------------------------------------------
static void many_sinks()
{
    static const int ns[] = {9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 257}; int n = seq::pick(ns); PT t = PT(seq::choose(4)); int cl = seq::choose(3); seq::note("%d sinks type%d close%d", n, int(t), cl);
    std::vector<std::string> names; for (int i = 0; i < n; ++i) names.push_back((i % 2 ? "n" : "m") + std::to_string(i)); W w(names); auto m = model_of(w);
    std::string p = t == PT::wildcard ? "n*" : t == PT::none ? "" : "^n"; check_status(w.path, t, false, p, m, 4 * n + 200); level_request(w.path, 2, t, false, p, m); check_levels(m, w.sinks, "after a level request");
    if (cl) { unpark(); for (int i = cl == 1 ? 0 : n - 1, k = 0; k < n / 3; ++k) { w.sinks[size_t(i)].reset(); i += cl == 1 ? 1 : -1; } std::vector<Model> rest; std::vector<std::unique_ptr<xtr::sink>> ks; for (int i = 0; i < n; ++i) if (w.sinks[size_t(i)]) { rest.push_back(m[size_t(i)]); ks.push_back(std::move(w.sinks[size_t(i)])); } w.sinks = std::move(ks); m = rest; park(); tick(3); check_status(w.path, PT::none, false, "", m, 4 * n + 200); level_request(w.path, 0, t, false, p, m); check_levels(m, w.sinks, "after a level request"); check_status(w.path, t, false, p, m, 4 * n + 200); }
    w.end19();
}
// ---- while the logger is being destroyed, open sinks are still served ---------------------------
static void destroying()
{
    int n = 1 + seq::choose(4); int closed = seq::choose(n + 1); bool ic = seq::flip(); std::vector<std::string> names; for (int i = 0; i < n; ++i) names.push_back("n" + std::to_string(i)); seq::note("%d sinks, closing %d", n, closed);
    W w(names); auto m = model_of(w); std::atomic<int> tid{0};
    std::thread t([&] { is_main = true; tid = int(syscall(SYS_gettid)); w.L.reset(); });
    auto asleep = [&] { while (!tid) sched_yield(); char f[64]; snprintf(f, 64, "/proc/self/task/%d/stat", int(tid)); for (int i = 0; i < 20000; ++i) { char b[300] = {}; int d = int(raw(SYS_open, long(f), O_RDONLY)); if (d < 0) return; raw(SYS_read, d, long(b), 299); raw(SYS_close, d); if (char* q = strrchr(b, ')')) if (q[2] == 'S') return; usleep(50); } };
    asleep(); tick(3); asleep(); tick(2);
    check_status(w.path, PT::none, false, "", m);
    level_request(w.path, 5, PT::basic_regex, ic, "n", m); check_levels(m, w.sinks, "while the logger is being destroyed");
    if (closed && n > 1) { unpark(); size_t i = size_t(closed - 1); w.sinks[i]->close(); w.sinks.erase(w.sinks.begin() + long(i)); m.erase(m.begin() + long(i)); park(); tick(2); check_status(w.path, PT::none, false, "", m); level_request(w.path, 1, PT::none, false, "", m); check_levels(m, w.sinks, "while the logger is being destroyed"); }
    unpark(); w.sinks.clear(); t.join(); hooks = false; seq::outcome(std::to_string(n));
}
int main(int argc, char** argv)
{
    seq::Options o; o.timeout_s = 60;
    return seq::main_(argc, argv, "C19", "all patterns of up to 3 (thorough 4) characters over two alphabets plus a list of special ones x pattern types x case x 8-18 names, for status and level requests; all boundary levels; all sink life-cycle histories of up to 5 (thorough 6) operations on up to 3 sinks; queue fills and drop counts over a boundary set; status and level requests while the logger is being destroyed and with up to 257 sinks",
#ifdef ONLY_QUEUES
        {{"queues", queues}},
#else
        {{"levels", levels}, {"special_patterns", special_patterns}, {"short_patterns", short_patterns}, {"group_patterns", group_patterns}, {"histories", histories}, {"queues", queues}, {"long_names", long_names}, {"destroying", destroying}, {"many_sinks", many_sinks}},
#endif
        {"pattern matching follows the C library's regcomp, regexec and fnmatch", "names are reported up to 127 characters and patterns carry up to 255, as the protocol defines"}, o);
}
