// C18: nothing a client of the command socket does harms the logger.
#include "ctl.h"
#include <regex.h>
using namespace ctl;
using PT = xd::pattern_type_t;
// ---- every kind of request frame ------------------------------------------------
static void frames()
{
    static const uint32_t ids[] = {0, 1, 2, 3, 4, 5, 6, 7, 255, 256, 65536, 0x01000000u, 0x80000000u, 0xffffffffu};
    static const int offs[] = {-1, 0, 1};
    const size_t base[] = {0, 4, sizeof(xd::frame<xd::status>), sizeof(xd::frame<xd::set_level>), sizeof(xd::frame<xd::reopen>), sizeof(xd::frame<xd::error>), sizeof(xd::frame<xd::sink_info>), 8, 16, 64, 128, 256, 512, 1024, 4096, 60000};
    uint32_t id = seq::pick(ids); size_t b = base[seq::choose(16)]; int o = offs[seq::choose(3)]; long len = long(b) + o; int fill = seq::choose(5);
    if (len < 0) return;
    seq::note("id%x length %ld fill%d", id, len, fill);
    World w(2);
    std::string f(size_t(len), fill == 0 ? '\0' : fill == 1 ? '\xff' : fill == 2 ? '\x01' : fill == 3 ? 'a' : '\x02'); if (fill == 4) for (size_t i = 0; i < f.size(); ++i) f[i] = char(i * 37);
    memcpy(f.data(), &id, std::min<size_t>(4, f.size()));
    if (id <= 5 && fill == 3 && f.size() > 12) { int z = 2; memcpy(&f[id == 1 ? 8 : 4], &z, 4); if (id == 1) memcpy(&f[4], &z, 4); }
    Client c; if (!c.open(w.path)) seq::fail("cannot connect");
    if (!c.send(f.data(), f.size())) seq::fail("cannot send");
    if (!finish(c)) seq::fail("the connection is not closed (%s)", show(c.got).c_str());
    size_t good = id == xd::status::frame_id ? sizeof(xd::frame<xd::status>) : id == xd::set_level::frame_id ? sizeof(xd::frame<xd::set_level>) : id == xd::reopen::frame_id ? sizeof(xd::frame<xd::reopen>) : 0;
    auto lv = [&](size_t i) { return int(w.sinks[i]->level()); };
    if (good != size_t(len) || !good) {
        if (!(c.got.empty() || (c.got.size() == 1 && is_error(c.got[0])))) seq::fail("a malformed request was answered with %s", show(c.got).c_str());
        if (lv(0) != 4 || lv(1) != 4) seq::fail("a malformed request changed a level");
    } else if (id == xd::reopen::frame_id) { if (c.got.size() != 1 || !is_success(c.got[0])) seq::fail("a reopen request was answered with %s", show(c.got).c_str()); }
    else if (id == xd::set_level::frame_id) {
        int l; memcpy(&l, &f[4], 4); bool valid = l >= 0 && l <= 5;
        if (c.got.size() != 1 || !(is_success(c.got[0]) || is_error(c.got[0])) || (!valid && !is_error(c.got[0]))) seq::fail("a request for level %d was answered with %s", l, show(c.got).c_str());
        for (size_t i = 0; i < 2; ++i) if (lv(i) != 4 && !(valid && is_success(c.got[0]) && lv(i) == l)) seq::fail("level became %d", lv(i));
    } else { for (auto& p : c.got) if (!is_info(p) && !is_error(p)) seq::fail("a status request was answered with %s", show(c.got).c_str()); if (c.got.size() > 2) seq::fail("too many replies to a status request: %s", show(c.got).c_str()); }
    seq::outcome(show(c.got)); c.close();
    for (auto& s : w.sinks) s->set_level(xtr::log_level_t::info);
    tick(3); w.end();
}
// ---- patterns that are awkward for the matching library ---------------------------
static void patterns()
{
    static const std::vector<std::string> pats = {"", "s", "[", "]", "[]", "[^", "[[:alpha:]", "[[:foo:]]", "[[.a.]]", "[z-a]", "\\", "\\(", "\\)", "(", ")", "()", "*", "**", "+", "?", "{", "}", "a{", "a{1", "a{1,", "a{2,1}", "a{99999}", "a\\{1", "a\\{2,1\\}", "\\1", "(a)\\2", "^*", "$^", "|", "a||b", "\xff\xfe", "%s%n%n", std::string(255, 'a'), std::string(256, 'a'), std::string(256, '('), std::string(256, '['), std::string(256, '*'), std::string(256, '\\'), std::string(256, '?'), std::string(256, '|'), std::string("a\0b", 3), std::string("s0\0[", 4)};
    int t = seq::choose(6); int ic = seq::choose(4); const std::string& p = seq::pick(pats); bool lev = seq::flip();
    PT pt = t == 4 ? PT(4) : t == 5 ? PT(-1) : PT(t);
    seq::note("%s type%d case%d pattern \"%s\"", lev ? "level" : "status", int(pt), ic, lg::esc(p).substr(0, 40).c_str());
    World w(2);
    std::string f = lev ? req_level(2, pt, p, false) : req_status(pt, p, false);
    f[(lev ? 8 : 4) + 4] = char(ic == 2 ? 2 : ic == 3 ? 0xff : ic);
    Client c; if (!exchange(c, w.path, f)) seq::fail("the request is not answered (%s)", show(c.got).c_str());
    std::string txt = p.substr(0, 255); regex_t re; int rc = 0; if (pt == PT::basic_regex || pt == PT::extended_regex) { rc = regcomp(&re, txt.c_str(), REG_NOSUB | (pt == PT::extended_regex ? REG_EXTENDED : 0)); if (!rc) regfree(&re); }
    if (rc) { if (c.got.size() != 1 || !is_error(c.got[0])) seq::fail("an invalid pattern was answered with %s", show(c.got).c_str()); }
    else if (lev) { if (c.got.size() != 1 || !(is_success(c.got[0]) || (is_error(c.got[0]) && t >= 4))) seq::fail("a level request was answered with %s", show(c.got).c_str()); }
    else for (auto& r : c.got) if (!is_info(r) && !(is_error(r) && t >= 4)) seq::fail("a status request was answered with %s", show(c.got).c_str());
    seq::outcome(show(c.got)); c.close();
    for (auto& s : w.sinks) s->set_level(xtr::log_level_t::info);
    tick(3); w.end();
}
// ---- several clients, any order of actions ----------------------------------------
struct Kind { int k; const char* nm; };
static std::string request(int k)
{
    switch (k) {
    case 0: return req_status();
    case 1: return req_level(4);
    case 2: return std::string(2, 'x');
    case 3: { std::string s = req_status(); uint32_t id = 77; memcpy(s.data(), &id, 4); return s; }
    case 4: return req_reopen();
    case 5: return req_status(PT::extended_regex, "[");
    default: return std::string(600, 'y');
    }
}
// exact: nothing was injected on this connection
static void check_reply(World& w, Client& c, bool exact)
{
    if (c.kind == 0) {
        if (exact) { w.check_status(c); return; }
        std::set<std::string> seen; for (auto& p : c.got) { if (!is_info(p)) seq::fail("unexpected reply: %s", show(c.got).c_str()); if (!seen.insert(info_of(p).name).second) seq::fail("a reply was sent twice: %s", show(c.got).c_str()); }
    } else if (c.kind == 1 || c.kind == 4) {
        if (c.got.size() > 1 || (exact && c.got.size() != 1) || (c.got.size() == 1 && !is_success(c.got[0]))) seq::fail("wrong reply to a %s request: %s", c.kind == 1 ? "level" : "reopen", show(c.got).c_str());
    } else if (c.got.size() > 1 || (c.got.size() == 1 && !is_error(c.got[0]))) seq::fail("wrong reply to a malformed request: %s", show(c.got).c_str());
}
static void history(int ncl, int depth, int nk, int nsinks, bool window)
{
    World w(nsinks); small_window = window; std::vector<std::unique_ptr<Client>> cl; int opened = 0; bool destroyed = false;
    for (int d = 0; d < depth; ++d) {
        struct A { int a, i, k; }; std::vector<A> en;
        en.push_back({0, 0, 0});
        if (opened < ncl) en.push_back({1, 0, 0});
        for (int i = 0; i < int(cl.size()); ++i) { if (cl[size_t(i)]->fd < 0) continue; Client& c = *cl[size_t(i)]; if (!c.sent) for (int k = 0; k < nk; ++k) en.push_back({2, i, k}); en.push_back({3, i, 0}); if (c.sent && !c.eof) en.push_back({4, i, 0}); if (!c.sent || d % 2) en.push_back({6, i, 0}); }
        if (d) en.push_back({5, 0, 0});
        A a = en[size_t(seq::choose(int(en.size())))];
        switch (a.a) {
        case 0: seq::note("round"); tick(); break;
        case 1: seq::note("connect%d", opened); cl.emplace_back(new Client); if (!cl.back()->open(w.path)) seq::fail("cannot connect"); ++opened; break;
        case 2: { Client& c = *cl[size_t(a.i)]; seq::note("send%d:%d", a.i, a.k); std::string r = request(a.k); if (!c.send(r.data(), r.size())) seq::fail("cannot send"); c.sent = true; c.kind = a.k; break; }
        case 3: seq::note("close%d", a.i); cl[size_t(a.i)]->close(); break;
        case 4: seq::note("read%d", a.i); cl[size_t(a.i)]->read(); break;
        case 6: seq::note("shutdown%d", a.i); raw(SYS_shutdown, cl[size_t(a.i)]->fd, SHUT_WR); if (!cl[size_t(a.i)]->sent) { cl[size_t(a.i)]->sent = true; cl[size_t(a.i)]->kind = 99; } break;
        case 5: seq::note("destroy"); destroyed = true; break;
        }
        if (destroyed) break;
    }
    if (destroyed) { int mine = 0; for (auto& c : cl) mine += c->fd >= 0; w.end(false, mine); seq::outcome("destroyed"); return; }
    for (int r = 0; r < 80; ++r) { bool all = true; tick(); for (auto& c : cl) if (c->fd >= 0) { c->drain(); if (c->sent && !c->eof) all = false; } if (all) break; }
    for (size_t i = 0; i < cl.size(); ++i) {
        Client& c = *cl[i]; if (c.fd < 0) continue;
        if (!c.sent) { if (!c.got.empty()) seq::fail("client %zu received a reply without asking", i); if (c.eof) seq::fail("the connection of client %zu was closed before it sent its request", i); std::string r = req_status(); if (!c.send(r.data(), r.size()) || !finish(c)) seq::fail("client %zu is not served", i); c.kind = 0; }
        if (!c.eof) seq::fail("client %zu is not served (%s)", i, show(c.got).c_str());
        check_reply(w, c, c.kind <= 4);
        seq::outcome(show(c.got));
    }
    for (auto& c : cl) c->close();
    tick(6); w.end();
}
static void clients() { history(3, seq::thorough() ? 7 : 6, 3, 2, false); }
static void window() { history(2, seq::thorough() ? 8 : 6, 2, 14, true); }
static void kinds() { history(2, seq::thorough() ? 6 : 5, 7, 1, false); }
// ---- every socket call may fail ----------------------------------------------------
static void faulty_calls()
{
    int script = seq::choose(4); seq::note("script%d", script);
    World w(script == 3 ? 14 : 2); small_window = script == 3; std::vector<std::unique_ptr<Client>> cl;
    auto add = [&](int k) { cl.emplace_back(new Client); Client& c = *cl.back(); if (!c.open(w.path)) seq::fail("cannot connect"); if (k >= 0) { std::string r = request(k); c.send(r.data(), r.size()); c.sent = true; c.kind = k; } };
    faulty = true; faults = seq::thorough() ? 3 : 2;
    if (script == 0) { add(0); tick(4); add(1); tick(4); }
    else if (script == 1) { add(0); add(1); tick(2); add(2); tick(6); }
    else if (script == 2) { add(-1); add(0); tick(3); cl[0]->close(); add(4); tick(5); }
    else { add(0); add(0); tick(3); cl[0]->drain(); tick(2); cl[1]->drain(); tick(2); }
    faulty = false;
    for (int r = 0; r < 100; ++r) { bool all = true; tick(); for (auto& c : cl) if (c->fd >= 0) { c->drain(); if (c->sent && !c->eof) all = false; } if (all) break; }
    // failures which must not cost a client its reply
    bool harmless = true; for (auto& f : injected) if (!(f.err == EINTR || !strcmp(f.call, "poll") || !strcmp(f.call, "accept") || (!strcmp(f.call, "send") && f.err == EAGAIN))) harmless = false;
    int bad_conn = 0; for (auto& f : injected) if (!(f.err == EINTR || !strcmp(f.call, "poll") || !strcmp(f.call, "accept") || (!strcmp(f.call, "send") && f.err == EAGAIN))) ++bad_conn;
    int short_ = 0;
    for (size_t i = 0; i < cl.size(); ++i) {
        Client& c = *cl[i]; if (c.fd < 0) continue;
        if (!c.eof) seq::fail("client %zu is not served (%s)", i, show(c.got).c_str());
        check_reply(w, c, harmless && c.kind <= 4);
        if (c.kind == 0 ? c.got.size() < w.sinks.size() : c.got.empty()) ++short_;
        seq::outcome(show(c.got));
    }
    if (short_ > bad_conn) seq::fail("%d clients lost replies although only %d connections failed", short_, bad_conn);
    for (auto& c : cl) c->close();
    tick(6); w.end();
}
// ---- many connections at once --------------------------------------------------------
static void many()
{
    int n = seq::pick(std::vector<int>{1, 2, 63, 64, 65, 200}), order = seq::choose(3), leave = seq::choose(4); seq::note("%d clients order%d leave%d", n, order, leave);
    World w(2); std::vector<std::unique_ptr<Client>> cl;
    for (int i = 0; i < n; ++i) { cl.emplace_back(new Client); for (int r = 0; !cl.back()->open(w.path); ++r) { if (r > 80) seq::fail("client %d cannot connect", i); tick(); } }
    for (int i = 0; i < n; ++i) { int j = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7) % n == i ? i : i; Client& c = *cl[size_t(j)]; if (leave && j % (leave + 1) == 0) { c.close(); continue; } if (order == 2 && i % 3 == 0) tick(); std::string r = request(j % 3); if (!c.send(r.data(), r.size())) seq::fail("cannot send"); c.kind = j % 3; }
    for (int r = 0; r < 3 * n + 40; ++r) { tick(); for (auto& c : cl) if (c->fd >= 0) c->drain(); }
    for (int i = 0; i < n; ++i) { Client& c = *cl[size_t(i)]; if (c.fd < 0) continue; if (!c.eof) seq::fail("client %d of %d is not served", i, n); check_reply(w, c, c.kind <= 1); c.close(); }
    tick(4); w.end(); seq::outcome(std::to_string(n));
}
// ---- very many connections one after the other ---------------------------------------
static void serial()
{
    int n = seq::thorough() ? 5000 : 700, step = seq::choose(5); seq::note("%d clients one by one, %d", n, step);
    World w(1);
    for (int i = 0; i < n; ++i) {
        Client c; for (int r = 0; !c.open(w.path); ++r) { if (r > 20) seq::fail("client %d cannot connect", i); tick(); }
        int k = step == 4 ? i % 4 : step; if (k == 3) { tick(); c.close(); tick(2); continue; } // leaves without a request
        std::string q = request(k); if (!c.send(q.data(), q.size())) seq::fail("cannot send"); c.kind = k; c.sent = true;
        if (!finish(c)) seq::fail("client %d is not served", i);
        check_reply(w, c, k <= 1); c.close();
    }
    tick(4); w.end(); seq::outcome(std::to_string(step));
}
// ---- a sink with messages at all times does not keep clients waiting -------------------
static void busy()
{
    static const int ks[] = {0, 1, 3, 4}; int k = seq::pick(ks), n = 1 + seq::choose(3), idle = seq::choose(3); seq::note("request%d, %d clients, %d idle sinks", k, n, idle);
    World w(idle); unpark(); hooks = false;
    {
        lg::Busy b(*w.L); std::vector<std::unique_ptr<Client>> cl;
        for (int i = 0; i < n; ++i) { cl.emplace_back(new Client); if (!cl.back()->open(w.path)) seq::fail("cannot connect"); std::string r = request(k); if (!cl.back()->send(r.data(), r.size())) seq::fail("cannot send"); }
        bool ok = b.until([&] { bool all = true; for (auto& c : cl) { c->drain(); all &= c->eof; } return all; });
        if (!ok) seq::fail("a client is not served as long as a sink has messages");
        for (auto& c : cl) { if (k == 0 ? c->got.size() != size_t(idle) + 1 : c->got.size() != 1) seq::fail("wrong replies: %s", show(c->got).c_str()); c->close(); }
        lg::release(b.id);
    }
    for (auto& s : w.sinks) s->set_level(xtr::log_level_t::info);
    hooks = true; park(); tick(3); lg::take(); w.end(); seq::outcome(std::to_string(k));
}
int main(int argc, char** argv)
{
    seq::Options o; o.timeout_s = 60; o.budget_quick = 200;
    return seq::main_(argc, argv, "C18", "all request frames over boundary ids, lengths and contents; all orders of up to 6 (thorough 7-8) client actions, rounds of the background thread and destruction with up to three clients, also with a send window of a few packets; up to 2 (thorough 3) failing socket calls at every position",
        {{"frames", frames}, {"patterns", patterns}, {"clients", clients}, {"kinds", kinds}, {"window", window}, {"faults", faulty_calls}, {"many", many}, {"serial", serial}, {"busy", busy}},
        {"clients are on the same machine (Unix sockets of the kernel the check runs on)", "time and memory the C library needs to compile and match a regular expression are not bounded by the logger", "memory allocation does not fail"}, o);
}
