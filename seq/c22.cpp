// C22: the control tool. The tool's own main() runs in a child process for every
// command line and every sequence of replies; the parent is the recording server.
#include "ctl.h"
#include <spawn.h>
#include <sys/wait.h>
using namespace ctl;
using PT = xd::pattern_type_t;
int xtrctl_main(int argc, char** argv);
extern char** environ;
struct Run { int status = -1; std::string out, err; std::vector<std::string> req; int conns = 0; };
static std::string slurp(int fd) { std::string s; char b[4096]; off_t o = 0; ssize_t k; while ((k = pread(fd, b, sizeof b, o)) > 0) { s.append(b, size_t(k)); o += k; } return s; }
static std::string srv_path() { return std::string(seq::scratch_dir()) + "/c" + std::to_string(getpid()); }
// how: 0 close after the replies, 1 close without reading the request
static Run run(const std::vector<std::string>& words, const std::vector<std::string>& replies, int how = 0)
{
    is_main = true; std::string p = srv_path(); ::unlink(p.c_str());
    int ls = int(raw(SYS_socket, AF_LOCAL, SOCK_SEQPACKET | SOCK_NONBLOCK | SOCK_CLOEXEC, 0)); sockaddr_un a = addr_of(p); if (raw(SYS_bind, ls, long(&a), sizeof a) || raw(SYS_listen, ls, 8)) seq::fail("harness: cannot listen");
    int o = memfd_create("o", 0), e = memfd_create("e", 0); Run r;
    pid_t c = fork();
    if (!c) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(o, 1); dup2(e, 2); raw(SYS_close, ls); alarm(40); std::vector<char*> av; static char name[] = "xtrctl"; av.push_back(name); for (auto& w : words) av.push_back(strdup(w.c_str())); av.push_back(nullptr);
        if (chdir(seq::scratch_dir())) {} int rc = 99; try { rc = xtrctl_main(int(words.size()) + 1, av.data()); } catch (...) { rc = 98; } exit(rc);
    }
    std::vector<int> conn; bool done = false; int st = 0;
    while (!done) {
        std::vector<struct pollfd> pf{{ls, POLLIN, 0}}; for (int f : conn) pf.push_back({f, POLLIN, 0});
        raw(SYS_poll, long(pf.data()), long(pf.size()), 1);
        int f = int(raw(SYS_accept4, ls, 0, 0, SOCK_NONBLOCK | SOCK_CLOEXEC)); if (f >= 0) { conn.push_back(f); r.conns++; }
        for (size_t i = 0; i < conn.size(); ++i) {
            if (how == 1) { struct pollfd q{conn[i], POLLIN, 0}; if (raw(SYS_poll, long(&q), 1, 0) != 1 || !(q.revents & POLLIN)) { if (!(q.revents & POLLHUP)) continue; } for (auto& x : replies) raw(SYS_sendto, conn[i], long(x.data()), long(x.size()), MSG_NOSIGNAL, 0, 0); raw(SYS_close, conn[i]); conn.erase(conn.begin() + long(i)); break; }
            char b[2048]; long k = raw(SYS_recvfrom, conn[i], long(b), sizeof b, MSG_DONTWAIT, 0, 0);
            if (k > 0) { r.req.emplace_back(b, size_t(k)); for (auto& x : replies) { long z; while ((z = raw(SYS_sendto, conn[i], long(x.data()), long(x.size()), MSG_NOSIGNAL, 0, 0)) < 0 && errno == EAGAIN) usleep(100); } raw(SYS_shutdown, conn[i], SHUT_WR); }
            else if (k == 0 || errno != EAGAIN) { raw(SYS_close, conn[i]); conn.erase(conn.begin() + long(i)); break; }
        }
        if (waitpid(c, &st, WNOHANG) == c) done = true;
    }
    // what was sent just before the exit
    { int f = int(raw(SYS_accept4, ls, 0, 0, SOCK_NONBLOCK)); if (f >= 0) { conn.push_back(f); r.conns++; } for (int x : conn) { char b[2048]; long k; while ((k = raw(SYS_recvfrom, x, long(b), sizeof b, MSG_DONTWAIT, 0, 0)) > 0) r.req.emplace_back(b, size_t(k)); raw(SYS_close, x); } }
    raw(SYS_close, ls); r.out = slurp(o); r.err = slurp(e); raw(SYS_close, o); raw(SYS_close, e); ::unlink(p.c_str());
    if (WIFSIGNALED(st)) seq::fail("the tool died with signal %d (%s) [%s]", WTERMSIG(st), strsignal(WTERMSIG(st)), lg::esc(r.err).substr(0, 300).c_str());
    r.status = WEXITSTATUS(st); if (r.status == 77 || r.status == 98) seq::fail("the tool crashed [%s]", lg::esc(r.err).substr(0, 500).c_str());
    return r;
}
static const char* const lvn[] = {"none", "fatal", "error", "warning", "info", "debug"};
struct Want { bool help = false, fail = false, either = false; int cmd = -1; int level = 0; PT type = PT::none; std::string pat; };
// what a command line denotes, from the documentation
static Want meaning(const std::vector<std::string>& w, const std::string& path)
{
    Want x; if (w.empty()) { x.fail = true; return x; }
    size_t i = 1;
    if (w[0] == "--help") { x.help = true; return x; }
    if (w[0] == "status") x.cmd = 0; else if (w[0] == "level") { x.cmd = 1; x.level = -1; if (w.size() > 1) for (int k = 0; k < 6; ++k) if (w[1] == lvn[k]) x.level = k; if (x.level < 0) { x.fail = true; x.either = w.size() > 1 && (w[1] == "--help" || w[1] == "-h"); return x; } i = 2; } else if (w[0] == "reopen") x.cmd = 2; else { x.fail = true; x.either = w[0] == "-h"; return x; }
    std::vector<std::string> pos; bool opts = true;
    for (; i < w.size(); ++i) {
        const std::string& s = w[i];
        if (!opts || s.size() < 2 || s[0] != '-') { pos.push_back(s); continue; }
        if (s == "--") { opts = false; continue; }
        std::vector<std::string> o; if (s[1] == '-') o.push_back(s); else for (size_t k = 1; k < s.size(); ++k) o.push_back(std::string("-") + s[k]);
        for (auto& q : o) {
            if (q == "-E" || q == "--extended-regexp") x.type = PT::extended_regex; else if (q == "-G" || q == "--basic-regexp" || q == "--basic-regex") x.type = PT::basic_regex; else if (q == "-W" || q == "--wildcard") x.type = PT::wildcard;
            else if (q == "-h" || q == "--help") { x.help = true; return x; } else { x.fail = true; return x; }
        }
    }
    if (pos.empty() || pos.size() > (x.cmd == 2 ? 1u : 2u) || (pos.size() == 1 && x.type != PT::none)) { x.fail = true; return x; }
    if (pos.size() == 2) { x.pat = pos[0]; if (x.type == PT::none) x.type = PT::basic_regex; }
    if (pos.back() != path || x.pat.size() > 255) x.fail = true;
    return x;
}
static void check_request(const Want& w, const Run& r)
{
    if (r.req.size() != 1) seq::fail("%zu requests were sent", r.req.size());
    const std::string& q = r.req[0]; xd::pattern pt; size_t n = w.cmd == 0 ? sizeof(xd::frame<xd::status>) : w.cmd == 1 ? sizeof(xd::frame<xd::set_level>) : sizeof(xd::frame<xd::reopen>);
    uint32_t id = w.cmd == 0 ? xd::status::frame_id : w.cmd == 1 ? xd::set_level::frame_id : xd::reopen::frame_id;
    if (id_of(q) != id || q.size() != n) seq::fail("a request with id %u and %zu bytes was sent", id_of(q), q.size());
    if (w.cmd == 2) return;
    if (w.cmd == 1) { xd::frame<xd::set_level> f; memcpy(static_cast<void*>(&f), q.data(), sizeof f); if (int(f->level) != w.level) seq::fail("level %d was requested instead of %d", int(f->level), w.level); memcpy(&pt, &f->pattern, sizeof pt); }
    else { xd::frame<xd::status> f; memcpy(static_cast<void*>(&f), q.data(), sizeof f); memcpy(&pt, &f->pattern, sizeof pt); }
    if (pt.type != w.type) seq::fail("pattern syntax %d was requested instead of %d", int(pt.type), int(w.type));
    if (reinterpret_cast<unsigned char&>(pt.ignore_case)) seq::fail("a case-insensitive match was requested");
    if (!memchr(pt.text, 0, sizeof pt.text) || w.pat != pt.text) seq::fail("the pattern sent is \"%s\" instead of \"%s\"", lg::esc(std::string(pt.text, strnlen(pt.text, sizeof pt.text))).c_str(), lg::esc(w.pat).c_str());
}
template<class F> static std::string frame_bytes(F&& f) { return bytes(f); }
static std::string f_info(const char* nm, int lv, size_t cap, size_t used, size_t drop) { xd::frame<xd::sink_info> f; f->level = xtr::log_level_t(lv); f->buf_capacity = cap; f->buf_nbytes = used; f->dropped_count = drop; strncpy(f->name, nm, sizeof f->name); return bytes(f); }
static std::string f_err(const char* t) { xd::frame<xd::error> f; strncpy(f->reason, t, sizeof f->reason); return bytes(f); }
static std::string f_ok() { return bytes(xd::frame<xd::success>()); }
static void judge(const std::vector<std::string>& words, const Want& w, const Run& r)
{
    (void)words;
    if (w.either) { if (!r.req.empty()) seq::fail("a request was sent"); return; }
    if (w.help) { if (r.status != 0) seq::fail("asking for help exits with %d", r.status); if (r.out.find("Usage") == std::string::npos) seq::fail("no help was printed"); if (r.conns) seq::fail("asking for help connected to the socket"); return; }
    if (w.fail) { if (r.status == 0) seq::fail("an invalid command line exits with success [%s]", lg::esc(r.out).c_str()); if (!r.req.empty()) seq::fail("an invalid command line sent a request"); if (r.out.empty() && r.err.empty()) seq::fail("nothing was reported"); return; }
    if (r.status != 0) seq::fail("a valid command line exits with %d [%s]", r.status, lg::esc(r.err).c_str());
    check_request(w, r);
}
// ---- every command line ----------------------------------------------------------------
static void lines(int maxw)
{
    std::string path = srv_path(); std::vector<std::string> w; int c = seq::choose(11); static const char* const heads[] = {"status", "level", "level", "level", "reopen", "--help", "", "-h", "stat", "STATUS"};
    if (c) { w.push_back(heads[c - 1]); if (c == 2) w.push_back("error"); if (c == 3) w.push_back("none"); if (c == 4) { static const char* const odd[] = {"INFO", "", "trace", "-1", "-E", "--help", "fatal "}; int k = seq::choose(8); if (k) w.push_back(odd[k - 1]); } }
    const std::string ws[] = {path, "pat", "-E", "-W", "-G", "", "--wildcard", "--", "-h", "--extended-regexp", "-x", "--basic-regex", std::string(256, 'p'), "-EW", "--bogus", "-", std::string(255, 'p'), "--help", "--basic-regexp", std::string(300, 'q')};
    int nw = seq::thorough() ? int(sizeof ws / sizeof *ws) : 14, extra = c >= 6 ? 1 : maxw;
    for (int i = 0; i < extra; ++i) { int k = seq::choose(nw + 1); if (!k) break; w.push_back(ws[k - 1]); }
    std::string t; for (auto& x : w) t += "'" + (x == path ? "SOCKET" : x.size() > 20 ? std::to_string(x.size()) + "chars" : x) + "' "; seq::note("%s", t.c_str());
    Want m = meaning(w, path); std::vector<std::string> rep; if (m.cmd == 0) rep.push_back(f_info("n", 4, 65536, 0, 0)); else rep.push_back(f_ok());
    Run r = run(w, rep); judge(w, m, r);
    if (!m.fail && !m.help && !m.either) lg::expect(r.out, m.cmd == 0 ? "n (info) 64K capacity, 0K used, 0 dropped\n" : "Success\n", "output");
    seq::outcome(m.either ? "e" : m.help ? "h" : m.fail ? "f" : std::to_string(m.cmd) + std::to_string(int(m.type)) + std::to_string(m.level));
}
static void command_lines() { lines(seq::thorough() ? 4 : 3); }
// ---- levels and pattern texts --------------------------------------------------------------
static void texts()
{
    std::string path = srv_path(); static const std::vector<std::string> ps = {"", "a", "Test[0-2]", " ", "a b", "\n", "\xff", "%s%n", "\\", "'\"", "[", std::string(254, 'x'), std::string(255, 'y'), std::string(256, 'z'), std::string(4000, 'w')};
    int cmd = seq::choose(7); std::string p = seq::pick(ps); int opt = seq::choose(4); static const char* const os[] = {"", "-E", "-G", "-W"}; int order = seq::choose(3);
    std::vector<std::string> w; if (cmd == 6) w = {"status"}; else w = {"level", lvn[cmd]};
    if (opt && order == 0) w.push_back(os[opt]);
    w.push_back(p); if (opt && order == 1) w.push_back(os[opt]); w.push_back(path); if (opt && order == 2) w.push_back(os[opt]);
    seq::note("cmd%d opt%d order%d text of %zu", cmd, opt, order, p.size());
    Want m = meaning(w, path); Run r = run(w, {cmd == 6 ? f_info("n", 4, 4096, 0, 0) : f_ok()}); judge(w, m, r); seq::outcome(std::to_string(m.fail));
}
// ---- every sequence of replies --------------------------------------------------------------
static void replies()
{
    int cmd = seq::choose(3), how = seq::choose(2); std::string path = srv_path();
    std::string u1 = f_err(""), u2 = f_info("", 4, 0, 0, 0); memset(&u1[4], 'E', 256); memset(&u2[u2.size() - 128], 'N', 128); std::string un(40, '\x01'); uint32_t uid = 99; memcpy(un.data(), &uid, 4);
    struct R { std::string b; int k; std::string text; }; // k: 0 info, 1 success, 2 error, 3 malformed, 4 unterminated error, 5 unterminated info
    const R rs[] = {{f_info("b", 4, 65536, 2047, 3), 0, "b (info) 64K capacity, 1K used, 3 dropped\n"}, {f_info("a", 0, 4096, 4096, 18446744073709551615ull), 0, "a (none) 4K capacity, 4K used, 18446744073709551615 dropped\n"}, {f_ok(), 1, "Success\n"}, {f_err("bad thing"), 2, "bad thing"}, {std::string(3, '\0'), 3, ""}, {un, 3, ""}, {f_info("t", 4, 1, 1, 1).substr(0, 100), 3, ""}, {f_err("trunc").substr(0, 20), 3, ""}, {f_err("long") + "x", 3, ""}, {f_info("l", 4, 1, 1, 1) + std::string(500, 'x'), 3, ""}, {u1, 4, ""}, {u2, 5, ""}, {f_info("a", 5, 0, 1023, 0), 0, "a (debug) 0K capacity, 0K used, 0 dropped\n"}};
    int nr = int(sizeof rs / sizeof *rs), max = seq::thorough() ? 4 : 3; std::vector<const R*> v; for (int i = 0; i < max; ++i) { int k = seq::choose(nr + 1); if (!k) break; v.push_back(&rs[k - 1]); }
    std::string t; for (auto* x : v) t += std::to_string(x - rs) + " "; seq::note("cmd%d replies %sclose%d", cmd, t.c_str(), how);
    std::vector<std::string> w = cmd == 0 ? std::vector<std::string>{"status", path} : cmd == 1 ? std::vector<std::string>{"level", "info", path} : std::vector<std::string>{"reopen", path}; std::vector<std::string> rep; for (auto* x : v) rep.push_back(x->b);
    Run r = run(w, rep, how); int bad_ = 0; const R* err = nullptr; bool ok = false, unterm = false; std::vector<std::string> infos; std::string o;
    for (auto* x : v) { if (x->k == 2 || x->k == 3 || x->k == 4) { bad_ = 1; if (x->k == 2) err = x; break; } if (x->k == 1) { ok = true; o += x->text; } if (x->k == 0) infos.push_back(x->text); if (x->k == 5) unterm = true; }
    if (how == 1) { bad_ = 2; err = nullptr; } // the connection is reset, replies may be lost
    if (bad_) { if (r.status == 0) seq::fail("%s, but the tool exits with success", err ? "an error was answered" : how ? "the connection was reset" : "a malformed reply was received"); if (err && r.err.find(err->text) == std::string::npos && r.out.find(err->text) == std::string::npos) seq::fail("the error is not reported [%s]", lg::esc(r.err).c_str()); if (r.out.empty() && r.err.empty()) seq::fail("nothing is reported"); }
    else if (cmd != 0 && !ok) { if (r.status == 0) seq::fail("no reply was received, but the tool exits with success"); }
    else if (!unterm && (cmd == 0 ? !ok : infos.empty())) {
        if (r.status != 0) seq::fail("the tool exits with %d [%s]", r.status, lg::esc(r.err).c_str());
        auto name = [](const std::string& s) { return s.substr(0, s.find(' ')); }; std::stable_sort(infos.begin(), infos.end(), [&](auto& a, auto& b) { return name(a) < name(b); });
        std::multiset<std::string> A, B; std::string cur; for (char ch : r.out) { cur += ch; if (ch == '\n') { A.insert(cur); cur.clear(); } } for (auto& s : infos) { B.insert(s); } if (cmd) { for (auto* x : v) if (x->k == 1) B.insert(x->text); }
        if (A != B || !cur.empty()) seq::fail("printed \"%s\"", lg::esc(r.out).c_str());
    }
    if (how == 0 && r.req.size() != 1) seq::fail("%zu requests were sent", r.req.size());
    seq::outcome(std::to_string(bad_) + o + std::to_string(infos.size()));
}
static void many_replies()
{
    int n = seq::pick(std::vector<int>{0, 1, 2, 100, 400}), order = seq::choose(3); seq::note("%d replies order%d", n, order); std::string path = srv_path(); std::vector<std::string> rep; std::set<std::string> want; 
    for (int i = 0; i < n; ++i) { int j = order == 0 ? i : order == 1 ? n - 1 - i : (i * 37) % n; char nm[16]; snprintf(nm, 16, "n%04d", j); if (order == 2 && n % 37 == 0) continue; rep.push_back(f_info(nm, j % 6, 4096 * size_t(j), size_t(j) * 1000, size_t(j))); want.insert(fmt::format("{} ({}) {}K capacity, {}K used, {} dropped\n", nm, lvn[j % 6], 4 * j, j * 1000 / 1024, j)); }
    Run r = run({"status", path}, rep); std::string w; for (auto& s : want) w += s; if (r.status) seq::fail("the tool exits with %d", r.status); lg::expect(r.out, w, "output"); seq::outcome(std::to_string(n));
}
// ---- against a real logger --------------------------------------------------------------------
static Run spawn(const std::vector<std::string>& words)
{
    int o = memfd_create("o", 0), e = memfd_create("e", 0); posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_adddup2(&fa, o, 1); posix_spawn_file_actions_adddup2(&fa, e, 2);
    std::vector<char*> av; static char self[] = "xtrctl", mode[] = "--xtrctl"; av.push_back(self); av.push_back(mode); for (auto& w : words) av.push_back(const_cast<char*>(w.c_str())); av.push_back(nullptr); pid_t p; Run r;
    if (posix_spawn(&p, "/proc/self/exe", &fa, nullptr, av.data(), environ)) seq::fail("harness: cannot spawn"); posix_spawn_file_actions_destroy(&fa); int st; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) seq::fail("the tool died with signal %d", WTERMSIG(st)); r.status = WEXITSTATUS(st); r.out = slurp(o); r.err = slurp(e); raw(SYS_close, o); raw(SYS_close, e); return r;
}
static void end_to_end()
{
    is_main = true; hooks = false; std::string p = sock_path() + "e"; ::unlink(p.c_str()); xtr::logger l(std::make_unique<lg::Mem>(), lg::Clock(), p); xtr::sink a = l.get_sink("Test0"), b = l.get_sink("Test1"), c = l.get_sink("other"); a.sync(); b.sync(); c.sync(); int lv[3] = {4, 4, 4}; const char* nm[3] = {"Test0", "Test1", "other"}; xtr::sink* s[3] = {&a, &b, &c};
    int n = seq::thorough() ? 2 : 1;
    for (int i = 0; i < n; ++i) {
        struct P { std::vector<std::string> o; std::string p; int mask; }; static const std::vector<P> ps = {{{}, "", 7}, {{}, "Test[0-1]", 3}, {{"-W"}, "T*1", 2}, {{"-E"}, "Test(0|1)|other", 7}, {{"-G"}, "^o", 4}, {{"-W"}, "Test", 0}, {{"--wildcard"}, "?????", 7}, {{"-E"}, "(", -1}};
        int L = seq::choose(6); const P& q = seq::pick(ps); std::vector<std::string> w{"level", lvn[L]}; w.insert(w.end(), q.o.begin(), q.o.end()); if (!q.p.empty()) w.push_back(q.p); w.push_back(p); seq::note("level %s '%s'", lvn[L], q.p.c_str());
        Run r = spawn(w);
        if (q.mask < 0) { if (r.status == 0 || r.err.empty()) seq::fail("an invalid pattern exits with success"); } else { if (r.status || r.out != "Success\n") seq::fail("level exits with %d and prints \"%s\" \"%s\"", r.status, lg::esc(r.out).c_str(), lg::esc(r.err).c_str()); for (int k = 0; k < 3; ++k) if (q.mask >> k & 1) lv[k] = L; }
        for (int k = 0; k < 3; ++k) if (int(s[k]->level()) != lv[k]) seq::fail("sink %s has level %d instead of %d", nm[k], int(s[k]->level()), lv[k]);
        w.erase(w.begin(), w.begin() + 2); w.insert(w.begin(), "status"); r = spawn(w); std::string want; for (int k = 0; k < 3; ++k) if (q.mask >= 0 && q.mask >> k & 1) want += fmt::format("{} ({}) {}K capacity, 0K used, 0 dropped\n", nm[k], lvn[lv[k]], s[k]->capacity() / 1024);
        if (q.mask < 0 ? r.status == 0 : r.status != 0) seq::fail("status exits with %d", r.status); lg::expect(r.out, want, "status");
        r = spawn({"reopen", p}); if (r.status || r.out != "Success\n") seq::fail("reopen exits with %d", r.status);
        seq::outcome(want);
    }
}
int main(int argc, char** argv)
{
    if (argc > 1 && !strcmp(argv[1], "--xtrctl")) return xtrctl_main(argc - 1, argv + 1);
    seq::Options o; o.timeout_s = 60;
    return seq::main_(argc, argv, "C22", "all command lines of a command word and up to 3 (thorough 4) further words over the documented vocabulary and boundary words; all reply sequences of up to 3 (thorough 4) over well-formed and malformed replies, with the connection closed or reset; the tool against a real logger",
        {{"texts", texts}, {"replies", replies}, {"command_lines", command_lines}, {"many_replies", many_replies}, {"end_to_end", end_to_end}},
        {"abbreviated long options are not considered", "a status request without any reply means that no sink matches"}, o);
}
