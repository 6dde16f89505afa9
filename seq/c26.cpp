// C26: life cycle of the command socket.
#include "ctl.h"
using namespace ctl;
// ---- setting up and replacing the socket --------------------------------------------
static void setup_paths()
{
    is_main = true; hooks = true; gate = 0; bad.clear(); injected.clear(); faulty = false; lg::take();
    int fds0 = count_fds(); std::string dir = std::string(seq::scratch_dir()) + "/d" + std::to_string(getpid()); mkdir(dir.c_str(), 0700);
    auto file = [&](size_t n) { std::string p = dir + "/"; while (p.size() < n) p += 'p'; return p; };
    std::string A = dir + "/a", other = dir + "/other", plain = dir + "/plain", abs = std::string("\0xtrv", 5) + std::to_string(getpid());
    int ofd = int(raw(SYS_socket, AF_LOCAL, SOCK_SEQPACKET, 0)); { sockaddr_un a = addr_of(other); raw(SYS_bind, ofd, long(&a), sizeof a); raw(SYS_listen, ofd, 5); }
    { int f = ::open(plain.c_str(), O_CREAT | O_WRONLY, 0600); ::close(f); }
    struct P { std::string p; int kind; }; // 0 works, 1 no socket, 2 fails
    const P paths[] = {{A, 0}, {file(107), 0}, {file(108), 2}, {file(109), 2}, {file(400), 2}, {other, 2}, {plain, 2}, {dir + "/nodir/x", 2}, {"", 1}, {abs, 0}, {dir, 2}};
    int n = seq::choose(seq::thorough() ? 3 : 2) + 1; std::string cur; bool have = false; int f0 = seq::choose(2);
    {
        std::unique_ptr<xtr::logger> L; Client held; bool hold = seq::flip();
        for (int i = 0; i < n; ++i) {
            const P& p = paths[seq::choose(11)]; seq::note("path \"%s\"", lg::esc(p.p).substr(0, 20).c_str());
            if (i == 0) { // constructed by this thread
                is_main = false; setup_only = true; faulty = f0; faults = 1; injected.clear(); L.reset(new xtr::logger(std::make_unique<lg::Mem>(), lg::Clock(), p.p)); is_main = true; faulty = false;
            } else { injected.clear(); if (p.kind == 1) { L->set_command_path(p.p); continue; } L->set_command_path(p.p); }
            bool works = p.kind == 0 && injected.empty();
            if (have && cur != p.p) { Client c; if (c.open(cur)) seq::fail("the previous command socket is still there"); struct stat st; if (cur[0] && !::lstat(cur.c_str(), &st)) seq::fail("the previous socket file was left behind"); }
            if (held.fd >= 0 && (cur != p.p || i)) { long t0 = seq::now_ms(); while (!held.eof) { held.drain(); sched_yield(); if (seq::now_ms() - t0 > 50000) seq::fail("a connection to the previous socket is left open"); } held.close(); }
            have = works; cur = p.p;
            Client c; bool ok = works && c.open(p.p);
            if (works && !ok) seq::fail("cannot connect to the command socket");
            if (ok) { std::string r = req_status(); c.send(r.data(), r.size()); long t0 = seq::now_ms(); while (!c.eof) { c.drain(); sched_yield(); if (seq::now_ms() - t0 > 50000) seq::fail("a client is not served"); } if (!c.got.empty()) seq::fail("status of a logger without sinks: %s", show(c.got).c_str()); }
            if (ok && hold && held.fd < 0) held.open(p.p);
        }
        xtr::sink s = L->get_sink("s"); XTR_LOG(s, "works"); s.sync(); lg::expect(lg::take(), lg::line('I', "s", "c26.cpp", __LINE__, "works"), "message");
        s.close();
    }
    hooks = false; struct stat st;
    if (have && cur[0] && !::lstat(cur.c_str(), &st)) seq::fail("the socket file was left behind");
    if (::lstat(other.c_str(), &st) || !S_ISSOCK(st.st_mode)) seq::fail("another process's socket was removed");
    if (::lstat(plain.c_str(), &st) || !S_ISREG(st.st_mode)) seq::fail("an unrelated file was removed");
    raw(SYS_close, ofd);
    int k = count_fds(); if (k != fds0) seq::fail("%d descriptors open instead of %d", k, fds0);
    ::unlink(other.c_str()); ::unlink(plain.c_str()); ::unlink(file(107).c_str()); ::unlink(A.c_str()); rmdir(dir.c_str());
    seq::outcome(std::to_string(have));
}

// ---- an existing path is never taken over, also when its owner has gone --------------
static void taken()
{
    is_main = true; hooks = true; gate = 0; bad.clear(); injected.clear(); faulty = false; lg::take();
    std::string p = sock_path() + "t"; ::unlink(p.c_str()); int order = seq::choose(4), what = seq::choose(2); seq::note("order%d what%d", order, what);
    auto mk = [&] { return std::make_unique<xtr::logger>(std::make_unique<lg::Mem>(), lg::Clock(), what ? std::string(xtr::null_command_path) : p); };
    auto a = std::make_unique<xtr::logger>(std::make_unique<lg::Mem>(), lg::Clock(), p); auto b = mk(); if (what) b->set_command_path(p);
    xtr::sink sa = a->get_sink("sa"), sb = b->get_sink("sb"); sa.sync(); sb.sync();
    auto probe = [&](const char* who, bool want) {
        Client c; bool ok = c.open(p); if (ok != want) seq::fail("%s the command socket of the first logger", want ? "lost" : "still there:");
        if (!ok) return; std::string r = req_status(); c.send(r.data(), r.size()); long t0 = seq::now_ms(); while (!c.eof) { c.drain(); sched_yield(); if (seq::now_ms() - t0 > 50000) seq::fail("a client is not served"); }
        if (c.got.size() != 1 || !is_info(c.got[0]) || strcmp(info_of(c.got[0]).name, who)) seq::fail("answered by the wrong logger: %s", show(c.got).c_str());
    };
    probe("sa", true);
    switch (order) {
    case 0: sb.close(); b.reset(); probe("sa", true); sa.close(); a.reset(); break;
    case 1: sa.close(); a.reset(); probe("", false); { struct stat st; if (!::lstat(p.c_str(), &st)) seq::fail("the socket file was left behind"); } b->set_command_path(p); probe("sb", true); sb.close(); b.reset(); break;
    case 2: b->set_command_path(p); probe("sa", true); sb.close(); b.reset(); probe("sa", true); sa.close(); a.reset(); break;
    case 3: b->set_command_path(p + "2"); probe("sa", true); a->set_command_path(p + "3"); b->set_command_path(p); probe("sb", true); sa.close(); a.reset(); probe("sb", true); sb.close(); b.reset(); break;
    }
    probe("", false); struct stat st; for (const char* x : {"", "2", "3"}) if (!::lstat((p + x).c_str(), &st)) seq::fail("the socket file was left behind");
    hooks = false; seq::outcome(std::to_string(order));
}
// ---- the default path ------------------------------------------------------------------
static void default_path()
{
    std::string dir = std::string(seq::scratch_dir()) + "/e" + std::to_string(getpid()); mkdir(dir.c_str(), 0700); mkdir((dir + "/run").c_str(), 0700); mkdir((dir + "/tmp").c_str(), 0700);
    { int f = ::open((dir + "/file").c_str(), O_CREAT | O_WRONLY, 0600); ::close(f); }
    const std::string vals[] = {"", dir + "/run", dir + "/none", dir + "/run/", dir + "/%s%d", std::string(200, 'l'), dir};
    auto set = [&](const char* k, int c) { if (c == 0) unsetenv(k); else setenv(k, vals[c - 1].c_str(), 1); };
    int x = seq::choose(8), t = seq::choose(8); set("XDG_RUNTIME_DIR", x); set("TMPDIR", t); seq::note("XDG%d TMPDIR%d", x, t);
    std::string rd = x ? vals[x - 1] : "/run/user/" + std::to_string(geteuid()), td = t ? vals[t - 1] : std::string("/tmp");
    std::string d = access(rd.c_str(), W_OK) == 0 ? rd : td; unsigned prev = 0;
    int calls = x == 2 && t == 0 ? 140000 : 12; // the numbers stay consecutive, also beyond 16 bits
    for (int i = 0; i < calls; ++i) {
        std::string p = xtr::default_command_path(), pre = d + "/xtrctl." + std::to_string(getpid()) + ".";
        if (p.compare(0, pre.size(), pre) || p.size() == pre.size() || p.find_first_not_of("0123456789", pre.size()) != std::string::npos) seq::fail("the default command path is %s instead of %s<N>", p.c_str(), pre.c_str());
        unsigned n = unsigned(std::stoul(p.substr(pre.size()))); if (i && n != prev + 1) seq::fail("the default command path number is %u after %u", n, prev); prev = n;
        if (std::to_string(n) != p.substr(pre.size())) seq::fail("the default command path is %s", p.c_str());
    }
    if (x == 2) { // a logger on its default path
        is_main = true; hooks = false; xtr::logger* l = new xtr::logger(std::make_unique<lg::Mem>(), lg::Clock()); std::string p = d + "/xtrctl." + std::to_string(getpid()) + "." + std::to_string(prev + 1);
        Client c; if (!c.open(p)) seq::fail("the logger does not listen on the default path"); c.close(); delete l; struct stat st; if (!::lstat(p.c_str(), &st)) seq::fail("the socket file was left behind");
    }
    ::unlink((dir + "/file").c_str()); rmdir((dir + "/run").c_str()); rmdir((dir + "/tmp").c_str()); rmdir(dir.c_str()); seq::outcome(d == rd ? "run" : "tmp");
}
// ---- default paths handed to several threads are distinct ------------------------------
int main(int argc, char** argv)
{
    seq::Options o; o.timeout_s = 60;
    return seq::main_(argc, argv, "C26", "all sequences of up to 2 (thorough 3) command paths over a boundary set (lengths around the limit, occupied, missing, abstract, repeated), with a failing call or a client connected; all settings of the environment over a boundary set",
        {{"paths", setup_paths}, {"taken", taken}, {"default_path", default_path}},
        {"the check runs as a user to whom every directory is accessible, so inaccessible means missing"}, o);
}
