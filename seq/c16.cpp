// C16: construction of file storage under every failure of the calls it makes.
#include "sysfake.h"
#include <xtr/io/fd_storage.hpp>
#include <xtr/io/posix_fd_storage.hpp>
#include <xtr/io/io_uring_fd_storage.hpp>
#include <memory>
#include <stdexcept>

static int g_uring_faults; // failures allowed in ring set-up
static bool g_init_failed, g_reg_failed;
static int init_hook() { if (g_uring_faults > 0) { int k = seq::choose(4); if (k) { --g_uring_faults; g_init_failed = true; sf::hist += "uI"; return k == 1 ? ENOMEM : k == 2 ? EPERM : ENOSYS; } } return 0; }
static int reg_hook() { if (g_uring_faults > 0) { int k = seq::choose(3); if (k) { --g_uring_faults; g_reg_failed = true; sf::hist += "uR"; return k == 1 ? ENOMEM : EFAULT; } } return 0; }
static const char* old_content = "old line\n";

static void create()
{
    fk::reset(); sf::reset();
    fk::policy = 1; fk::init_hook = init_hook; fk::reg_hook = reg_hook; g_init_failed = g_reg_failed = false;
    std::string d = sf::workdir(), path = d + "/log", moved = d + "/log.1";
    int how = seq::choose(6); // path | stream | fd | stream+reopen | fd+reopen | path in missing directory
    bool exists = seq::flip();
    sf::uring_probe = seq::choose(2) ? ENOSYS : 0;
    int nf = seq::thorough() ? 3 : 2;
    if (exists) sf::spit(path.c_str(), old_content);
    std::string want = exists ? old_content : "";
    FILE* fp = nullptr; int fd = -1;
    if (how == 1 || how == 3) fp = fopen(path.c_str(), "a");
    if (how == 2 || how == 4) fd = int(sf::raw(SYS_openat, AT_FDCWD, long(path.c_str()), O_CREAT | O_WRONLY | O_APPEND, 0644));
    std::string missing = d + "/nosuch/log";
    const char* names[] = {"path", "stream", "fd", "stream+reopen", "fd+reopen", "badpath"};
    seq::note("%s exists%d probe%d", names[how], exists, sf::uring_probe);
    auto before = sf::fds();
    xtr::storage_interface_ptr st; bool threw = false;
    sf::faults = nf; g_uring_faults = nf; sf::on = true;
    try {
        switch (how) {
        case 0: st = xtr::make_fd_storage(path.c_str()); break;
        case 1: st = xtr::make_fd_storage(fp); break;
        case 2: st = xtr::make_fd_storage(fd); break;
        case 3: st = xtr::make_fd_storage(fp, path); break;
        case 4: st = xtr::make_fd_storage(fd, path); break;
        case 5: st = xtr::make_fd_storage(missing.c_str()); break;
        }
    } catch (const std::exception& e) { threw = true; }
    sf::on = false; sf::faults = 0; g_uring_faults = 0;
    seq::note("[%s]%s", sf::hist.c_str(), threw ? " threw" : "");
    if (threw) {
        if (!sf::open_failed && !sf::dup_failed) seq::fail("creation failed although no required system call failed [%s]", sf::hist.c_str());
        if (sf::fds() != before) seq::fail("failed creation left a file descriptor open [%s]", sf::hist.c_str());
        if (fk::alive()) seq::fail("failed creation left an io_uring instance open [%s]", sf::hist.c_str());
    } else {
        if (!st) seq::fail("creation returned no storage");
        if (sf::open_failed) seq::fail("opening the file failed but no error was reported [%s]", sf::hist.c_str());
        bool uring = dynamic_cast<xtr::io_uring_fd_storage*>(st.get()) != nullptr;
        if (!uring && fk::alive()) seq::fail("falling back left an io_uring instance open [%s]", sf::hist.c_str());
        size_t extra = sf::fds().size() - before.size();
        if (extra > 1) seq::fail("%zu descriptors are open where one is needed [%s]", extra, sf::hist.c_str());
        if (how == 1 || how == 3) { if (seq::flip()) { fclose(fp); fp = nullptr; seq::note("fclose"); } }
        if (how == 2 || how == 4) { if (seq::flip()) { close(fd); fd = -1; seq::note("close"); } }
        auto put = [&](const char* s) { auto b = st->allocate_buffer(); if (b.size() < strlen(s)) seq::fail("buffer of %zu bytes", b.size()); memcpy(b.data(), s, strlen(s)); st->submit_buffer(b.data(), strlen(s)); };
        put("one\n"); st->flush(); st->sync(); want += "one\n";
        if (sf::slurp(path.c_str()) != want) seq::fail("file holds '%s' instead of '%s' [%s]", sf::slurp(path.c_str()).c_str(), want.c_str(), sf::hist.c_str());
        rename(path.c_str(), moved.c_str());
        st->flush();
        int r = st->reopen();
        bool can = how == 0 || how >= 3;
        seq::note("reopen=%d", r);
        if (can && r) seq::fail("reopen failed with %d (%s) after [%s]", r, strerror(r), sf::hist.c_str());
        if (!can && r == 0) seq::fail("reopen without a path reported success");
        put("two\n"); st->flush(); st->sync();
        if (can) { if (sf::slurp(moved.c_str()) != want || sf::slurp(path.c_str()) != "two\n") seq::fail("after reopening the files hold '%s' and '%s' [%s]", sf::slurp(moved.c_str()).c_str(), sf::slurp(path.c_str()).c_str(), sf::hist.c_str()); }
        else if (sf::slurp(moved.c_str()) != want + "two\n") seq::fail("file holds '%s'", sf::slurp(moved.c_str()).c_str());
        st.reset();
        if (fk::alive()) seq::fail("destruction left an io_uring instance open");
        std::vector<int> now = sf::fds(), exp;
        for (int x : before) if (!((how == 2 || how == 4) && fd < 0 && fcntl(x, F_GETFD) < 0) && !((how == 1 || how == 3) && !fp && fcntl(x, F_GETFD) < 0)) exp.push_back(x);
        if (now != exp) seq::fail("descriptors leaked or lost: %zu open, expected %zu [%s]", now.size(), exp.size(), sf::hist.c_str());
        if (now.size() < before.size() - 1) seq::fail("a descriptor of the caller was closed");
    }
    if (fd >= 0) { if (fcntl(fd, F_GETFD) < 0) seq::fail("the caller's descriptor was closed"); close(fd); }
    if (fp) { if (fcntl(fileno(fp), F_GETFD) < 0) seq::fail("the caller's stream was closed"); fclose(fp); }
    seq::outcome(sf::hist + (threw ? "!" : ""));
    sf::workdir();
}
// the two back ends constructed directly
static void direct()
{
    fk::reset(); sf::reset(); fk::policy = 1; fk::init_hook = init_hook; fk::reg_hook = reg_hook; g_init_failed = g_reg_failed = false;
    std::string d = sf::workdir(), path = d + "/log";
    int fd = int(sf::raw(SYS_openat, AT_FDCWD, long(path.c_str()), O_CREAT | O_WRONLY, 0644));
    bool uring = seq::flip(); bool badfd = seq::flip();
    auto before = sf::fds(); bool threw = false;
    sf::faults = 2; g_uring_faults = 2; sf::on = true;
    seq::note("%s%s", uring ? "io_uring" : "posix", badfd ? " bad fd" : "");
    try {
        xtr::storage_interface_ptr st;
        if (uring) st = std::make_unique<xtr::io_uring_fd_storage>(badfd ? 199 : fd, path, 16, 2, 2); else st = std::make_unique<xtr::posix_fd_storage>(badfd ? 199 : fd, path, 16);
        sf::on = false;
        if (badfd) seq::fail("storage was created for a descriptor that is not open");
        auto b = st->allocate_buffer(); b[0] = 'x'; st->submit_buffer(b.data(), 1); st->flush(); st->sync();
        if (sf::slurp(path.c_str()) != "x") seq::fail("file holds '%s'", sf::slurp(path.c_str()).c_str());
        if (g_init_failed || g_reg_failed || sf::dup_failed) seq::fail("set-up failure was not reported [%s]", sf::hist.c_str());
    } catch (const std::exception&) { threw = true; }
    sf::on = false;
    seq::note("[%s]%s", sf::hist.c_str(), threw ? " threw" : "");
    if (threw && !badfd && !sf::dup_failed && !g_init_failed && !g_reg_failed) seq::fail("creation failed although nothing failed");
    if (sf::fds() != before) seq::fail("a file descriptor leaked [%s]", sf::hist.c_str());
    if (fk::alive()) seq::fail("an io_uring instance leaked [%s]", sf::hist.c_str());
    if (fcntl(fd, F_GETFD) < 0) seq::fail("the caller's descriptor was closed");
    close(fd); seq::outcome(sf::hist); sf::workdir();
}
// with and without descriptor 0 being free (standard input closed)
static void scenario() { bool z = seq::flip(); int save = -1; if (z) { seq::note("stdin closed"); save = int(sf::raw(SYS_fcntl, 0, F_DUPFD_CLOEXEC, 300)); sf::raw(SYS_close, 0); } create(); if (z) { sf::raw(SYS_dup2, save, 0); sf::raw(SYS_close, save); } }
int main(int argc, char** argv)
{
    return seq::main_(argc, argv, "C16",
        "every way of creating storage x file present or not x io_uring present or not x standard input open or closed x every failure (up to the stated number) of open, dup, ring set-up and buffer registration, followed by a write, a reopen, another write and destruction; histories differ in the sequence of call outcomes",
        {{"make", scenario}, {"direct", direct}}, {"memory allocation does not fail"});
}
