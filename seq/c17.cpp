// C17: reopening with writes in flight, failures and both back ends.
#include "sysfake.h"
#include <xtr/io/posix_fd_storage.hpp>
#include <xtr/io/io_uring_fd_storage.hpp>
#include <memory>
#include <stdexcept>

struct Run {
    std::string d, path; xtr::storage_interface_ptr st; std::vector<std::string> names, want; int cur = 0, id = 0; bool haspath; std::vector<int> before; int rot = 0; bool uring;
    Run(bool u, bool append, bool hp, size_t cap, size_t q, size_t b) : haspath(hp), uring(u)
    {
        d = sf::workdir(); path = d + "/log";
        before = sf::fds();
        int fd = int(sf::raw(SYS_openat, AT_FDCWD, long(path.c_str()), O_CREAT | O_WRONLY | (append ? O_APPEND : 0), 0644));
        if (u) st = std::make_unique<xtr::io_uring_fd_storage>(fd, hp ? path : "", cap, q, b); else st = std::make_unique<xtr::posix_fd_storage>(fd, hp ? path : "", cap);
        close(fd);
        names = {path}; want = {""};
    }
    void put(size_t n)
    {
        auto s = st->allocate_buffer();
        if (uring && fk::in_use(s.data(), s.size())) seq::fail("allocate_buffer handed out a buffer the kernel still uses");
        ++id; std::string x; for (size_t i = 0; i < n; ++i) x += char('A' + (id * 7 + int(i)) % 26);
        memcpy(s.data(), x.data(), n); for (size_t i = n; i < s.size(); ++i) s[i] = '~';
        st->submit_buffer(s.data(), n);
        want[size_t(cur)] += x; seq::note("put%zu", n);
    }
    // what the logger does for a reopen request, after the user possibly moved the file
    void reopen(bool move)
    {
        if (move && names[size_t(cur)] == path) { std::string m = path + "." + std::to_string(++rot); rename(path.c_str(), m.c_str()); names[size_t(cur)] = m; }
        sf::open_failed = sf::open_ok = 0; sf::opened.clear();
        st->flush();
        sf::on = true; int r = st->reopen(); sf::on = false;
        seq::note("%sreopen=%d", move ? "move+" : "", r);
        if (!haspath) { if (r == 0) seq::fail("reopen without a path reported success"); return; }
        if (sf::open_failed && r == 0) seq::fail("reopening failed but success was reported");
        if (!sf::open_failed && r) seq::fail("reopen reported error %d although the file could be opened", r);
        if (r == 0) { if (names[size_t(cur)] != path) { names.push_back(path); want.push_back(""); ++cur; } }
    }
    void check(const char* when)
    {
        for (size_t i = 0; i < names.size(); ++i) {
            std::string got = sf::slurp(names[i].c_str());
            if (got != want[i]) seq::fail("%s: file %zu holds '%s' instead of '%s' [%s %s]", when, i, got.c_str(), want[i].c_str(), fk::hist.c_str(), sf::hist.c_str());
        }
        if (names.back() != path && sf::slurp(path.c_str()) != "<missing>" && haspath) seq::fail("%s: unexpected file at the path", when);
    }
    void sync() { st->flush(); st->sync(); seq::note("sync"); check("after sync"); }
    void end()
    {
        st.reset(); check("after destruction");
        if (fk::inflight()) seq::fail("requests left in flight");
        fk::reset();
        if (sf::fds() != before) seq::fail("a descriptor leaked");
        seq::outcome(sf::hist + "/" + std::to_string(names.size())); sf::workdir();
    }
};
static void history(Run& r, int ops, size_t cap)
{
    for (int i = 0; i < ops; ++i) {
        switch (seq::choose(5)) {
        case 0: r.put(cap); break;
        case 1: r.put(2); break;
        case 2: r.reopen(true); break;
        case 3: r.reopen(false); break;
        case 4: r.sync(); break;
        }
    }
    r.end();
}
static void posix() { fk::reset(); sf::reset(); bool app = seq::flip(), hp = seq::choose(3) != 2; Run r(false, app, hp, 5, 0, 0); sf::f_dup = false; sf::f_write = true; sf::faults = seq::thorough() ? 3 : 2; history(r, seq::thorough() ? 5 : 4, 5); }
static void uring_order()
{
    fk::reset(); sf::reset(); size_t q = size_t(1 + seq::choose(3)), b = size_t(1 + seq::choose(3)); bool app = seq::flip();
    fk::eager = seq::choose(2); seq::note("q%zu b%zu a%d e%d", q, b, app, fk::eager);
    Run r(true, app, true, 5, q, b); sf::f_dup = false; sf::faults = 1;
    history(r, seq::thorough() ? 5 : 4, 5);
}
// short writes and retry requests while the file is being replaced (first file positional, see DESIGN.md)
static void uring_faults()
{
    fk::reset(); sf::reset(); size_t q = size_t(1 + seq::choose(3)), b = size_t(1 + seq::choose(2));
    fk::eager = seq::choose(2); fk::f_err = false; fk::no_append_faults = true; seq::note("q%zu b%zu e%d", q, b, fk::eager);
    Run r(true, false, true, 5, q, b); sf::f_dup = false; sf::faults = 0;
    fk::faults = seq::thorough() ? 3 : 2;
    history(r, seq::thorough() ? 5 : 4, 5);
}
// appending, with a single buffer so that remainders cannot be overtaken
static void uring_append_faults()
{
    fk::reset(); sf::reset(); fk::eager = seq::choose(2); fk::f_err = false;
    Run r(true, true, true, 5, 1, 1); sf::f_dup = false; sf::faults = 0; fk::faults = 3;
    history(r, seq::thorough() ? 5 : 4, 5);
}
static void uring_nopath() { fk::reset(); sf::reset(); Run r(true, seq::flip(), false, 5, 2, 2); history(r, 4, 5); }
int main(int argc, char** argv)
{
    return seq::main_(argc, argv, "C17",
        "sequences of submissions, syncs, file moves and reopen requests on both back ends x failures of open (EINTR, EACCES, EMFILE), short/interrupted/retried writes and every completion order of the requests in flight; histories differ in operations and answers",
        {{"posix", posix}, {"uring_order", uring_order}, {"uring_faults", uring_faults}, {"uring_append_faults", uring_append_faults}, {"uring_nopath", uring_nopath}},
        {"writes to a descriptor in append mode take effect in submission order", "the file at the path is not replaced by somebody else during the reopen"});
}
