// C04: sync and fatal.
#include "scn_sync.h"
#include <xtr/io/posix_fd_storage.hpp>
#include <unistd.h>
#include <fcntl.h>
#include <sys/syscall.h>
using namespace syncing;

// ---- the plain file back end: writes and device synchronisations are recorded
static int g_fd = -1; static std::string g_written, g_device; static int g_mode;
static std::mutex* g_m;
extern "C" ssize_t write(int fd, const void* p, size_t n)
{
    if (fd <= 2 || g_fd < 0) return syscall(SYS_write, fd, p, n);
    if (g_mode == 1 && n > 3) n = n / 2;            // short writes
    std::scoped_lock l{*g_m};
    g_written.append((const char*)p, n);
    return ssize_t(n);
}
static int dev_sync(int fd) { if (fd > 2 && g_fd >= 0) { std::scoped_lock l{*g_m}; g_device = g_written; } return 0; }
extern "C" int fsync(int fd) { return dev_sync(fd); }
extern "C" int fdatasync(int fd) { return dev_sync(fd); }
struct posix_open : xtr::posix_fd_storage { using posix_fd_storage::posix_fd_storage; };
static void file_need(const char* what, std::initializer_list<const char*> msgs)
{
    std::scoped_lock l{*g_m};
    size_t p = 0;
    for (auto m : msgs) {
        size_t q = g_device.find(std::string(": ") + m + "\n", p);
        if (q == std::string::npos) mc::fail("%s: '%.60s' was not written to the file and synchronised to the device (device has '%.300s')", what, m, g_device.c_str());
        p = q + 1;
    }
}
static void file_fatal() { file_need("abort in a fatal statement", {"one", "bye"}); }
static void file_sync()
{
    mc::quiet(true);
    g_m = new std::mutex;
    g_fd = open("/dev/null", O_WRONLY);
    auto log = std::make_unique<xtr::logger>(std::make_unique<posix_open>(g_fd), fixed_clock(), xtr::null_command_path);
    { xtr::sink w = log->get_sink("warm"); w.sync(); w.close(); }
    mc::quiet(false);
    g_mode = mc::choose(2);
    xtr::sink a = log->get_sink("A");
    XTR_LOG(a, "one");
    a.sync(); file_need("first sync", {"one"});
    XTR_LOG(a, "two {}", "x");
    a.sync(); file_need("second sync", {"one", "two x"});
    if (mc::choose(2)) { mc::on_abort(file_fatal); XTR_LOGL(fatal, a, "bye"); mc::fail("the fatal statement returned"); }
    a.close(); log.reset();
    g_fd = -1;
}

int main(int argc, char** argv)
{
    mc::warmup(warm);
    return mc::main_(argc, argv, "C04",
        "every schedule with at most the stated number of preemptions (and spurious wake-ups, counted as deviations, where marked)",
        {
            {"sync_basic", sync_basic, 3, 5, 20, 300},
            {"sync_spurious", sync_basic, 2, 4, 20, 300, true},
            {"sync_small", sync_small, 3, 5, 20, 200},
            {"sync_full", sync_full, 3, 5, 20, 200},
            {"sync_two", sync_two, 1, 2, 30, 400},
            {"sync_two_spurious", sync_two, 1, 2, 30, 300, true},
            {"sync_traffic", sync_traffic, 2, 4, 30, 300},
            {"sync_copy", sync_copy, 2, 4, 20, 300},
            {"fatal_plain", fatal_plain, 3, 5, 20, 200},
            {"fatal_filtered", fatal_filtered, 2, 4, 20, 200},
            {"fatal_kinds", fatal_kinds, 2, 3, 20, 200},
            {"fatal_traffic", fatal_traffic, 2, 3, 20, 300},
            {"file_sync", file_sync, 2, 3, 20, 300},
        }, {"the plain file back end runs against a recording write/fsync; io_uring's part of sync is decided by C15"});
}
