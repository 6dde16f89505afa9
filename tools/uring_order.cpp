// Comparison of the fake io_uring (seq/fakeuring.h) with a real kernel; not part of any check, because the
// result depends on the kernel, the file system and timing.
//   g++ -std=c++20 -O1 -DXTR_FUNC= -I/repo/include tools/uring_order.cpp $(ls /repo/src/*.cpp | grep -v xtrctl) -lfmt -luring -lpthread -o /tmp/uring_order
//   /tmp/uring_order DIR [rotate 0|1] [append 0|1] [rounds]
// Writes six numbered lines (rotating after the first), one request each, and counts the rounds in which
// the lines of the new file are not in order. Before the repair "keep writes in order after reopening a
// file via io_uring" 172 of 2000 rotations were out of order here (close with IOSQE_IO_DRAIN: a write
// issued inline overtakes writes that are deferred behind the draining request); afterwards 0 of 6000.
#include <xtr/io/io_uring_fd_storage.hpp>
#include <unistd.h>
#include <fcntl.h>
#include <cstdio>
#include <cstdlib>
#include <string>
int main(int argc, char** argv)
{
    if (argc < 2) return 2;
    std::string l = std::string(argv[1]) + "/uring_order.log", l1 = l + ".1"; bool rotate = argc < 3 || atoi(argv[2]), app = argc < 4 || atoi(argv[3]); int rounds = argc < 5 ? 2000 : atoi(argv[4]), bad = 0;
    for (int it = 0; it < rounds; ++it) {
        unlink(l.c_str()); unlink(l1.c_str());
        int fd = open(l.c_str(), O_CREAT | O_WRONLY | (app ? O_APPEND : 0), 0644);
        {
            xtr::io_uring_fd_storage st(fd, l, 64, 16, 1); close(fd);
            auto put = [&](int i) { auto b = st.allocate_buffer(); int n = snprintf(b.data(), 64, "%d\n", i); st.submit_buffer(b.data(), size_t(n)); st.flush(); };
            put(0); if (rotate) { rename(l.c_str(), l1.c_str()); st.reopen(); }
            for (int i = 1; i < 6; ++i) put(i);
            st.sync();
        }
        FILE* f = fopen(l.c_str(), "r"); int want = rotate ? 1 : 0, v; bool ok = true; while (fscanf(f, "%d", &v) == 1) if (v != want++) ok = false; fclose(f);
        if (!ok || want != 6) ++bad;
    }
    unlink(l.c_str()); unlink(l1.c_str());
    printf("%d of %d rounds out of order\n", bad, rounds);
}
