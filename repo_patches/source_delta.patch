From 032ea97364ae3102f27d887c719800a773a9e8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:40 +0000
Subject: [PATCH 01/32] fix: report dropped messages that are pending when a
 sink is closed

---
 include/xtr/detail/consumer.hpp |  5 +++++
 src/consumer.cpp                | 30 ++++++++++++++++++++++--------
 src/sink.cpp                    |  7 ++++++-
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/include/xtr/detail/consumer.hpp b/include/xtr/detail/consumer.hpp
index e2bda1d..c857c40 100644
--- a/include/xtr/detail/consumer.hpp
+++ b/include/xtr/detail/consumer.hpp
@@ -81,8 +81,13 @@ public:
 
     buffer buf;
     bool destroy = false;
+    // Count of dropped messages that were not yet reported when the sink which
+    // set the destroy flag was closed.
+    std::size_t destroy_n_dropped = 0;
 
 private:
+    void print_dropped(
+        const char* ts, const std::string& name, std::size_t n_dropped) noexcept;
     void status_handler(int fd, detail::status&);
     void set_level_handler(int fd, detail::set_level&);
     void reopen_handler(int fd, detail::reopen&);
diff --git a/src/consumer.cpp b/src/consumer.cpp
index eaa00fb..3ccfd2d 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -68,6 +68,7 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
         }
 
         destroy = false;
+        destroy_n_dropped = 0;
 
         if (ts_stale)
         {
@@ -93,8 +94,15 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
             pos = fptr(buf, pos, *this, ts, sinks_[n].name);
         } while (pos < end);
 
+        std::size_t n_dropped;
+
         if (destroy)
         {
+            // The sink may no longer exist, so its dropped count (if any) was
+            // obtained when the sink was closed.
+            if ((n_dropped = destroy_n_dropped) > 0)
+                print_dropped(ts, sinks_[n].name, n_dropped);
+
             using std::swap;
             swap(sinks_[n], sinks_.back()); // possible self-swap, ok
             sinks_.pop_back();
@@ -104,17 +112,10 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
         sinks_[n]->buf_.reduce_readable(
             sink::ring_buffer::size_type(pos - span.begin()));
 
-        std::size_t n_dropped;
         if (sinks_[n]->buf_.read_span().empty() &&
             (n_dropped = sinks_[n]->buf_.dropped_count()) > 0)
         {
-            detail::print(
-                buf,
-                "{}{} {}: {} messages dropped\n",
-                log_level_t::warning,
-                ts,
-                sinks_[n].name,
-                n_dropped);
+            print_dropped(ts, sinks_[n].name, n_dropped);
             sinks_[n].dropped_count += n_dropped;
         }
 
@@ -123,6 +124,19 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
     }
 }
 
+XTR_FUNC
+void xtr::detail::consumer::print_dropped(
+    const char* ts, const std::string& name, std::size_t n_dropped) noexcept
+{
+    detail::print(
+        buf,
+        "{}{} {}: {} messages dropped\n",
+        log_level_t::warning,
+        ts,
+        name,
+        n_dropped);
+}
+
 XTR_FUNC
 void xtr::detail::consumer::add_sink(sink& s, const std::string& name)
 {
diff --git a/src/sink.cpp b/src/sink.cpp
index 1f7b744..9a1b2a8 100644
--- a/src/sink.cpp
+++ b/src/sink.cpp
@@ -71,7 +71,12 @@ void xtr::sink::close()
 {
     if (open_)
     {
-        sync_post([](detail::consumer& c) { c.destroy = true; });
+        sync_post(
+            [this](detail::consumer& c)
+            {
+                c.destroy = true;
+                c.destroy_n_dropped = buf_.dropped_count();
+            });
         open_ = false;
         // clear() is called here in case the sink is registered with the
         // logger again, e.g. via assignment. This is because when the
-- 
2.43.0


From 47f672c4eb3579f9470c81412de85fbf65e3addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:40 +0000
Subject: [PATCH 02/32] fix: flush the data of closed sinks when the logger is
 idle

---
 src/consumer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index 3ccfd2d..5941a29 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -106,6 +106,8 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
             using std::swap;
             swap(sinks_[n], sinks_.back()); // possible self-swap, ok
             sinks_.pop_back();
+            // Data from the closed sink may still need to be flushed
+            flush_count = sinks_.size();
             continue;
         }
 
-- 
2.43.0


From e626afcd17bbda5fefd0edbacb9403515c572cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:19 +0000
Subject: [PATCH 03/32] fix: hold the control mutex while syncing the control
 sink, make the default level atomic

---
 include/xtr/logger.hpp | 13 ++++++++++++-
 src/logger.cpp         |  6 ++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/xtr/logger.hpp b/include/xtr/logger.hpp
index b72b054..976a70f 100644
--- a/include/xtr/logger.hpp
+++ b/include/xtr/logger.hpp
@@ -31,6 +31,7 @@
 #include "log_level.hpp"
 #include "sink.hpp"
 
+#include <atomic>
 #include <chrono>
 #include <cstdio>
 #include <ctime>
@@ -331,6 +332,16 @@ private:
         control_.post(std::forward<Func>(f));
     }
 
+    // As per post, but waits until f has been processed. The lock must be held
+    // until sync has completed as it also posts to control_.
+    template<typename Func>
+    void post_and_sync(Func&& f)
+    {
+        std::scoped_lock lock{control_mutex_};
+        control_.post(std::forward<Func>(f));
+        control_.sync();
+    }
+
     template<typename Clock>
     std::function<std::timespec()> make_clock(Clock&& clock)
     {
@@ -354,7 +365,7 @@ private:
     jthread consumer_;
     sink control_;
     std::mutex control_mutex_;
-    log_level_t default_log_level_ = log_level_t::info;
+    std::atomic<log_level_t> default_log_level_{log_level_t::info};
 
     friend sink;
 };
diff --git a/src/logger.cpp b/src/logger.cpp
index 386fdce..7e7a6a4 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -43,23 +43,21 @@ void xtr::logger::register_sink(sink& s, std::string name) noexcept
 XTR_FUNC
 void xtr::logger::set_command_path(std::string path) noexcept
 {
-    post(
+    post_and_sync(
         [s = std::move(path)](detail::consumer& c, auto&) mutable
         {
             c.set_command_path(std::move(s));
         });
-    control_.sync();
 }
 
 XTR_FUNC
 void xtr::logger::set_log_level_style(log_level_style_t level_style) noexcept
 {
-    post(
+    post_and_sync(
         [=](detail::consumer& c, auto&)
         {
             c.buf.lstyle = level_style;
         });
-    control_.sync();
 }
 
 
-- 
2.43.0


From 6be56aedbfda32298cea2c8767e1ccfbe0e8bc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:47 +0000
Subject: [PATCH 04/32] fix: avoid deadlock if the io_uring batch size exceeds
 the queue size

---
 src/io_uring_fd_storage.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 32b1f41..86272dc 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -26,6 +26,7 @@
 
 #include <liburing.h>
 
+#include <algorithm>
 #include <cassert>
 #include <cstdio>
 #include <cstring>
@@ -46,7 +47,8 @@ xtr::io_uring_fd_storage::io_uring_fd_storage(
 :
     fd_storage_base(fd, std::move(reopen_path)),
     buffer_capacity_(buffer_capacity),
-    batch_size_(batch_size),
+    // No more than queue_size buffers can be collected
+    batch_size_(std::min(batch_size, queue_size)),
     io_uring_submit_func_(io_uring_submit_func),
     io_uring_get_sqe_func_(io_uring_get_sqe_func),
     io_uring_wait_cqe_func_(io_uring_wait_cqe_func),
-- 
2.43.0


From c08f51fc21bbe79a39ffc26c3fd6fc488100450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:20 +0000
Subject: [PATCH 05/32] fix: start io_uring writes at the current position of
 the file

---
 src/io_uring_fd_storage.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 86272dc..091ebbb 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -26,6 +26,8 @@
 
 #include <liburing.h>
 
+#include <unistd.h>
+
 #include <algorithm>
 #include <cassert>
 #include <cstdio>
@@ -77,6 +79,11 @@ xtr::io_uring_fd_storage::io_uring_fd_storage(
             "io_uring_queue_init failed");
     }
 
+    // Writes are positional, so start at the current position of the file,
+    // as write(2) would.
+    if (const ::off_t pos = ::lseek(fd_.get(), 0, SEEK_CUR); pos > 0)
+        offset_ = std::size_t(pos);
+
     allocate_buffers(queue_size);
 }
 
-- 
2.43.0


From 8079b5601661a537d16dd1cbb87f0a0117d5aed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:33 +0000
Subject: [PATCH 06/32] fix: retry fsync if it is interrupted

---
 src/fd_storage_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fd_storage_base.cpp b/src/fd_storage_base.cpp
index 45db47f..342e207 100644
--- a/src/fd_storage_base.cpp
+++ b/src/fd_storage_base.cpp
@@ -49,7 +49,7 @@ xtr::detail::fd_storage_base::fd_storage_base(int fd, std::string reopen_path)
 XTR_FUNC
 void xtr::detail::fd_storage_base::sync() noexcept
 {
-    ::fsync(fd_.get());
+    (void)XTR_TEMP_FAILURE_RETRY(::fsync(fd_.get()));
 }
 
 XTR_FUNC
-- 
2.43.0


From 08add754c7f08af84f766ae9a560854d5e1cccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:54 +0000
Subject: [PATCH 07/32] fix: reset the user data of the io_uring close request
 queued by reopen

---
 src/io_uring_fd_storage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 091ebbb..3058231 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -179,6 +179,8 @@ void xtr::io_uring_fd_storage::replace_fd(int newfd) noexcept
     // ensure that all previous writes complete before closing.
     io_uring_sqe* sqe = get_sqe();
     ::io_uring_prep_close(sqe, fd_.release());
+    // Submission queue entries are reused, so may hold the data of a write
+    ::io_uring_sqe_set_data(sqe, nullptr);
     sqe->flags |= IOSQE_IO_DRAIN;
     ++pending_cqe_count_;
     io_uring_submit_func_(&ring_);
-- 
2.43.0


From f8aa08a591f5308ea1cdd18c5045ba8f67d84f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:01 +0000
Subject: [PATCH 08/32] fix: close the file descriptor opened by
 make_fd_storage

---
 src/fd_storage.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fd_storage.cpp b/src/fd_storage.cpp
index b6e4520..bc70e65 100644
--- a/src/fd_storage.cpp
+++ b/src/fd_storage.cpp
@@ -23,6 +23,7 @@
 #include "xtr/io/io_uring_fd_storage.hpp"
 #include "xtr/io/posix_fd_storage.hpp"
 
+#include "xtr/detail/file_descriptor.hpp"
 #include "xtr/detail/retry.hpp"
 #include "xtr/detail/throw.hpp"
 
@@ -39,17 +40,19 @@
 XTR_FUNC
 xtr::storage_interface_ptr xtr::make_fd_storage(const char* path)
 {
-    const int fd =
+    // The storage object duplicates the file descriptor, so the file descriptor
+    // opened here must be closed.
+    const detail::file_descriptor fd(
         XTR_TEMP_FAILURE_RETRY(
             ::open(
                 path,
                 O_CREAT|O_APPEND|O_WRONLY,
-                S_IRUSR|S_IWUSR|S_IRGRP|S_IWGRP|S_IROTH|S_IWOTH));
+                S_IRUSR|S_IWUSR|S_IRGRP|S_IWGRP|S_IROTH|S_IWOTH)));
 
-    if (fd == -1)
+    if (!fd)
         detail::throw_system_error_fmt(errno, "Failed to open `%s'", path);
 
-    return make_fd_storage(fd, path);
+    return make_fd_storage(fd.get(), path);
 }
 
 XTR_FUNC
-- 
2.43.0


From 79dba10153f249c870b7a9ab5dfc599d80ceed7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:22 +0000
Subject: [PATCH 09/32] fix: keep the reopen path when falling back to
 posix_fd_storage

---
 src/fd_storage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fd_storage.cpp b/src/fd_storage.cpp
index bc70e65..91a79f3 100644
--- a/src/fd_storage.cpp
+++ b/src/fd_storage.cpp
@@ -72,7 +72,8 @@ xtr::storage_interface_ptr xtr::make_fd_storage(int fd, std::string reopen_path)
     {
         try
         {
-            return std::make_unique<io_uring_fd_storage>(fd, std::move(reopen_path));
+            // reopen_path is copied as it is needed if falling back
+            return std::make_unique<io_uring_fd_storage>(fd, reopen_path);
         }
         catch (const std::exception& e)
         {
-- 
2.43.0


From 45ccf8e425ad3589a75da05995e85706d69baeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:23 +0000
Subject: [PATCH 10/32] fix: release the io_uring if registering buffers fails

---
 src/io_uring_fd_storage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 3058231..ee2f312 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -219,6 +219,8 @@ void xtr::io_uring_fd_storage::allocate_buffers(std::size_t queue_size)
     if (const int errnum =
         ::io_uring_register_buffers(&ring_, &iov[0], unsigned(iov.size())))
     {
+        // The destructor will not run as this is called by the constructor
+        ::io_uring_queue_exit(&ring_);
         detail::throw_system_error_fmt(
             -errnum,
             "xtr::io_uring_fd_storage::allocate_buffers: "
-- 
2.43.0


From f9196b0a48c22a4a3d0d61f23b285aef54c1a01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:25 +0000
Subject: [PATCH 11/32] fix: complete short writes to the previous file when
 reopening

---
 src/io_uring_fd_storage.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index ee2f312..e3a77e1 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -174,6 +174,15 @@ void xtr::io_uring_fd_storage::submit_buffer(char* data, std::size_t size)
 XTR_FUNC
 void xtr::io_uring_fd_storage::replace_fd(int newfd) noexcept
 {
+    // Wait for any pending writes, as if a write is short then the remainder
+    // must be written to the file descriptor that is being replaced.
+    if (pending_cqe_count_ > 0)
+    {
+        io_uring_submit_func_(&ring_);
+        while (pending_cqe_count_ > 0)
+            wait_for_one_cqe();
+    }
+
     // As write events might be in-flight, closing the file descriptor must
     // be queued up behind any pending writes. IOSQE_IO_DRAIN is used to
     // ensure that all previous writes complete before closing.
-- 
2.43.0


From 25e591b200a543f53c831e108b26f8ae7a5b954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:38 +0000
Subject: [PATCH 12/32] fix: sanitize strings that are moved into log records

---
 include/xtr/detail/string_ref.hpp   | 32 +++++++++++++++++++++++++++++
 include/xtr/detail/string_table.hpp |  9 ++++++++
 2 files changed, 41 insertions(+)

diff --git a/include/xtr/detail/string_ref.hpp b/include/xtr/detail/string_ref.hpp
index 5a76114..5d088f1 100644
--- a/include/xtr/detail/string_ref.hpp
+++ b/include/xtr/detail/string_ref.hpp
@@ -24,7 +24,9 @@
 #include "sanitize.hpp"
 
 #include <fmt/core.h>
+#include <fmt/format.h>
 
+#include <iterator>
 #include <string>
 #include <string_view>
 
@@ -66,6 +68,19 @@ namespace xtr::detail
 
         std::string_view str;
     };
+
+    // Refers to a string that was moved into a log record
+    template<>
+    struct string_ref<std::string>
+    {
+        explicit string_ref(const std::string& s)
+        :
+            str(s)
+        {
+        }
+
+        const std::string& str;
+    };
 }
 
 namespace fmt
@@ -107,6 +122,23 @@ namespace fmt
             return pos;
         }
     };
+
+    template<>
+    struct formatter<xtr::detail::string_ref<std::string>>
+    :
+        formatter<std::string_view>
+    {
+        template<typename FormatContext>
+        auto format(xtr::detail::string_ref<std::string> ref, FormatContext &ctx) const
+        {
+            std::string sanitized;
+            sanitized.reserve(ref.str.size());
+            auto pos = std::back_inserter(sanitized);
+            for (const char c : ref.str)
+                xtr::detail::sanitize_char_to(pos, c);
+            return formatter<std::string_view>::format(sanitized, ctx);
+        }
+    };
 }
 
 #endif
diff --git a/include/xtr/detail/string_table.hpp b/include/xtr/detail/string_table.hpp
index e2a7ebd..f32274e 100644
--- a/include/xtr/detail/string_table.hpp
+++ b/include/xtr/detail/string_table.hpp
@@ -72,6 +72,15 @@ namespace xtr::detail
         return string_ref<std::string_view>(str);
     }
 
+    // Strings that were moved into the log record are not in the string table,
+    // but must be sanitized.
+    inline string_ref<std::string> transform_string_table_entry(
+        const std::byte*,
+        std::string& value)
+    {
+        return string_ref<std::string>(value);
+    }
+
     // Forward if T is either:
     // * std::string&&
     // * Not a C string, string, or string_view
-- 
2.43.0


From 94390e1dc56761a338befb83b5b6a7cadd9afc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:04 +0000
Subject: [PATCH 13/32] fix: do not cut nocopy strings at embedded null
 characters

---
 include/xtr/detail/string_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/detail/string_ref.hpp b/include/xtr/detail/string_ref.hpp
index 5d088f1..888e034 100644
--- a/include/xtr/detail/string_ref.hpp
+++ b/include/xtr/detail/string_ref.hpp
@@ -54,7 +54,7 @@ namespace xtr::detail
     };
 
     string_ref(const char*) -> string_ref<const char*>;
-    string_ref(const std::string&) -> string_ref<const char*>;
+    string_ref(const std::string&) -> string_ref<std::string_view>;
     string_ref(const std::string_view&) -> string_ref<std::string_view>;
 
     template<>
-- 
2.43.0


From 28bce52ca6de568251fc3e780c766e62e9d4508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:58 +0000
Subject: [PATCH 14/32] fix: qualify the call to align in post_with_str_table

Logging a string together with an over-aligned argument did not compile.
---
 include/xtr/sink.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/sink.hpp b/include/xtr/sink.hpp
index 66e88fd..f768b91 100644
--- a/include/xtr/sink.hpp
+++ b/include/xtr/sink.hpp
@@ -285,7 +285,7 @@ void xtr::sink::post_with_str_table(Args&&... args)
 
     auto func_pos = s.begin() + sizeof(fptr_t);
     if constexpr (alignof(lambda_t) > alignof(fptr_t))
-        func_pos = align<alignof(lambda_t)>(func_pos);
+        func_pos = detail::align<alignof(lambda_t)>(func_pos);
 
     static_assert(alignof(char) == 1);
     const auto str_pos = func_pos + sizeof(lambda_t);
-- 
2.43.0


From d18fedf8a1aac9978b911345fd64b3764ff82acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:17 +0000
Subject: [PATCH 15/32] fix: round clock times before the epoch down to the
 second

The result of the subtraction was discarded, so such times had a negative
sub-second part.
---
 include/xtr/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/logger.hpp b/include/xtr/logger.hpp
index 976a70f..17bbd37 100644
--- a/include/xtr/logger.hpp
+++ b/include/xtr/logger.hpp
@@ -355,7 +355,7 @@ private:
                 const auto now = clock_.now();
                 auto sec = time_point_cast<seconds>(now);
                 if (sec > now)
-                    sec - seconds{1};
+                    sec -= seconds{1};
                 return std::timespec{
                     .tv_sec=sec.time_since_epoch().count(),
                     .tv_nsec=duration_cast<nanoseconds>(now - sec).count()};
-- 
2.43.0


From 8d199da2fdbad0eb1170473cdbe25425a1630c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:09 +0000
Subject: [PATCH 16/32] fix: synchronise the TSC with the wall clock before the
 first conversion

Timestamps taken within a minute of the counter being reset were shown as
times in 1970.
---
 src/tsc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tsc.cpp b/src/tsc.cpp
index 1565473..d248cab 100644
--- a/src/tsc.cpp
+++ b/src/tsc.cpp
@@ -159,8 +159,8 @@ std::timespec xtr::detail::tsc::to_timespec(tsc ts)
     static const std::uint64_t one_minute_ticks = 60 * get_tsc_hz();
     static const double tsc_multiplier = 1e9 / double(get_tsc_hz());
 
-    // Sync up TSC and wall clocks every minute
-    if (ts.ticks > last_tsc.ticks + one_minute_ticks)
+    // Sync up TSC and wall clocks initially and then every minute
+    if (last_tsc.ticks == 0 || ts.ticks > last_tsc.ticks + one_minute_ticks)
     {
         last_tsc = tsc::now();
         std::timespec temp;
-- 
2.43.0


From 1f010d987c09c66f14a5bccf1cbf5b028374d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:03 +0000
Subject: [PATCH 17/32] fix: do not submit a buffer twice if allocating the
 next one throws

---
 src/buffer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buffer.cpp b/src/buffer.cpp
index 021c71a..f45db02 100644
--- a/src/buffer.cpp
+++ b/src/buffer.cpp
@@ -114,7 +114,11 @@ XTR_FUNC
 void xtr::detail::buffer::next_buffer()
 {
     if (pos_ != begin_) [[likely]] // if not the first call to push_back
+    {
         storage_->submit_buffer(begin_, std::size_t(pos_ - begin_));
+        // Must not be submitted again if allocate_buffer throws
+        pos_ = begin_ = end_ = nullptr;
+    }
     const std::span<char> s = storage_->allocate_buffer();
     begin_ = s.data();
     end_ = begin_ + s.size();
-- 
2.43.0


From f36d1ae82e2d8d21a3e7c5736722f8572a6d3381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:10 +0000
Subject: [PATCH 18/32] fix: do not terminate if reporting a log error fails

The report formats the timestamp of the failed message again and writes to
stderr, either of which may throw.
---
 include/xtr/detail/print.hpp | 21 +++++++++++++++------
 src/buffer.cpp               | 19 +++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/xtr/detail/print.hpp b/include/xtr/detail/print.hpp
index 6713e4b..a3cb63b 100644
--- a/include/xtr/detail/print.hpp
+++ b/include/xtr/detail/print.hpp
@@ -26,6 +26,7 @@
 
 #include <fmt/format.h>
 
+#include <cstdio>
 #include <iterator>
 #include <stdexcept>
 #include <string>
@@ -64,13 +65,21 @@ namespace xtr::detail
         catch (const std::exception& e)
         {
             using namespace std::literals::string_view_literals;
-            fmt::print(
-                stderr,
-                "{}{}: Error writing log: {}\n"sv,
-                buf.lstyle(log_level_t::error),
-                ts,
-                e.what());
             buf.line.clear();
+            try
+            {
+                fmt::print(
+                    stderr,
+                    "{}{}: Error writing log: {}\n"sv,
+                    buf.lstyle(log_level_t::error),
+                    ts,
+                    e.what());
+            }
+            catch (const std::exception&)
+            {
+                // Formatting the timestamp or writing to stderr failed
+                std::fprintf(stderr, "Error writing log: %s\n", e.what());
+            }
         }
 #endif
     }
diff --git a/src/buffer.cpp b/src/buffer.cpp
index f45db02..912408c 100644
--- a/src/buffer.cpp
+++ b/src/buffer.cpp
@@ -61,12 +61,19 @@ void xtr::detail::buffer::flush() noexcept
     catch (const std::exception& e)
     {
         using namespace std::literals::string_view_literals;
-        fmt::print(
-            stderr,
-            "{}{}: Error flushing log: {}\n"sv,
-            lstyle(log_level_t::error),
-            detail::get_time<XTR_CLOCK_WALL>(),
-            e.what());
+        try
+        {
+            fmt::print(
+                stderr,
+                "{}{}: Error flushing log: {}\n"sv,
+                lstyle(log_level_t::error),
+                detail::get_time<XTR_CLOCK_WALL>(),
+                e.what());
+        }
+        catch (const std::exception&)
+        {
+            // Writing to stderr failed, there is nothing more to be done
+        }
     }
 #endif
 }
-- 
2.43.0


From 745fc02e68a7d53c746def439371219e076e5fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:17 +0000
Subject: [PATCH 19/32] fix: formatting of empty tuples did not compile

---
 include/xtr/formatters.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/xtr/formatters.hpp b/include/xtr/formatters.hpp
index a13ead9..9bc159f 100644
--- a/include/xtr/formatters.hpp
+++ b/include/xtr/formatters.hpp
@@ -64,13 +64,16 @@ namespace fmt
             std::index_sequence<Index, Indexes...>) const
         {
             fmt::format_to(ctx.out(), "(");
-            if (std::tuple_size_v<T> > 0)
-            {
-                fmt::format_to(ctx.out(), "{}", std::get<0>(value));
-                ((fmt::format_to(ctx.out(), ", {}", std::get<Indexes>(value))), ...);
-            }
+            fmt::format_to(ctx.out(), "{}", std::get<0>(value));
+            ((fmt::format_to(ctx.out(), ", {}", std::get<Indexes>(value))), ...);
             return fmt::format_to(ctx.out(), ")");
         }
+
+        template<typename FormatContext>
+        auto format_impl(const T&, FormatContext& ctx, std::index_sequence<>) const
+        {
+            return fmt::format_to(ctx.out(), "()");
+        }
     };
 
     template<associative_container T>
-- 
2.43.0


From 90eba3500d240fc123aaa32502f1e786a7f12d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:17 +0000
Subject: [PATCH 20/32] fix: formatting of iterable types without an empty
 member did not compile

---
 include/xtr/formatters.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtr/formatters.hpp b/include/xtr/formatters.hpp
index 9bc159f..186e326 100644
--- a/include/xtr/formatters.hpp
+++ b/include/xtr/formatters.hpp
@@ -121,9 +121,9 @@ namespace fmt
         auto format(const T& value, FormatContext& ctx) const
         {
             fmt::format_to(ctx.out(), "[");
-            if (!value.empty())
+            auto it = std::begin(value);
+            if (it != std::end(value))
             {
-                auto it = std::begin(value);;
                 fmt::format_to(ctx.out(), "{}", *it++);
                 while (it != std::end(value))
                     fmt::format_to(ctx.out(), ", {}", *it++);
-- 
2.43.0


From 9ab9fde1ca03fa81554df318b360b35cbe177f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:43 +0000
Subject: [PATCH 21/32] fix: do not unmap the mirror twice if creating a
 mirrored mapping fails

---
 src/mirrored_memory_mapping.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mirrored_memory_mapping.cpp b/src/mirrored_memory_mapping.cpp
index 70c05f0..7dec960 100644
--- a/src/mirrored_memory_mapping.cpp
+++ b/src/mirrored_memory_mapping.cpp
@@ -128,9 +128,14 @@ xtr::detail::mirrored_memory_mapping::mirrored_memory_mapping(
             prot,
             MAP_FIXED|MAP_SHARED|MAP_ANONYMOUS|flags);
 
+        // If an error occurs the mirror is unmapped along with reserve. On
+        // success the mirror will be recreated in ~mirrored_memory_mapping
+        void* const mirror_addr = mirror.get();
+        mirror.release();
+
         m_.reset(
             ::mremap(
-                mirror.get(),
+                mirror_addr,
                 0,
                 length,
                 MREMAP_FIXED|MREMAP_MAYMOVE,
@@ -146,7 +151,6 @@ xtr::detail::mirrored_memory_mapping::mirrored_memory_mapping(
         }
 
         reserve.release(); // mapping was destroyed by mremap
-        mirror.release(); // mirror will be recreated in ~mirrored_memory_mapping
         return;
 #else
         if (!(temp_fd = shm_open_anon(O_RDWR, S_IRUSR|S_IWUSR)))
@@ -180,10 +184,13 @@ xtr::detail::mirrored_memory_mapping::mirrored_memory_mapping(
         fd,
         offset);
 
+    // If an error occurs the mirror is unmapped along with reserve. On
+    // success the mirror will be recreated in ~mirrored_memory_mapping
+    mirror.release();
+
     m_ = memory_mapping(reserve.get(), length, prot, flags, fd, offset);
 
     reserve.release(); // mapping was destroyed when m_ was created
-    mirror.release(); // mirror will be recreated in ~mirrored_memory_mapping
 }
 
 XTR_FUNC
-- 
2.43.0


From 0714fc53fd2cd22f4598499bd618cb3955076b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:57 +0000
Subject: [PATCH 22/32] fix: do not read past the end of the command
 connections after disconnecting the last one

---
 src/command_dispatcher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/command_dispatcher.cpp b/src/command_dispatcher.cpp
index 2566293..b65f073 100644
--- a/src/command_dispatcher.cpp
+++ b/src/command_dispatcher.cpp
@@ -157,7 +157,7 @@ void xtr::detail::command_dispatcher::process_commands(int timeout) noexcept
 
     for (std::size_t i = 1; i < pollfds_.size() && nfds > 0; ++i)
     {
-        const int fd = pollfds_[i].fd.get();
+        const std::size_t n = pollfds_.size();
         if ((pollfds_[i].revents & POLLOUT) != 0)
         {
             process_socket_write(pollfds_[i]);
@@ -168,7 +168,7 @@ void xtr::detail::command_dispatcher::process_commands(int timeout) noexcept
             process_socket_read(pollfds_[i]);
             --nfds;
         }
-        if (fd != pollfds_[i].fd.get())
+        if (n != pollfds_.size())
             --i; // Adjust for erased item
     }
 }
-- 
2.43.0


From 64944024a201d1ea518473665d06266032172cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:57 +0000
Subject: [PATCH 23/32] fix: do not read arbitrary bytes sent by a client as a
 bool

---
 include/xtr/detail/commands/pattern.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xtr/detail/commands/pattern.hpp b/include/xtr/detail/commands/pattern.hpp
index cde5971..a4191ed 100644
--- a/include/xtr/detail/commands/pattern.hpp
+++ b/include/xtr/detail/commands/pattern.hpp
@@ -28,7 +28,8 @@ namespace xtr::detail
     struct pattern
     {
         pattern_type_t type;
-        bool ignore_case;
+        // Not bool, as a request received from a client may contain any value
+        unsigned char ignore_case;
         char text[256];
     };
 }
-- 
2.43.0


From e1f82198de6327251c69021c51d7867a509030b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:57 +0000
Subject: [PATCH 24/32] fix: do not index empty strings in strzcpy

---
 include/xtr/detail/strzcpy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/detail/strzcpy.hpp b/include/xtr/detail/strzcpy.hpp
index ac03246..99f4f2b 100644
--- a/include/xtr/detail/strzcpy.hpp
+++ b/include/xtr/detail/strzcpy.hpp
@@ -31,7 +31,7 @@ namespace xtr::detail
     void strzcpy(char (&dst)[DstSz], const Src& src)
     {
         const std::size_t n = std::min(DstSz - 1, std::size(src));
-        std::memcpy(dst, &src[0], n);
+        std::memcpy(dst, std::data(src), n);
         dst[n] = '\0';
     }
 }
-- 
2.43.0


From a226d795964932af6c12395a836ec9351f32d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:57 +0000
Subject: [PATCH 25/32] fix: reject negative levels in level requests

---
 src/consumer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index 5941a29..6621f68 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -233,7 +233,7 @@ void xtr::detail::consumer::set_level_handler(int fd, detail::set_level& sl)
 {
     sl.pattern.text[sizeof(sl.pattern.text) - 1] = '\0';
 
-    if (sl.level > xtr::log_level_t::debug)
+    if (sl.level < xtr::log_level_t::none || sl.level > xtr::log_level_t::debug)
     {
         cmds_->send_error(fd, "Invalid level");
         return;
-- 
2.43.0


From fe92944e09d93cfe158a44debf270dab1262e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:57 +0000
Subject: [PATCH 26/32] fix: setting the command path to the current path
 removed the command socket

---
 src/consumer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index 6621f68..3e12852 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -151,6 +151,8 @@ void xtr::detail::consumer::set_command_path(std::string path) noexcept
     if (path == null_command_path)
         return;
 
+    // Close the existing socket first, as it may be bound to the same path
+    cmds_.reset();
     cmds_.reset(new detail::command_dispatcher(std::move(path)));
 
     // Reset if failed to open
-- 
2.43.0


From 7b04115e6aad3781a9cc770bd29af7deed7fd8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:57 +0000
Subject: [PATCH 27/32] fix: status and level commands skipped a sink while the
 logger is being destroyed

---
 include/xtr/detail/consumer.hpp |  4 ++++
 src/consumer.cpp                | 12 ++++--------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xtr/detail/consumer.hpp b/include/xtr/detail/consumer.hpp
index c857c40..83f97e7 100644
--- a/include/xtr/detail/consumer.hpp
+++ b/include/xtr/detail/consumer.hpp
@@ -66,6 +66,7 @@ public:
     consumer(buffer&& bf, sink* control, std::string command_path)
     :
         buf(std::move(bf)),
+        control_(control),
         sinks_({{control, "control", 0}})
     {
         set_command_path(std::move(command_path));
@@ -92,6 +93,9 @@ private:
     void set_level_handler(int fd, detail::set_level&);
     void reopen_handler(int fd, detail::reopen&);
 
+    // The logger's control sink is not visible to commands. It may be closed
+    // before other sinks (by ~logger), so is not always the first in sinks_.
+    const sink* const control_;
     std::vector<sink_handle> sinks_;
     std::unique_ptr<
         detail::command_dispatcher,
diff --git a/src/consumer.cpp b/src/consumer.cpp
index 3e12852..8db6594 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -211,11 +211,9 @@ void xtr::detail::consumer::status_handler(int fd, detail::status& st)
         return;
     }
 
-    for (std::size_t i = 1; i < sinks_.size(); ++i)
+    for (auto& s : sinks_)
     {
-        auto& s = sinks_[i];
-
-        if (!(*matcher)(s.name.c_str()))
+        if (s.p == control_ || !(*matcher)(s.name.c_str()))
             continue;
 
         detail::frame<detail::sink_info> sif;
@@ -253,11 +251,9 @@ void xtr::detail::consumer::set_level_handler(int fd, detail::set_level& sl)
         return;
     }
 
-    for (std::size_t i = 1; i < sinks_.size(); ++i)
+    for (auto& s : sinks_)
     {
-        auto& s = sinks_[i];
-
-        if (!(*matcher)(s.name.c_str()))
+        if (s.p == control_ || !(*matcher)(s.name.c_str()))
             continue;
 
         s->set_level(sl.level);
-- 
2.43.0


From 6b5d6ace4d4c03ca95f0e23b94d4b0c675f098bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:57 +0000
Subject: [PATCH 28/32] fix: accept the documented level none in xtrctl

---
 src/xtrctl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/xtrctl.cpp b/src/xtrctl.cpp
index 0149c2b..2518645 100644
--- a/src/xtrctl.cpp
+++ b/src/xtrctl.cpp
@@ -56,7 +56,7 @@ namespace
             "\n"
             "  status [pattern]             Displays sink statuses\n"
             "  level <level> [pattern]      Sets sink log levels. Valid levels are;\n"
-            "                               fatal, error, warning, info, debug\n"
+            "                               none, fatal, error, warning, info, debug\n"
             "  reopen                       Reopens the log file\n"
             "\n"
             "The pattern accepted by the status and level commands is by default a\n"
@@ -115,9 +115,11 @@ int main(int argc, char* argv[])
     xtr::log_level_t log_level = xtr::log_level_t::none;
     xtrd::pattern_type_t pattern_type = xtrd::pattern_type_t::none;
     bool status = false;
+    bool level = false;
     bool reopen = false;
 
     std::map<std::string, xtr::log_level_t> levels_map{
+        {"none", xtr::log_level_t::none},
         {"fatal", xtr::log_level_t::fatal},
         {"error", xtr::log_level_t::error},
         {"warning", xtr::log_level_t::warning},
@@ -145,6 +147,7 @@ int main(int argc, char* argv[])
             usage(argv[0], EXIT_FAILURE, "Please specify a log level");
         if (levels_map.count(argv[2]) == 0)
             usage(argv[0], EXIT_FAILURE, "Invalid log level");
+        level = true;
         log_level = levels_map[argv[2]];
         ++optind;
     }
@@ -219,7 +222,7 @@ int main(int argc, char* argv[])
         if (nwritten != sizeof(st))
             err("Error writing to socket");
     }
-    else if (log_level != xtr::log_level_t::none)
+    else if (level)
     {
         xtrd::frame<xtrd::set_level> sl;
         sl->level = log_level;
-- 
2.43.0


From 86839fb2fe83d0b98b727539a56a23f4a29bcd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:57 +0000
Subject: [PATCH 29/32] fix: do not send truncated patterns in xtrctl

---
 src/xtrctl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xtrctl.cpp b/src/xtrctl.cpp
index 2518645..19964e7 100644
--- a/src/xtrctl.cpp
+++ b/src/xtrctl.cpp
@@ -205,6 +205,10 @@ int main(int argc, char* argv[])
     if (pattern != nullptr && pattern_type == xtrd::pattern_type_t::none)
         pattern_type = xtrd::pattern_type_t::basic_regex;
 
+    // A truncated pattern could match sinks other than those intended
+    if (pattern != nullptr && std::strlen(pattern) >= sizeof(xtrd::pattern::text))
+        errx("Pattern is too long");
+
     const xtrd::file_descriptor fd = xtrd::command_connect(path);
 
     if (!fd)
-- 
2.43.0


From c339d7115c87b767b37180232ac871640818f047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:57 +0000
Subject: [PATCH 30/32] fix: exit with failure in xtrctl if no reply is
 received

---
 src/xtrctl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xtrctl.cpp b/src/xtrctl.cpp
index 19964e7..22415a2 100644
--- a/src/xtrctl.cpp
+++ b/src/xtrctl.cpp
@@ -244,6 +244,7 @@ int main(int argc, char* argv[])
     }
 
     std::vector<xtrd::sink_info> infos;
+    bool success = false;
     xtrd::frame_buf buf;
 
     while (const ::ssize_t nbytes = xtrd::command_recv(fd.get(), buf))
@@ -261,6 +262,7 @@ int main(int argc, char* argv[])
             break;
         case xtrd::success::frame_id:
             std::cout << "Success\n";
+            success = true;
             break;
         case xtrd::error::frame_id:
             errx("Error: ", frame_cast<xtrd::error>(&buf, std::size_t(nbytes))->reason);
@@ -269,6 +271,10 @@ int main(int argc, char* argv[])
         }
     }
 
+    // Only the status command may have no reply (if no sinks match)
+    if (!status && !success)
+        errx("Connection closed without a reply");
+
     std::sort(
         infos.begin(),
         infos.end(),
-- 
2.43.0


From d9cc9758d2067c56731e59a6f44db3bbd57508e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:57 +0000
Subject: [PATCH 31/32] fix: terminate strings received by xtrctl

---
 src/xtrctl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/xtrctl.cpp b/src/xtrctl.cpp
index 22415a2..20a288e 100644
--- a/src/xtrctl.cpp
+++ b/src/xtrctl.cpp
@@ -259,13 +259,18 @@ int main(int argc, char* argv[])
         {
         case xtrd::sink_info::frame_id:
             infos.push_back(*frame_cast<xtrd::sink_info>(&buf, std::size_t(nbytes)));
+            infos.back().name[sizeof(infos.back().name) - 1] = '\0';
             break;
         case xtrd::success::frame_id:
             std::cout << "Success\n";
             success = true;
             break;
         case xtrd::error::frame_id:
-            errx("Error: ", frame_cast<xtrd::error>(&buf, std::size_t(nbytes))->reason);
+        {
+            auto* const ep = frame_cast<xtrd::error>(&buf, std::size_t(nbytes));
+            ep->reason[sizeof(ep->reason) - 1] = '\0';
+            errx("Error: ", ep->reason);
+        }
         default:
             errx("Invalid frame id");
         }
-- 
2.43.0


From adb85d30d16081769e9f0ef35f717e879f54fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:42 +0000
Subject: [PATCH 32/32] fix: keep writes in order after reopening a file via
 io_uring

---
 src/io_uring_fd_storage.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index e3a77e1..c0ca028 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -183,14 +183,13 @@ void xtr::io_uring_fd_storage::replace_fd(int newfd) noexcept
             wait_for_one_cqe();
     }
 
-    // As write events might be in-flight, closing the file descriptor must
-    // be queued up behind any pending writes. IOSQE_IO_DRAIN is used to
-    // ensure that all previous writes complete before closing.
+    // No writes are in-flight so IOSQE_IO_DRAIN is not required. It must not be
+    // used, as writes to the new file which are submitted before the close
+    // completes would be deferred and may then be appended in any order.
     io_uring_sqe* sqe = get_sqe();
     ::io_uring_prep_close(sqe, fd_.release());
     // Submission queue entries are reused, so may hold the data of a write
     ::io_uring_sqe_set_data(sqe, nullptr);
-    sqe->flags |= IOSQE_IO_DRAIN;
     ++pending_cqe_count_;
     io_uring_submit_func_(&ring_);
 
-- 
2.43.0

