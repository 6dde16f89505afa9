#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (both committed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, check=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append((d, check, na))

SRB = "include/xtr/detail/synchronized_ring_buffer.hpp"
prop("C01", "Blocking log calls are delivered exactly once, in order and intact",
 "Every message logged by a blocking log call on an open sink reaches the storage back-end exactly once, complete and unmodified, in the order in which it was logged on that sink, whatever the interleaving of the application's threads with the background thread, however full the sink's queue is and wherever in the circular queue the message falls. A blocking log call on a full queue waits until there is room; it never overwrites, drops or truncates what fits in an empty queue. Messages of different sinks never mix within a line.",
 ["schedules", "histories"], "all interleavings of producers and background thread; all fill levels and wrap positions of the queue; all mixes of record kinds",
 "The tests run free-running threads, so they sample a handful of interleavings, and their 64 KB queues are rarely full or wrapped at the moment that matters.",
 [SRB, "include/xtr/sink.hpp", "src/consumer.cpp", "include/xtr/detail/trampolines.hpp", "src/buffer.cpp"],
 [("single-producer single-consumer mirrored ring", SRB), ("record posting", "include/xtr/sink.hpp post/post_with_str_table/log_impl"), ("batch loop", "src/consumer.cpp run"), ("line buffer", "src/buffer.cpp append_line/next_buffer")],
 ["bytes received by the storage interface"],
 check=("mc", "model_checking", "stateless model checking of the real code (all schedules up to a preemption bound)"))
prop("C02", "No data race, dangling access or deadlock with the background thread",
 "With each sink used by one thread at a time (reading or setting a sink's level is allowed from any thread), no interleaving lets an application thread and the background thread touch the same memory without a happens-before ordering under the C++ memory model, or lets either touch an object whose lifetime has ended, including while sinks are created, copied, synced, closed and destroyed. The bytes of a message are completely published before the background thread reads them and their space is not reused before the background thread has finished with them. No such use deadlocks.",
 ["schedules"], "all interleavings, judged with the memory orders the code declares (not those of the x86 test machine)",
 "The test machine is x86 and free-running: missing release/acquire ordering, early publication and windows of a few instructions do not show, and the sanitizer presets are not part of the stable tests.",
 [SRB, "include/xtr/sink.hpp", "src/sink.cpp", "src/consumer.cpp", "src/logger.cpp"],
 [("release/acquire pairs on the queue counters", SRB), ("synchronous hand-off", "src/sink.cpp sync_post/close"), ("atomic level", "include/xtr/sink.hpp level_")],
 check=("mc", "model_checking", "stateless model checking of the real code with a vector-clock race and lifetime detector"))
prop("C03", "Non-blocking log calls never wait and every discarded message is counted",
 "A non-blocking log call completes without waiting for any other thread; it either enqueues its message (string arguments for which there is no room being replaced by the truncation marker) or discards the whole message, and it discards only when the message does not fit in the free space left in the sink's queue by data the background thread has not yet consumed. Messages that are enqueued are delivered exactly once, intact and in order together with the blocking ones. Every discarded message is counted exactly once: by the time the sink has been closed, the numbers in that sink's 'messages dropped' warnings add up to exactly the number of its discarded messages, and the dropped total in the status report equals the sum of the warnings issued so far.",
 ["schedules", "histories"], "all interleavings of a producer making blocking and non-blocking calls with the background thread draining; all fill levels",
 "A drop needs a full queue at a particular instant; the tests stop the background thread artificially and look at one drop pattern, so the concurrent windows (drain racing with drop, drop just before close) are never reached.",
 [SRB, "include/xtr/sink.hpp", "src/consumer.cpp"],
 [("drop counter", SRB + " dropped_count"), ("drop report", "src/consumer.cpp run"), ("status total", "src/consumer.cpp status_handler")],
 check=("mc", "model_checking", "stateless model checking of the real code plus exhaustive fill-level enumeration"))
prop("C04", "sync() and fatal log statements make earlier messages durable first",
 "When a call to sync() on a sink returns, every message previously logged on that sink has been handed to the storage back-end, the back-end has been flushed after receiving the last of them, and the back-end's own sync has completed after that flush; for the file back-ends this means the bytes were written and then synchronised to the device. A fatal log statement does all of this for its own message before the process is aborted, and it syncs and aborts even if its message is filtered out by the sink's level. sync() always returns: no interleaving loses the wake-up.",
 ["schedules", "crash_points"], "all interleavings up to the moment sync() returns or the process aborts",
 "Tests call sync() and then look at the output on a free-running schedule; they cannot show that no schedule returns early, skips the flush or loses the notification.",
 ["src/sink.cpp", "src/consumer.cpp", "src/buffer.cpp", "include/xtr/log_macros.hpp", "include/xtr/io/detail/fd_storage_base.hpp", "src/fd_storage_base.cpp"],
 [("sync_post", "src/sink.cpp"), ("flush then sync", "src/sink.cpp sync"), ("fatal handling", "include/xtr/log_macros.hpp XTR_LOGL_TAGS")],
 check=("mc", "model_checking", "stateless model checking of the real code"))
prop("C05", "Sink and logger life cycle never loses, duplicates or misattributes messages",
 "Closing or destroying a sink returns only after everything logged on it was processed, and afterwards the sink is no longer touched by the logger; it can be registered again (with the same or another logger) and works as new. A copied or assigned sink is connected to the logger of its source under the source's name and level (and to nothing if the source is closed), a rename affects exactly the messages logged after it on that sink, and a sink's messages always carry its own name. Destroying a logger waits until all its sinks are closed, and when it returns everything was delivered and flushed and the back-end released.",
 ["schedules", "histories"], "all interleavings and all short sequences of create/copy/assign/rename/log/close/re-register/destroy over a few sinks and loggers",
 "Tests exercise individual life-cycle calls one at a time on one schedule; removal of a sink while others are mid-batch, copies racing with closes and re-registration with leftover queue state are combinations they do not enumerate.",
 ["src/sink.cpp", "src/logger.cpp", "src/consumer.cpp", "include/xtr/logger.hpp"],
 [("close/clear", "src/sink.cpp close"), ("add/remove sinks", "src/consumer.cpp add_sink, run"), ("member order/join", "include/xtr/logger.hpp")],
 check=("mc+seq", "model_checking", "stateless model checking plus exhaustive operation-sequence enumeration against a reference model"))
prop("C06", "Logger operations may be used concurrently from any number of threads",
 "Obtaining and registering sinks, setting the default log level, the level style and the command path on one logger from several threads at once never races, deadlocks, loses a request or corrupts another thread's request: every sink obtained is registered exactly once under its own name and usable by its owner, and a sink is created with the default level set by a call that happened before it.",
 ["schedules"], "all interleavings of two or more application threads and the background thread",
 "Tests call these functions from a single thread.",
 ["include/xtr/logger.hpp", "src/logger.cpp"],
 [("control queue mutex", "include/xtr/logger.hpp post/control_mutex_"), ("control sink sync", "src/logger.cpp")],
 check=("mc", "model_checking", "stateless model checking of the real code with a vector-clock race detector"))
prop("C07", "An idle logger has flushed everything it has received",
 "Whenever no queue holds an unprocessed message and no application thread does anything further, all messages processed so far are, without any further call, handed to the storage back-end and flushed, no matter how many sinks there are, which of them were created, closed or destroyed meanwhile and in which order the messages arrived. While more messages are queued flushing may be delayed, but a message is never held back indefinitely by sinks that are idle.",
 ["schedules", "histories"], "all interleavings up to quiescence; all numbers and positions of open sinks up to a bound",
 "Tests always call sync() or destroy the logger before looking at the output, which hides a missing idle flush.",
 ["src/consumer.cpp", "src/buffer.cpp"],
 [("flush countdown", "src/consumer.cpp run flush_count"), ("buffer flush", "src/buffer.cpp flush")],
 check=("mc", "model_checking", "stateless model checking of the real code, quiescent states"))
prop("C08", "Log arguments are captured by value when the log call is made",
 "A message shows the values its arguments had when the log call was made, no matter what the program does to them afterwards, for every argument type, size and alignment and every position in the queue (arguments explicitly passed by reference with the no-copy marker excepted, which must be read from the caller's object). Captured arguments are correctly aligned, copied or moved as the call says (an argument passed as an rvalue is moved, not copied) and destroyed exactly once after formatting, and messages that are discarded destroy nothing they did not create. If copying an argument throws, the exception reaches the caller, nothing is logged and the sink keeps working.",
 ["inputs", "histories"], "all combinations of argument kinds (sizes, alignments, ownership, strings) with all queue offsets",
 "Tests use a few types at the start of a fresh 64 KB queue; record layouts with over-aligned, odd-sized or string arguments at every offset including the wrap are not covered.",
 ["include/xtr/sink.hpp", "include/xtr/detail/trampolines.hpp", "include/xtr/detail/align.hpp", "include/xtr/detail/string_table.hpp"],
 [("record layout", "include/xtr/sink.hpp post/post_with_str_table"), ("replay of the layout", "include/xtr/detail/trampolines.hpp")],
 check=("seq", "exploration", "exhaustive enumeration of argument kinds x queue offsets on the real code"))
prop("C09", "The log call allocates no memory, takes no lock and makes no system call",
 "A log call on an open sink performs no heap allocation, mutex operation or system call in the calling thread, for every log macro variant and every kind of argument (other than what copying the argument itself does), whether or not the message is filtered, truncated or dropped; a blocking call on a full queue waits by spinning only.",
 ["inputs", "configurations"], "all macro variants x argument kinds x queue fill states",
 "Nothing in the tests observes allocations or system calls of the calling thread.",
 ["include/xtr/sink.hpp", "include/xtr/log_macros.hpp", SRB, "include/xtr/detail/string_table.hpp", "include/xtr/detail/get_time.hpp", "include/xtr/detail/tsc.hpp"],
 [("lock-free ring", SRB), ("in-queue string table", "include/xtr/detail/string_table.hpp")],
 check=("seq", "exploration", "exhaustive enumeration of call variants under allocation and system-call interception"))
prop("C10", "String arguments appear complete if they fit, else as the truncation marker",
 "Each string argument (C string, string or string view; empty ones, ones with embedded zero bytes where the type has a length, several per message, mixed with other arguments) appears completely in the message whenever it fits in the sink's queue together with what precedes it in the record; otherwise it appears exactly as the text '<truncated>' while every other argument of the message still appears unharmed. A blocking call truncates only what cannot fit even in an empty queue; a non-blocking call truncates only what does not fit in the space currently free. No string ever reads or writes outside its bounds or disturbs a neighbouring record.",
 ["inputs", "histories"], "all string lengths around every boundary x string kinds x numbers of strings x queue offsets and fill levels x blocking or not",
 "Tests check three or four lengths from an empty queue with one string.",
 ["include/xtr/detail/string_table.hpp", "include/xtr/sink.hpp", "include/xtr/detail/trampolines.hpp"],
 [("string table", "include/xtr/detail/string_table.hpp build_string_table/transform_string_table_entry")],
 check=("seq", "exploration", "exhaustive enumeration of lengths, kinds, offsets and fill levels against a reference model"))
prop("C11", "Strings are sanitised: no string argument can forge output",
 "Every byte of a string argument other than printable ASCII is written as a backslash, 'x' and two upper-case hexadecimal digits, and so is the backslash itself, for every kind of string argument (C string, array, string, string view, moved or temporary string, no-copy string) and every log macro; printable characters appear unchanged. Hence no string argument can introduce a line break, a terminal escape sequence or an ambiguous escape into the log, and the original bytes can be recovered from the output.",
 ["inputs"], "all byte values x all string kinds x positions x macros",
 "Tests check one string with a few special characters passed in one or two ways.",
 ["include/xtr/detail/sanitize.hpp", "include/xtr/detail/string_ref.hpp", "include/xtr/detail/string_table.hpp", "include/xtr/sink.hpp"],
 [("character filter", "include/xtr/detail/sanitize.hpp"), ("formatter", "include/xtr/detail/string_ref.hpp")],
 check=("seq", "exploration", "exhaustive enumeration of byte values x string kinds x macro variants on the real code"))
prop("C12", "Log levels filter exactly as documented",
 "A levelled log statement produces its message if and only if its level is at least as important as the sink's current level (and, when debug logging is compiled out, it is not a debug statement); a filtered statement evaluates none of its arguments and leaves no trace, and unlevelled statements are always logged. Levels set on one sink never affect another; new sinks start with the logger's default level, copied sinks with that of their source, and a level can be read back and parsed from every documented name, anything else being rejected with an error.",
 ["inputs", "configurations", "histories"], "all levels x all sink levels x all macro variants x debug on/off; all level spellings; all strings near a level name",
 "Tests sample some level pairs with one macro and never look at argument evaluation.",
 ["include/xtr/log_macros.hpp", "include/xtr/log_level.hpp", "src/log_level.cpp", "include/xtr/sink.hpp", "src/logger.cpp"],
 [("macro filter", "include/xtr/log_macros.hpp XTR_LOGL_TAGS"), ("parser", "src/log_level.cpp")],
 check=("seq", "exploration", "exhaustive enumeration of level pairs, macros, configurations and level strings"))
prop("C13", "The storage back-end sees a gap-free stream through a strict buffer protocol",
 "The logger hands the back-end exactly the concatenation of the formatted lines, in order, whatever buffer sizes the back-end provides: every buffer obtained is submitted at most once and before the next one is obtained, only with bytes written into it, with a size between one and the size provided, and buffers are completely filled except when data is flushed. Nothing is written to a buffer after it was submitted, flush is requested only after everything received before was submitted, and the back-end is called from one thread only and released after the last call.",
 ["inputs", "histories"], "all sequences of line lengths, buffer sizes (including one byte and varying sizes) and flush/sync points up to a bound",
 "Tests use the real file back-ends with one buffer size, so splitting at each boundary and the protocol itself are not observed.",
 ["src/buffer.cpp", "include/xtr/detail/buffer.hpp", "include/xtr/io/storage_interface.hpp", "src/consumer.cpp"],
 [("buffer filling", "src/buffer.cpp append/next_buffer/flush")],
 check=("seq", "exploration", "exhaustive enumeration of line lengths x buffer-size sequences x sync points with a protocol monitor"))
prop("C14", "The POSIX file back-end writes every byte once, in order, under any faults",
 "Whatever sequence of short writes, interruptions and errors the operating system returns, the file receives exactly the submitted bytes, in order and without repetition, up to the first unrecoverable error, which is reported to the caller as an error and not silently swallowed or retried forever; later submissions are still attempted. sync() results in a successful device synchronisation call after all submitted data was written, repeated if interrupted.",
 ["fault_sequences", "inputs"], "all sequences of write(2) results up to a bound for all small sequences of submissions",
 "Real files never return short writes or interruptions in a test run.",
 ["src/posix_fd_storage.cpp", "src/fd_storage_base.cpp", "include/xtr/detail/retry.hpp"],
 [("write loop", "src/posix_fd_storage.cpp submit_buffer"), ("sync", "src/fd_storage_base.cpp sync")],
 check=("seq", "fault_enumeration", "exhaustive enumeration of system-call answers on the real code"))
prop("C15", "The io_uring back-end writes every byte once, in place, for any completions",
 "Whatever the order in which the kernel completes requests and whatever short counts, retry requests or errors it returns, and however full the submission queue or exhausted the buffers are, the file ends up with exactly the submitted bytes at their submission positions (bytes of a request that failed permanently excepted), no buffer is handed out or overwritten while a request still uses it, every buffer eventually becomes available again, and the back-end never waits for a completion that cannot arrive. flush() leaves no accepted data unsubmitted and sync() returns only after all of it has completed and the device was synchronised.",
 ["fault_sequences", "schedules", "configurations"], "all completion orders x results per request up to a bound, for small numbers of buffers, queue and batch sizes",
 "The tests force a few single faults with hooks and otherwise depend on the real kernel, which completes regular file writes fully and in order.",
 ["src/io_uring_fd_storage.cpp", "include/xtr/io/io_uring_fd_storage.hpp"],
 [("buffer free list", "src/io_uring_fd_storage.cpp allocate_buffer/free_buffer"), ("completion handling", "src/io_uring_fd_storage.cpp wait_for_one_cqe/resubmit_buffer"), ("batching", "src/io_uring_fd_storage.cpp submit_buffer/flush")],
 check=("seq", "fault_enumeration", "exhaustive exploration of completion orders and results with a simulated kernel ring under the real code"))
prop("C16", "Setting up file storage reports errors, falls back cleanly and leaks nothing",
 "Creating storage for a path or stream either yields working storage or reports an error, for every failure of any system call it makes; the log file is created if missing and existing content is kept and appended to. If io_uring is unavailable at run time the plain back-end takes over with identical behaviour, including the ability to reopen. After the storage is destroyed, or if its creation failed, no file descriptor, mapping or ring remains open, and the caller's own stream or descriptor is still open and unharmed.",
 ["fault_sequences", "configurations"], "all single and double failures of the system calls made during set-up and tear-down, for every way of constructing storage",
 "Tests cover one or two forced failures and never count descriptors.",
 ["src/fd_storage.cpp", "src/fd_storage_base.cpp", "src/io_uring_fd_storage.cpp", "src/posix_fd_storage.cpp", "src/file_descriptor.cpp"],
 [("fallback", "src/fd_storage.cpp make_fd_storage"), ("descriptor ownership", "src/fd_storage_base.cpp, src/file_descriptor.cpp")],
 check=("seq", "fault_enumeration", "exhaustive system-call failure enumeration on the real code"))
prop("C17", "Reopening (log rotation) splits the log at a clean point and loses nothing",
 "After the log file is moved away and a reopen is requested, everything logged and processed before the reopen is in the old file, everything after in the file newly created at the path, and the concatenation of both is exactly the sequence of messages, with no message split, lost or duplicated, at whatever moment the reopen happens and whatever writes are still in flight. If reopening fails the error is reported to the requester and logging continues to the old file without loss; a back-end without a path reports that it cannot reopen.",
 ["histories", "fault_sequences"], "all positions of reopen requests in short sequences of writes, all failures of the calls made, all in-flight states",
 "Tests reopen once at a quiet moment.",
 ["src/fd_storage_base.cpp", "src/io_uring_fd_storage.cpp", "src/posix_fd_storage.cpp", "src/consumer.cpp"],
 [("reopen", "src/fd_storage_base.cpp reopen"), ("descriptor replacement", "src/io_uring_fd_storage.cpp replace_fd"), ("command handler", "src/consumer.cpp reopen_handler")],
 check=("seq", "fault_enumeration", "exhaustive enumeration of operation sequences, in-flight states and failures"))
prop("C18", "No client of the command socket can crash, hang or corrupt the logger",
 "Whatever clients do on the command socket (any bytes of any length and type, any number of connections, disconnecting or not reading at any moment, any failure of the socket calls) the logger neither crashes nor blocks nor reads or writes out of bounds, logging continues, well-formed requests of other clients are still answered, and no descriptor leaks. A malformed request is answered with an error or its connection is closed; every well-formed request gets exactly its reply sequence and then its connection is closed.",
 ["inputs", "fault_sequences", "histories"], "all request frames over a boundary alphabet; all short sequences of client actions; all system-call outcomes up to a bound",
 "Tests send a handful of well-formed frames over real sockets, one client at a time.",
 ["src/command_dispatcher.cpp", "include/xtr/detail/commands", "src/consumer.cpp", "src/matcher.cpp"],
 [("dispatcher", "src/command_dispatcher.cpp process_commands/process_socket_read/process_socket_write")],
 check=("seq", "fault_enumeration", "exhaustive enumeration of frames, client histories and socket-call outcomes on the real dispatcher"))
prop("C19", "Status and level commands act on exactly the sinks they select",
 "A status request reports exactly the open sinks whose current name matches the request's pattern, each once, with its true name, level, queue capacity, queued bytes and dropped count; a level request sets the level of exactly those sinks and of no other, and reports success; an invalid pattern or an invalid level changes nothing and is answered with an error. Matching follows the selected syntax (none, basic or extended regular expression, shell wildcard) and case sensitivity, and the logger's internal control queue is never reported or changed.",
 ["inputs", "histories", "configurations"], "all pattern types x case flags x patterns and names over a small alphabet x sink sets after any short life-cycle history",
 "Tests use a few patterns against a few fixed sinks.",
 ["src/consumer.cpp", "src/matcher.cpp", "src/regex_matcher.cpp", "src/wildcard_matcher.cpp", "include/xtr/detail/commands"],
 [("handlers", "src/consumer.cpp status_handler/set_level_handler"), ("matchers", "src/matcher.cpp, src/regex_matcher.cpp, src/wildcard_matcher.cpp")],
 check=("seq", "exploration", "exhaustive enumeration of patterns, names, levels and sink sets against a reference matcher"))
prop("C20", "Timestamps are the exact UTC rendering of the time supplied",
 "Each line carries its time as 'YYYY-MM-DD hh:mm:ss.uuuuuu' in UTC with microseconds rounded down: the supplied timestamp for statements given one, the time of the call for the clock-reading variants, else the logger's clock read by the background thread no earlier than the previous message it processed from that sink. This holds for every time in the years 1000 to 9999, including times before 1970, leap days and the last microsecond of a second, minute, day and year, and for clocks of any resolution; cycle-counter timestamps convert to the wall-clock time at which they were taken.",
 ["inputs", "configurations"], "all boundary seconds of many years x sub-second values x clock resolutions and epochs x macro variants",
 "Tests use two or three fixed times.",
 ["include/xtr/timespec.hpp", "include/xtr/logger.hpp", "include/xtr/detail/get_time.hpp", "include/xtr/detail/tsc.hpp", "src/tsc.cpp", "src/consumer.cpp"],
 [("formatter", "include/xtr/timespec.hpp"), ("clock conversion", "include/xtr/logger.hpp make_clock"), ("TSC conversion", "src/tsc.cpp")],
 check=("seq", "exploration", "exhaustive enumeration of boundary times against an independent calendar reference"))
prop("C21", "Queue memory is mirrored and owned exactly once",
 "A queue's two adjacent memory views always alias the same bytes at every offset, for every supported size, so a record running past the end of the queue is contiguous; sizes that are not a multiple of the page size are rejected. The queue offers its reader exactly the unread bytes in order and its writer exactly the free bytes, for every sequence of writes and reads and for the free-running counters at any value. If any system call fails during set-up an error is reported and nothing stays mapped or open; destroying or moving owners releases every mapping and descriptor exactly once.",
 ["inputs", "fault_sequences", "histories"], "all write/read step sequences over the ring up to a bound, all sizes, all single system-call failures, all move/reset/release sequences",
 "Tests check a few fixed sequences and no failures.",
 ["src/mirrored_memory_mapping.cpp", "src/memory_mapping.cpp", "src/file_descriptor.cpp", "src/pagesize.cpp", SRB],
 [("mirroring", "src/mirrored_memory_mapping.cpp"), ("RAII owners", "src/memory_mapping.cpp, src/file_descriptor.cpp"), ("ring", SRB)],
 check=("seq", "exploration", "exhaustive state-space search of the real ring plus system-call failure enumeration"))
prop("C22", "The command-line tool sends what was asked and reports what was answered",
 "For every command line the control tool either sends exactly the request it denotes (command, complete pattern, pattern syntax, level) to the given socket and prints every reply, exiting with success, or reports what is wrong, sends nothing and exits with failure; an error reply, a malformed reply, a missing reply to a level or reopen request or an unreachable socket makes it exit with failure, and no reply crashes it. Every documented command, option and level spelling is accepted.",
 ["inputs", "fault_sequences"], "all command lines up to a bounded number of words over the documented vocabulary plus boundary words; all short reply sequences",
 "There are no tests of the tool at all.",
 ["src/xtrctl.cpp", "docs-src/xtrctl.rst"],
 [("option parsing and exchange", "src/xtrctl.cpp")],
 check=("seq", "exploration", "exhaustive enumeration of command lines and reply sequences against the real binary and a recording server"))
prop("C23", "Container formatting is complete and unambiguous",
 "Logging a sequence, set, map, pair, tuple or nested combination writes every element once, in iteration order, in the documented bracketed and comma-separated form, with string elements included, for empty, one-element and larger containers alike, and captures the container by value like any other argument.",
 ["inputs"], "all container kinds x sizes x element kinds x nestings up to a bound",
 "Tests format a few containers of one size.",
 ["include/xtr/formatters.hpp"],
 [("formatters", "include/xtr/formatters.hpp")],
 check=("seq", "exploration", "exhaustive enumeration of container shapes against a reference printer"))
prop("C24", "A failing message or back-end call never harms other messages or the process",
 "If formatting a message fails or the storage back-end reports an error for a buffer, only that message (or the data of the buffers the back-end refused) is affected: an error is reported on standard error, a message whose formatting failed leaves no part of a line in the log, every other message before and after it is delivered intact and in order, captured arguments are still destroyed, the background thread keeps running and sync, close and destruction still complete.",
 ["fault_sequences", "histories"], "all positions of failing formats in a short sequence and all subsets of failing back-end calls up to a bound",
 "Tests throw once from one formatter and once from one back-end call.",
 ["include/xtr/detail/print.hpp", "src/buffer.cpp", "src/consumer.cpp", "include/xtr/detail/trampolines.hpp"],
 [("exception boundary", "include/xtr/detail/print.hpp print"), ("flush boundary", "src/buffer.cpp flush")],
 check=("seq", "fault_enumeration", "exhaustive enumeration of failure positions on the real code"))
prop("C25", "Every line has the documented layout",
 "Every message is written as one line: the prefix the current level style gives for the statement's level, the timestamp, the sink's name at that point, the base name of the source file with the line number of the statement, and the formatted message, in that order and separated as documented; the default and the systemd level styles give the documented prefix for each level, and a changed style applies to every message logged after the change returned. A drop warning has the same layout with warning level and no source position.",
 ["inputs", "configurations", "histories"], "all levels x styles x macro variants x names x messages over a small alphabet; all positions of a style or name change in a short history",
 "Tests compare a few lines for one or two levels.",
 ["include/xtr/log_macros.hpp", "include/xtr/detail/print.hpp", "include/xtr/detail/string.hpp", "src/log_level.cpp", "src/consumer.cpp"],
 [("format string assembly", "include/xtr/log_macros.hpp, include/xtr/detail/string.hpp"), ("level styles", "src/log_level.cpp")],
 check=("seq", "exploration", "exhaustive enumeration of layouts against an independently built line"))

prop("C26", "The command socket exists exactly where and while it was asked for",
 "A logger listens on the command path it was given (or, by default, on '<dir>/xtrctl.<pid>.<N>' with the documented choice of directory and N counting up), for every path that fits a socket address including abstract ones; after set_command_path it listens only on the new path, and after the logger is destroyed it listens nowhere and its socket file is gone. If a path cannot be used an error is reported and logging works without a socket; a file or socket the logger did not create is never removed or taken over, connections to a replaced socket are closed, and no descriptor leaks.",
 ["inputs", "histories", "fault_sequences", "configurations"], "all short sequences of command paths over a boundary set, failing set-up calls, several loggers on one path, settings of the environment",
 "Tests open one socket at one valid path.",
 ["src/command_dispatcher.cpp", "src/command_path.cpp", "src/consumer.cpp", "src/logger.cpp"],
 [("socket set-up and removal", "src/command_dispatcher.cpp constructor/destructor"), ("replacement", "src/consumer.cpp set_command_path"), ("default path", "src/command_path.cpp")],
 check=("seq", "exploration", "exhaustive enumeration of path histories on the real logger and real sockets"))

DONE = set(open(os.path.join(os.path.dirname(__file__), "done.txt")).read().split())
NOTES = {}
exec(open(os.path.join(os.path.dirname(__file__), "notes.py")).read(), NOTES)
NOTES = NOTES["NOTES"]
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for d, c, na in P:
        f.write(json.dumps(d) + "\n")
checks, nap = [], []
for d, c, na in P:
    i = d["id"]
    if i in DONE:
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough",
            technique=c[2], level=c[1], level_note=NOTES.get(i, c[2]), evidence_file=f"evidence/{i}.json"))
    else:
        nap.append(dict(property=i, reason=na or "check not built yet"))
m = dict(version=1, setup_cmd="python3 run.py --setup",
    hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources unmodified, with -fsanitize=thread call-outs bound to our own runtime, link-time interposition and -DXTR_SINK_CAPACITY", source_commits=[]),
    checks=checks, not_applicable=nap,
    notes="All checks are bounded exhaustive explorations of the real code; see DESIGN.md. Known findings and repairs: known_findings.txt.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
for d, c, na in P:
    assert len(d["title"]) <= 80, d["id"]
    n = d["statement"].count(". ") + 1
    assert n <= 3, (d["id"], n)
print(len(P), "properties,", len(checks), "claimed")
