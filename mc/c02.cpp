// C02: only the runtime detectors count here (races, lifetimes, deadlocks, crashes).
#include "scn_delivery.h"
#include "scn_try.h"
#include "scn_sync.h"
#include "scn_life.h"
#include "scn_logger.h"
#include "scn_idle.h"

namespace {
#define D(ns, f) void ns##_##f() { mc::oracle(false); ns::f(); }
D(delivery, basic) D(delivery, full_wrap) D(delivery, string_wait) D(delivery, two_producers) D(delivery, two_full) D(delivery, mixed_try)
D(trylog, drop_close) D(trylog, kinds) D(trylog, two_sinks) D(trylog, drop_reregister)
D(syncing, sync_basic) D(syncing, sync_two) D(syncing, sync_full) D(syncing, fatal_traffic)
D(life, copy_close) D(life, rename_) D(life, reregister) D(life, dtor_waits) D(life, heap_sinks) D(life, close_order) D(life, two_loggers)
D(loggerops, get_get) D(loggerops, register_get) D(loggerops, handover)
D(idle, rounds) D(idle, two_threads)

// reading and setting a sink's level from other threads while it logs
void level_any_thread()
{
    mc::quiet(true);
    auto log = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(&rec), fixed_clock(), xtr::null_command_path);
    xtr::sink a = log->get_sink("A");
    a.sync();
    mc::quiet(false);
    std::thread t([&] { a.set_level(xtr::log_level_t::error); mc::outcome(a.level() == xtr::log_level_t::error ? "e" : "o"); a.set_level(xtr::log_level_t::info); });
    std::thread u([&] { a.set_level(xtr::log_level_t::debug); });
    XTR_LOGL(info, a, "i1"); XTR_LOGL(warning, a, "w"); XTR_LOGL(info, a, "i2");
    t.join(); u.join();
    a.close();
    log.reset();
    for (auto& l : split_lines(rec.data)) mc::outcome(l.substr(l.size() - 2));
}
// arguments that own memory: moved into the queue, destroyed by the background thread
void owned_args()
{
    mc::quiet(true);
    auto log = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(&rec), fixed_clock(), xtr::null_command_path);
    xtr::sink a = log->get_sink("A");
    a.sync();
    mc::quiet(false);
    for (int i = 0; i < 3; ++i) {
        std::string s = pat(i, 40);
        auto p = std::make_shared<std::string>(pat(i + 3, 50));
        XTR_LOG(a, "{} {} {}", std::move(s), i, std::string_view(*p));
        p.reset();
    }
    a.close();
    log.reset();
}
// a sink handed to another thread through a properly synchronised hand-over
void handover_mid()
{
    mc::quiet(true);
    auto log = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(&rec), fixed_clock(), xtr::null_command_path);
    auto a = std::make_unique<xtr::sink>(log->get_sink("A"));
    a->sync();
    mc::quiet(false);
    for (int i = 0; i < 2; ++i) XTR_LOG(*a, "{}", mk<1500>(i));
    std::thread t([&] { for (int i = 2; i < 4; ++i) XTR_LOG(*a, "{}", mk<1500>(i)); a.reset(); });
    t.join();
    log.reset();
}
}
int main(int argc, char** argv)
{
    mc::warmup(warm);
    return mc::main_(argc, argv, "C02",
        "every schedule with at most the stated number of preemptions; each is checked by a vector-clock race detector under the C++ memory model's happens-before, a lifetime detector (heap, stack, mapped queue memory, condition variables, mutexes) and deadlock detection",
        {
            {"basic", delivery_basic, 3, 5, 15, 200},
            {"full_wrap", delivery_full_wrap, 3, 5, 10, 100},
            {"string_wait", delivery_string_wait, 3, 5, 10, 100},
            {"two_producers", delivery_two_producers, 2, 3, 15, 200},
            {"two_full", delivery_two_full, 1, 2, 15, 100},
            {"mixed_try", delivery_mixed_try, 2, 4, 10, 100},
            {"drop_close", trylog_drop_close, 3, 5, 10, 100},
            {"kinds", trylog_kinds, 2, 4, 10, 100},
            {"try_two_sinks", trylog_two_sinks, 1, 2, 10, 100},
            {"drop_reregister", trylog_drop_reregister, 3, 5, 10, 100},
            {"sync_basic", syncing_sync_basic, 2, 4, 10, 100},
            {"sync_spurious", syncing_sync_basic, 2, 3, 10, 100, true},
            {"sync_two", syncing_sync_two, 1, 2, 15, 100},
            {"sync_full", syncing_sync_full, 2, 4, 10, 100},
            {"fatal_traffic", syncing_fatal_traffic, 1, 2, 10, 100},
            {"copy_close", life_copy_close, 3, 5, 10, 100},
            {"rename", life_rename_, 2, 4, 10, 100},
            {"reregister", life_reregister, 3, 5, 10, 100},
            {"dtor_waits", life_dtor_waits, 2, 3, 10, 100},
            {"heap_sinks", life_heap_sinks, 2, 3, 10, 100},
            {"close_order", life_close_order, 1, 2, 10, 100},
            {"two_loggers", life_two_loggers, 2, 3, 20, 200},
            {"get_get", loggerops_get_get, 2, 3, 10, 100},
            {"register_get", loggerops_register_get, 1, 2, 10, 100},
            {"handover", loggerops_handover, 2, 3, 10, 100},
            {"handover_mid", handover_mid, 2, 4, 10, 100},
            {"rounds", idle_rounds, 1, 2, 15, 100},
            {"idle_two_threads", idle_two_threads, 1, 2, 10, 100},
            {"level_any_thread", level_any_thread, 2, 3, 15, 200},
            {"owned_args", owned_args, 3, 5, 10, 100},
        }, {"scheduling points at atomic operations, locks, condition variables, thread and memory-mapping operations; plain accesses are covered by the race detector instead of interleaving"});
}
