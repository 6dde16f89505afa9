// C05: life cycle.
#include "scn_life.h"
using namespace life;
int main(int argc, char** argv)
{
    mc::warmup(warm);
    return mc::main_(argc, argv, "C05",
        "every operation sequence of the stated depth over two loggers and three sinks, and every schedule of the fixed scenarios with at most the stated number of preemptions",
        {
            {"ops4_2loggers_2sinks", ops<4, 2, 2>, 0, 1, 60, 900},
            {"ops3_2loggers_3sinks", ops<3, 2, 3>, 0, 1, 60, 900},
            {"ops3_1logger_2sinks", ops<3, 1, 2>, 1, 2, 60, 900},
            {"ops2_2loggers_3sinks", ops<2, 2, 3>, 1, 2, 60, 600},
            {"ops4_2loggers_3sinks", ops<4, 2, 3>, 0, 0, 100, 600, false, 1},
            {"ops5_1logger_2sinks", ops<5, 1, 2>, 0, 1, 100, 900, false, 1},
            {"ops6_1logger_2sinks", ops<6, 1, 2>, 0, 0, 100, 900, false, 1},
            {"copy_close", copy_close, 3, 5, 20, 200},
            {"rename", rename_, 3, 5, 20, 200},
            {"reregister", reregister, 3, 5, 20, 200},
            {"dtor_waits", dtor_waits, 2, 4, 20, 300},
            {"dtor_now", dtor_now, 3, 5, 20, 200},
            {"heap_sinks", heap_sinks, 2, 3, 20, 200},
            {"close_order", close_order, 1, 3, 20, 300},
            {"two_loggers", two_loggers, 2, 3, 30, 300},
        }, {});
}
